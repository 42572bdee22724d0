"""(property, label, [(file, old, new)]) that break a property, and equivalent edits."""

GM = "mapper/gitmapper/"

BROKEN = [
    ("C01", "author email lost", [("metadata.py", 'obj["author_email"],', 'obj["author"],')]),
    ("C01", "parameter defaults", [("metadata.py", 'obj["parameter"]\n', 'obj.get("parameters", {})\n')]),
    ("C01", "prefix entry overwritten", [(GM + "versionlistmapper.py",
        "            if primary_data_version not in version_records:\n                version_records", "            if True:\n                version_records")]),
    ("C01", "same prefix for all", [(GM + "versionlistmapper.py", '"path": version_record.prefix_path.as_posix()',
                                     '"path": version_record.prefix_path.name')]),
    ("C01", "text stripped", [(GM + "gitbackend/subprocess.py", "return checked_run(cmd_line).stdout.decode()",
                               "return checked_run(cmd_line).stdout.decode().strip()")]),
    ("C01", "identifier dropped", [(GM + "metadatarootrecordmapper.py", "json_object[Strings.DATASET_VERSION],", "None,")]),
    ("C01", "only first extractor", [("metadata.py", "                MetadataInstanceSet.from_json_obj(instance_set_json_obj)",
                                      "                MetadataInstanceSet.from_json_obj(instance_set_json_obj)\n            break")]),
    ("C01", "instance keys by position", [("metadata.py", "            int(configuration_id): MetadataInstance",
                                           "            int(configuration_id) + 1: MetadataInstance")]),
    ("C01", "uuid entries wrong column", [(GM + "uuidsetmapper.py", "UUID(line_elements[3])", "UUID(line_elements[2])")]),
    ("C01", "tree children kind swapped", [(GM + "mtreenodemapper.py", '"040000" if isinstance(child_node, MTreeNode) else "100644",\n                "tree" if isinstance(child_node, MTreeNode) else "blob"', '"040000" if isinstance(child_node, MTreeNode) else "100644",\n                "blob"')]),
    ("C01", "empty values stored as null", [(GM + "metadatarootrecordmapper.py", "Strings.DATASET_VERSION: mrr.dataset_version,", "Strings.DATASET_VERSION: mrr.dataset_version.lower(),")]),
    ("C01", "time stamp truncated", [("metadata.py", '"time_stamp": self.time_stamp,', '"time_stamp": int(self.time_stamp),')]),
    ("C01", "leaf skipped", [(GM + "mtreenodemapper.py", "if not child_node.reference.is_none_reference()", 'if not child_node.reference.is_none_reference()\n            and not child_name.startswith("q")')]),
    ("C06", "remove_child no touch", [("mtreenode.py", "        self.touch()\n        del self", "        del self")]),
    ("C06", "add children touch before load only if empty", [("mtreenode.py", "        self.touch()\n        self.child_nodes = {", "        if not self.child_nodes:\n            self.touch()\n        self.child_nodes = {")]),
    ("C06", "set_versioned touch only for new", [("versionlist.py", "        self.touch()\n        if primary_data_version not in self.version_set:", "        if primary_data_version not in self.version_set:\n            self.touch()")]),
    ("C06", "uuid set: touch lost", [("uuidset.py", "        self.touch()\n", "")]),
    ("C06", "dlm: no touch if None", [("metadatarootrecord.py", "        self.touch()\n        self.dataset_level_metadata", "        if dataset_level_metadata is not None:\n            self.touch()\n        self.dataset_level_metadata")]),
    ("C06", "extractor run known extractor", [("metadata.py", "        self.touch()\n\n        instance_set", "        if extractor_name not in self.instance_sets:\n            self.touch()\n        instance_set")]),
    ("C06", "set_unsaved keeps realm", [("modifiableobject.py", "        self.saved_on = set()\n\n    def is", "        self.saved_on = {x for x in self.saved_on if x == self.realm}\n\n    def is")]),
    ("C07", "extractors generator unloaded", [("metadata.py", "    def extractors(self) -> Generator[str, None, None]:\n        self.ensure_mapped()\n", "    def extractors(self) -> Generator[str, None, None]:\n")]),
    ("C07", "len without load", [("versionlist.py", "    def __len__(self):\n        self.ensure_mapped()\n", "    def __len__(self):\n")]),
    ("C07", "get_child without load", [("mtreenode.py", "        self.ensure_mapped()\n        return self.child_nodes.get(", "        return self.child_nodes.get(")]),
    ("C07", "uuid unget without load", [("uuidset.py", "        self.ensure_mapped()\n        self.uuid_set[uuid].write_out()", "        self.uuid_set[uuid].write_out()")]),
    ("C07", "eq other not loaded", [("metadata.py", "        other.ensure_mapped()\n", "")]),
    ("C07", "late load", [("metadata.py", "        self.ensure_mapped()\n        return self.instance_sets[extractor_name]", "        result = self.instance_sets[extractor_name]\n        self.ensure_mapped()\n        return result")]),
    ("C07", "ensure_mapped forgets read", [("mappableobject.py", "            self.read_in(backend_type)\n", "")]),
    ("C07", "read_in rereads", [("mappableobject.py", "        if self.mapped is False:\n            assert self.realm", "        if self.mapped is False or self.is_saved_on(self.realm):\n            assert self.realm")]),
    ("C07", "read_in without mapped", [("mappableobject.py", "            # Mark the object as mapped.\n            self.mapped = True\n", "")]),
    ("C07", "ensure_mapped inverse result", [("mappableobject.py", "            self.mapped = True\n            return True\n        return False", "            self.mapped = True\n        return False")]),
    ("C07", "traversal without load", [("mtreenode.py", "        with ensure_mapped(self):\n            for", "        if True:\n            for")]),
    ("C07", "deepcopy without load", [("mappableobject.py", "        with ensure_mapped(self):\n            result", "        if True:\n            result")]),
    ("C08", "any instead of all", [("modifiableobject.py", "        return all(\n            map(", "        return any(\n            map(")]),
    ("C08", "destination ignored", [("modifiableobject.py", "if destination not in self.saved_on:", "if not self.saved_on:")]),
    ("C08", "children checked at own realm", [("modifiableobject.py", "element.is_saved_on(destination)", "element.is_saved_on(self.realm)")]),
    ("C08", "locations not compared", [("mappableobject.py", "            or self.stored_sub_locations == self._get_sub_locations())", "            or len(self.stored_sub_locations) == len(self._get_sub_locations()))")]),
    ("C08", "mrr forgets file tree", [("metadatarootrecord.py", "for child in [self.dataset_level_metadata, self._file_tree]", "for child in [self.dataset_level_metadata]")]),
    ("C08", "mrr unsaved only if mapped child", [("metadatarootrecord.py", "            if child is not None\n        ]", "            if child is not None and child is not self._file_tree\n        ]")]),
    ("C08", "version list only first record", [("versionlist.py", "            for version_record in prefixed_set.values()\n        )", "            for version_record in list(prefixed_set.values())[:1]\n        )")]),
    ("C08", "proxy other realm", [("mtreeproxy.py", "return self.mtree.is_saved_on(destination)", "return self.mtree.is_saved_on(self.mtree.realm)")]),
    ("C08", "uuidset no subobjects", [("uuidset.py", "        return self.uuid_set.values()\n\n    def purge", "        return [v for v in self.uuid_set.values() if v.mapped is None]\n\n    def purge")]),
    ("C09", "purge without check", [("mappableobject.py", "            if not any(map(self.is_saved_on, self.saved_on)):", "            if not self.saved_on:")]),
    ("C09", "purge before check", [("mappableobject.py", "            if not any(map(self.is_saved_on, self.saved_on)):\n                raise ValueError(\n                    f\"purge({self}): called with unsaved object: {self}\")\n            self.purge_impl()", "            self.purge_impl()\n            if not any(map(self.is_saved_on, self.saved_on)):\n                raise ValueError(\n                    f\"purge({self}): called with unsaved object: {self}\")")]),
    ("C09", "any(...) over children split", [("mappableobject.py", "            if not any(map(self.is_saved_on, self.saved_on)):", "            if not self.saved_on or not all(any(map(c.is_saved_on, self.saved_on)) for c in self.modifiable_sub_objects):")]),
    ("C09", "mtreenode keeps children", [("mtreenode.py", "            child_node.purge()\n        self.child_nodes = dict()", "            child_node.purge()")]),
    ("C09", "mrr purge keeps filetree loaded", [("metadatarootrecord.py", "        if self._file_tree is not None:\n            self._file_tree.purge()\n", "")]),
    ("C09", "purge keeps mapped", [("mappableobject.py", "            self.purge_impl()\n            self.mapped = False\n", "            self.purge_impl()\n")]),
    ("C09", "text keeps content", [("text.py", "self.content = None", "pass"), ]),
    ("C09", "purge drops reference", [("mappableobject.py", "            self.purge_impl()\n            self.mapped = False\n", "            self.purge_impl()\n            self.mapped = False\n            self.reference = None\n")]),
    ("C10", "realm first", [("mappableobject.py", "        reference = get_mapper(\n", "        self.realm = destination_realm\n        reference = get_mapper(\n")]),
    ("C10", "saved first", [("mappableobject.py", "        reference = get_mapper(\n", "        self.set_saved_on(destination_realm)\n        reference = get_mapper(\n")]),
    ("C10", "unsaved first", [("mappableobject.py", "        reference = get_mapper(\n", "        if force_write:\n            self.set_unsaved()\n        reference = get_mapper(\n")]),
    ("C10", "mapper drops children", [("mapper/gitmapper/uuidsetmapper.py", "        tree_entries = [\n", "        uuid_set.saved_on = set()\n        tree_entries = [\n")]),
    ("C11", "realm not updated if saved", [("mappableobject.py", "                self.realm = destination_realm\n                logger", "                logger")]),
    ("C11", "no saved", [("mappableobject.py", "        self.set_saved_on(destination_realm)\n", "        self.set_saved_on(self.reference.location)\n")]),
    ("C11", "force ignored", [("mappableobject.py", "            if not force_write:\n", "            if self.realm is not None:\n")]),
    ("C11", "wrong destination", [("mappableobject.py", "                self,\n                destination_realm,\n                force_write)", "                self,\n                self.realm or destination_realm,\n                force_write)")]),
    ("C11", "mapper default destination", [("mapper/gitmapper/versionlistmapper.py", "reference = element.write_out(realm)", "reference = element.write_out()")]),
    ("C11", "uuid only unsaved lists", [("mapper/gitmapper/uuidsetmapper.py", "version_list.write_out(realm)", "version_list.write_out()")]),
    ("C11", "old reference", [("mappableobject.py", "        self.reference = reference\n        self.set_saved_on", "        self.reference = self.reference or reference\n        self.set_saved_on")]),
    ("C11", "unmapped other realm", [("mappableobject.py", "            if not self.is_saved_on(destination_realm):\n                raise", "            if not self.is_saved_on(self.realm):\n                raise")]),
    ("C24", "updater drops leaf type check", [("mapper/gitmapper/treeupdater.py", "if existing_entry.type != leaf_info.type:", "if existing_entry.type is None:")]),
    ("C24", "updater empties existing dirs", [("mapper/gitmapper/treeupdater.py", "            sub_dir_entries = _get_dir(repo, directory_hash)", "            sub_dir_entries = _get_dir(repo, directory_hash) if len(sub_path_infos) == 1 else []")]),
    ("C24", "updater prefix names", [("mapper/gitmapper/treeupdater.py", "and matching_path_info.first() == path_info.first()", "and matching_path_info.first().startswith(path_info.first())")]),
    ("C24", "updater file to dir", [("mapper/gitmapper/treeupdater.py", "            if root_entry_table[directory_name].type != EntryType.Directory:\n                raise ValueError(\n                    f\"cannot convert file to directory: {directory_name}\")\n            directory_hash = root_entry_table[directory_name].object_hash\n            sub_dir_entries = _get_dir(repo, directory_hash)", "            directory_hash = root_entry_table[directory_name].object_hash\n            sub_dir_entries = _get_dir(repo, directory_hash) if root_entry_table[directory_name].type == EntryType.Directory else []")]),
    ("C24", "updater no uniqueness", [("mapper/gitmapper/treeupdater.py", "    _check_leaf_uniqueness(leaf_infos)\n\n\ndef", "    pass\n\n\ndef")]),
    ("C24", "updater modes", [("mapper/gitmapper/treeupdater.py", "            flag = \"100644\"", "            flag = \"040000\"")]),
    ("C24", "updater reads types wrong", [("mapper/gitmapper/treeupdater.py", "                if object_type == \"blob\"", "                if object_type == \"tree\"")]),
    ("C24", "add child overwrites", [("mtreenode.py", "        if duplicated_names:\n", "        if len(duplicated_names) > 1:\n")]),
    ("C24", "converts leaf", [("mtreenode.py", "            if not isinstance(existing_child, MTreeNode):\n                raise ValueError(\n                    f\"non tree-node named {path_element} exists: \"\n                    f\"{existing_child}, cannot be converted to a \"\n                    f\"tree-node\")", "            if not isinstance(existing_child, MTreeNode):\n                self.remove_child(path_element)\n                existing_child = MTreeNode(self.leaf_class)\n                self.add_child(path_element, existing_child)")]),
    ("C24", "intermediate replaced", [("mtreenode.py", "            if existing_child is None:\n                # Create", "            if existing_child is None or not existing_child.child_nodes:\n                # Create")]),
    ("C24", "remove wrong", [("mtreenode.py", "        containing_node.remove_child(path.parts[-1])", "        self.remove_child(path.parts[0])")]),
    ("C24", "add_dataset at root path", [("datasettree.py", "        self.mtree.add_child_at(metadata_root_record,\n                                path / datalad_root_record_name)", "        if len(path) == 0 and path in self:\n            self.mtree.remove_child(datalad_root_record_name)\n        self.mtree.add_child_at(metadata_root_record,\n                                path / datalad_root_record_name)")]),
    ("C24", "add_metadata replaces", [("filetree.py", "        self.mtree.add_child_at(metadata, path)", "        if path in self:\n            self.mtree.remove_child_at(path)\n        self.mtree.add_child_at(metadata, path)")]),
    ("C24", "delete subtree only record", [("datasettree.py", "        self.mtree.remove_child_at(subtree_path)", "        self.mtree.remove_child_at(subtree_path / datalad_root_record_name)")]),
    ("C27", "first wins", [("metadata.py", "        instance_key = self.parameter_set.index(metadata_instance.configuration)\n        self._instances[instance_key] = metadata_instance", "        instance_key = self.parameter_set.index(metadata_instance.configuration)\n        self._instances.setdefault(instance_key, metadata_instance)")]),
    ("C27", "time stamp truth", [("metadata.py", "time_stamp if time_stamp is not None else time.time()", "time_stamp or time.time()")]),
    ("C27", "swapped author", [("metadata.py", "                author_name,\n                author_email,\n                configuration,\n                metadata_content))\n\n        self.inst", "                author_email,\n                author_name,\n                configuration,\n                metadata_content))\n\n        self.inst")]),
    ("C27", "new set each time", [("metadata.py", "        instance_set = self.instance_sets.get(\n            extractor_name,\n            MetadataInstanceSet())", "        instance_set = MetadataInstanceSet()")]),
    ("C27", "version only", [("metadata.py", "        if metadata_instance.configuration not in self.parameter_set:\n            self.parameter_set.append(metadata_instance.configuration)\n        instance_key = self.parameter_set.index(metadata_instance.configuration)", "        versions = [c.version for c in self.parameter_set]\n        if metadata_instance.configuration.version not in versions:\n            self.parameter_set.append(metadata_instance.configuration)\n            versions.append(metadata_instance.configuration.version)\n        instance_key = versions.index(metadata_instance.configuration.version)")]),
    ("C27", "tree swallow", [("filetree.py", "            metadata = Metadata()\n            self.add_metadata(path, metadata)", "            metadata = Metadata()")]),
    ("C27", "always last key", [("metadata.py", "        instance_key = self.parameter_set.index(metadata_instance.configuration)", "        instance_key = len(self.parameter_set) - 1")]),
    ("C27", "filetree extractor strip", [("filetree.py", "            time_stamp,\n            extractor_name,\n            author_name,", "            time_stamp,\n            extractor_name.lower(),\n            author_name,")]),
    ("C31", "set replaces version", [("versionlist.py", "        if primary_data_version not in self.version_set:\n            self.version_set[primary_data_version] = dict()", "        self.version_set[primary_data_version] = dict()")]),
    ("C31", "set keeps old stamp", [("versionlist.py", "        self.version_set[primary_data_version][prefix_path] = VersionRecord(\n            time_stamp,\n            prefix_path,\n            element)", "        self.version_set[primary_data_version].setdefault(prefix_path, VersionRecord(\n            time_stamp,\n            prefix_path,\n            element)).element = element")]),
    ("C31", "lookup lenient", [("versionlist.py", "        return self.version_set[primary_data_version][prefix_path]", "        records = self.version_set[primary_data_version]\n        return records.get(prefix_path, next(iter(records.values())))")]),
    ("C31", "path lookup stops early", [("mtreenode.py", "                return None\n            current_node = current_node.get_child(element)", "                return current_node\n            current_node = current_node.get_child(element)")]),
    ("C31", "dataset contains dir", [("datasettree.py", "        return self.mtree.get_object_at_path(path / datalad_root_record_name) is not None", "        return self.mtree.get_object_at_path(path) is not None")]),
    ("C31", "set_file_tree keeps old", [("metadatarootrecord.py", "        self._file_tree = file_tree\n\n    def get", "        self._file_tree = file_tree or self._file_tree\n\n    def get")]),
    ("C31", "uuid first only", [("uuidset.py", "        self.uuid_set[uuid] = version_list", "        self.uuid_set.setdefault(uuid, version_list)")]),
    ("C31", "runs for extractor", [("metadata.py", "        return self.instance_sets[extractor_name]", "        return next(iter(self.instance_sets.values()))")]),
    ("C31", "tree set swaps", [("versionlist.py", "            primary_data_version=primary_data_version,\n            time_stamp=time_stamp,", "            primary_data_version=primary_data_version,\n            time_stamp=primary_data_version,")]),
    ("C32", "only leaves of first level", [("mtreenode.py", "                        yield MetadataPath(child_name) / sub_path, tree_node", "                        yield sub_path, tree_node")]),
    ("C32", "intermediate lost", [("mtreenode.py", "                    for sub_path, tree_node in child_node.get_paths_recursive(\n                            show_intermediate):", "                    for sub_path, tree_node in child_node.get_paths_recursive():")]),
    ("C32", "datasets: root lost", [("datasettree.py", "            if path.parts[-1] == datalad_root_record_name\n", "            if path.parts[-1] == datalad_root_record_name and len(path) > 1\n")]),
    ("C32", "datasets: prefix", [("datasettree.py", "MetadataPath(\"/\".join(path.parts[:-1])),", "MetadataPath(\"/\".join(path.parts[:1])),")]),
    ("C32", "versions once", [("versionlist.py", "        yield from map(\n            lambda vvr: vvr[0],\n            self._iterate_version_records())", "        yield from self.version_set.keys()")]),
    ("C32", "elements by version only", [("versionlist.py", "            for version, prefixed_set in self.version_set.items()\n            for version_record in prefixed_set.values()\n        )", "            for version, prefixed_set in self.version_set.items()\n            for version_record in list(prefixed_set.values())[:1]\n        )")]),
    ("C32", "len", [("versionlist.py", "        return sum([len(path_dict) for path_dict in self.version_set.values()])", "        return len(self.version_set)")]),
    ("C32", "filetree intermediate arg", [("filetree.py", "        yield from self.mtree.get_paths_recursive(show_intermediate)", "        yield from self.mtree.get_paths_recursive()")]),
    ("C14", "version lists update the tree version list reference", [("mapper/gitmapper/versionlistmapper.py", "        location = git_save_json(realm, json_object)\n        return Reference(\"VersionList\", location)", "        location = git_save_json(realm, json_object)\n        git_update_ref(realm, GitReference.TREE_VERSION_LIST.value, location)\n        return Reference(\"VersionList\", location)")]),
    ("C14", "tree version list is not published", [("mapper/gitmapper/versionlistmapper.py", "        git_update_ref(\n            realm,\n            GitReference.TREE_VERSION_LIST.value,\n            reference.location)\n", "")]),
    ("C14", "uuid set published under the other name", [("mapper/gitmapper/uuidsetmapper.py", "GitReference.UUID_SET.value, location", "GitReference.TREE_VERSION_LIST.value, location")]),
    ("C14", "locations are swapped", [("mapper/gitmapper/__init__.py", "    GitReference.TREE_VERSION_LIST.value,\n    GitReference.UUID_SET.value", "    GitReference.UUID_SET.value,\n    GitReference.TREE_VERSION_LIST.value")]),
    ("C14", "one name for both", [("mapper/gitmapper/objectreference.py", "refs/datalad/dataset-uuid-set", "refs/datalad/dataset-tree-version-list")]),
    ("C14", "published before the version lists are written", [("mapper/gitmapper/uuidsetmapper.py", "        tree_entries = [\n", "        if uuid_set.reference is not None:\n            git_update_ref(realm, GitReference.UUID_SET.value, uuid_set.reference.location)\n        tree_entries = [\n")]),
    ("C14", "uuid set published in another repository", [("mapper/gitmapper/uuidsetmapper.py", "git_update_ref(realm, ", "git_update_ref(uuid_set.realm or realm, ")]),
    ("C15", "metadata blob is not registered", [("mapper/gitmapper/metadatamapper.py", "        metadata_blob_location = git_save_str(realm, metadata.to_json())\n        add_blob_reference(metadata_blob_location)\n", "        metadata_blob_location = git_save_str(realm, metadata.to_json())\n")]),
    ("C15", "cached metadata blob is not registered", [("mapper/gitmapper/metadatamapper.py", "        metadata_blob_location = cache.cache_blob(realm, metadata.to_json())\n        add_blob_reference(metadata_blob_location)\n", "        metadata_blob_location = cache.cache_blob(realm, metadata.to_json())\n")]),
    ("C15", "dataset-level metadata is not registered", [("mapper/gitmapper/metadatarootrecordmapper.py", "            add_blob_reference(dataset_level_metadata_reference.location)\n", "")]),
    ("C15", "file trees are not registered", [("mapper/gitmapper/metadatarootrecordmapper.py", "            if not file_tree_reference.is_none_reference():\n                add_tree_reference(file_tree_reference.location)\n", ""), ("mtreeproxy.py", "        if not reference.is_none_reference():\n            add_tree_reference(reference.location)\n        return reference", "        return reference")]),
    ("C15", "records in version lists are not registered", [("mapper/gitmapper/versionlistmapper.py", "            add_blob_reference(reference.location)\n", "            pass\n")]),
    ("C15", "trees registered as files", [("mapper/gitmapper/objectreference.py", "    add_object_reference(EntryType.Directory, object_hash)", "    add_object_reference(EntryType.File, object_hash)")]),
    ("C15", "wrong blob is registered", [("mapper/gitmapper/metadatamapper.py", "        metadata_blob_location = git_save_str(realm, metadata.to_json())\n        add_blob_reference(metadata_blob_location)\n", "        metadata_blob_location = git_save_str(realm, metadata.to_json())\n"), ("mapper/gitmapper/metadatamapper.py", "        # Return reference to reference, although it specifies", "        add_blob_reference(metadata_reference_blob_location)\n        # Return reference to reference, although it specifies")]),
    ("C15", "dataset trees are not registered", [("mtreeproxy.py", "        if not reference.is_none_reference():\n            add_tree_reference", "        if not reference.is_none_reference() and isinstance(self, FileTree):\n            add_tree_reference")]),
    ("C15", "none marker registered", [("mapper/gitmapper/objectreference.py", "    if object_hash == none_location:", "    if object_hash is None:"), ("mapper/gitmapper/metadatarootrecordmapper.py", "            if not file_tree_reference.is_none_reference():\n                add_tree_reference", "            if file_tree_reference is not None:\n                add_tree_reference")]),
    ("C17", "remote realms are written", [("mappableobject.py", "        if Reference.is_remote(destination_realm):\n            raise", "        if Reference.is_remote(destination_realm) and self.realm is None:\n            raise")]),
    ("C17", "ssh realms are not remote", [("mapper/reference.py", "                   \"https:\",\n                   \"ssh:\"]", "                   \"https:\"]")]),
    ("C17", "references are only fetched once", [("mapper/gitmapper/localcache.py", "    if object_id.startswith(\"refs\"):\n", "    if object_id.startswith(\"refs\") and not git_object_exists_locally(cache_repo, object_id):\n")]),
    ("C17", "references are fetched without local name", [("mapper/gitmapper/localcache.py", "            object_id,\n            object_id)", "            object_id)")]),
    ("C17", "references fetched without force", [("mapper/gitmapper/gitbackend/subprocess.py", "            \"-f\",\n", "")]),
    ("C17", "caches are shared", [("mapper/gitmapper/localcache.py", "    return cache_repository_base / get_name_hash(remote_repo)", "    return cache_repository_base / get_name_hash(remote_repo.split(\"/\")[-1])")]),
    ("C17", "trees read from the remote path", [("mapper/gitmapper/gitbackend/subprocess.py", "def git_ls_tree(repo_dir: str, object_reference: str) -> List[str]:\n    repo_dir = adapt_for_remote(repo_dir, object_reference)\n", "def git_ls_tree(repo_dir: str, object_reference: str) -> List[str]:\n    adapt_for_remote(repo_dir, object_reference)\n")]),
    ("C17", "objects are not fetched", [("mapper/gitmapper/localcache.py", "    elif not git_object_exists_locally(cache_repo, object_id):", "    elif git_object_exists_locally(cache_repo, object_id):")]),
    ("C18", "failed update is ignored", [("mapper/gitmapper/gitbackend/subprocess.py", "        [ref_name, location])\n    checked_execute(cmd_line)", "        [ref_name, location])\n    execute(cmd_line)")]),
    ("C18", "exit code 1 is accepted", [("mapper/gitmapper/gitbackend/subprocess.py", "    if result.returncode != 0:\n        error", "    if result.returncode > 1:\n        error")]),
    ("C18", "errors only if something was printed", [("mapper/gitmapper/gitbackend/subprocess.py", "    if result.returncode != 0:\n        error", "    if result.returncode != 0 and result.stderr:\n        error")]),
    ("C18", "source ignores the result", [("metadatasource.py", "        result = subprocess.run(command, stdout=file_descriptor)\n        if result.returncode != 0:", "        result = subprocess.run(command, stdout=file_descriptor)\n        if result.returncode == 128:")]),
    ("C18", "missing trees are read as empty", [("mapper/gitmapper/uuidsetmapper.py", "        for line in git_ls_tree(realm, reference.location):", "        try:\n            lines = git_ls_tree(realm, reference.location)\n        except RuntimeError:\n            lines = []\n        for line in lines:")]),
    ("C18", "failed text load gives empty text", [("mapper/gitmapper/gitbackend/subprocess.py", "    return checked_run(cmd_line).stdout.decode()", "    return execute(cmd_line).stdout.decode()")]),
    ("C18", "unflushed cache is dropped", [("mapper/gitmapper/metadatamapper.py", "        try:\n            cache.flush()\n        finally:", "        try:\n            cache.flush()\n        except RuntimeError:\n            pass\n        finally:")]),
    ("C19", "shell", [("mapper/gitmapper/gitbackend/subprocess.py", "        shlex.split(arguments) if isinstance(arguments, str) else arguments,", "        arguments if isinstance(arguments, str) else \" \".join(arguments),\n        shell=True,")]),
    ("C19", "command line is split", [("mapper/gitmapper/gitbackend/subprocess.py", "    cmd_line = [\"git\", \"init\", repo_dir]", "    cmd_line = f\"git init {repo_dir}\"")]),
    ("C19", "arguments are quoted", [("mapper/gitmapper/gitbackend/subprocess.py", "               repo_dir + \"/.git\",", "               shlex.quote(repo_dir + \"/.git\"),")]),
    ("C19", "os.system", [("mapper/gitmapper/gitbackend/subprocess.py", "    cmd_line = [\"git\", \"init\", repo_dir]\n    checked_execute(cmd_line)", "    import os\n    if os.system(f\"git init '{repo_dir}'\") != 0:\n        raise RuntimeError(\"git init failed\")")]),
    ("C19", "sh -c", [("metadatasource.py", "        result = subprocess.run(command, stdout=file_descriptor)", "        result = subprocess.run([\"sh\", \"-c\", \" \".join(command)], stdout=file_descriptor)")]),
    ("C12", "flush before full only", [("mapper/gitmapper/gitblobcache.py", "        if len(self.cached_objects) == self.maxsize:\n            self.flush()\n", "        if len(self.cached_objects) == self.maxsize:\n            self.cached_objects = []\n")]),
    ("C12", "last one dropped when full", [("mapper/gitmapper/gitblobcache.py", "        expected_hash = hash_blob(blob)\n        self.cached_objects.append((blob, expected_hash))", "        expected_hash = hash_blob(blob)\n        if len(self.cached_objects) < self.maxsize - 1:\n            self.cached_objects.append((blob, expected_hash))")]),
    ("C12", "length in characters", [("mapper/gitmapper/gitblobcache.py", "    if isinstance(blob, str):\n        blob = bytearray(blob.encode())\n    else:\n        blob = bytearray(blob)\n\n    object_to_hash = f\"blob {len(blob)}\".encode() + b\"\\x00\" + blob", "    size = len(blob)\n    if isinstance(blob, str):\n        blob = bytearray(blob.encode())\n    else:\n        blob = bytearray(blob)\n\n    object_to_hash = f\"blob {size}\".encode() + b\"\\x00\" + blob")]),
    ("C12", "latin encoding of the id", [("mapper/gitmapper/gitblobcache.py", "blob = bytearray(blob.encode())", "blob = bytearray(blob.encode('utf-16'))")]),
    ("C12", "same file name", [("mapper/gitmapper/gitblobcache.py", "temp_file_path = self.temp_dir_path / str(index)", "temp_file_path = self.temp_dir_path / str(len(blob))")]),
    ("C12", "not emptied", [("mapper/gitmapper/gitblobcache.py", "        for index, (blob, expected_hash) in enumerate(self.cached_objects):\n            temp_file_path", "        for index, (blob, expected_hash) in enumerate(self.cached_objects[1:]):\n            temp_file_path")]),
    ("C12", "git called in the open file", [("mapper/gitmapper/gitblobcache.py", "            with temp_file_path.open(\"tw\") as f:\n                f.write(blob)\n            file_list.append(str(temp_file_path))\n\n        hash_values = git_save_file_list(self.realm, file_list)", "            f = temp_file_path.open(\"tw\")\n            f.write(blob)\n            file_list.append(str(temp_file_path))\n\n        hash_values = git_save_file_list(self.realm, file_list)")]),
    ("C12", "filters", [("mapper/gitmapper/gitbackend/subprocess.py", "[\"-w\", \"--no-filters\", \"--stdin-paths\"]", "[\"-w\", \"--stdin-paths\"]")]),
    ("C12", "not written", [("mapper/gitmapper/gitbackend/subprocess.py", "[\"-w\", \"--no-filters\", \"--stdin-paths\"]", "[\"--no-filters\", \"--stdin-paths\"]")]),
    ("C12", "cleared before writing", [("mapper/gitmapper/gitblobcache.py", "            file_list.append(str(temp_file_path))\n\n", "            file_list.append(str(temp_file_path))\n\n        objects, self.cached_objects = self.cached_objects, []\n"), ("mapper/gitmapper/gitblobcache.py", "            for index, (blob, expected_hash) in enumerate(self.cached_objects)\n            if check_hash", "            for index, (blob, expected_hash) in enumerate(objects)\n            if check_hash")]),
    ("C12", "nested caching", [("mapper/gitmapper/metadatamapper.py", "            raise RuntimeError(f\"already caching realm: {realm}\")", "            pass")]),
    ("C12", "cache kept after flush", [("mapper/gitmapper/metadatamapper.py", "            cache.cached_objects = []\n            del cls.metadata_caches[realm]", "            cache.cached_objects = []")]),
    ("C12", "cache kept after failing flush", [("mapper/gitmapper/metadatamapper.py", "        try:\n            cache.flush()\n        finally:\n            # Never keep a cache that could not be flushed, it would\n            # prevent all further write operations to the realm.\n            cache.cached_objects = []\n            del cls.metadata_caches[realm]", "        cache.flush()\n        del cls.metadata_caches[realm]")]),
    ("C12", "flush failure hidden", [("mapper/gitmapper/metadatamapper.py", "            cache.flush()\n        finally:", "            cache.flush()\n        except RuntimeError:\n            pass\n        finally:")]),
    ("C12", "one cache for all realms", [("mapper/gitmapper/metadatamapper.py", "return cls.metadata_caches.get(realm, None)", "return next(iter(cls.metadata_caches.values()), None)")]),
    ("C12", "other realms accepted", [("mapper/gitmapper/gitblobcache.py", "        assert realm == self.realm, \\\n            \"realm of cached object and realm of cache instance differ\"\n", "")]),
    ("C12", "shared list", [("mapper/gitmapper/gitblobcache.py", "class GitBlobCache:\n", "class GitBlobCache:\n    objects = []\n"), ("mapper/gitmapper/gitblobcache.py", "        self.cached_objects: List[Tuple[Union[str, bytes], str]] = list()", "        self.cached_objects = GitBlobCache.objects")]),
    ("C12", "newline conversion", [("mapper/gitmapper/gitblobcache.py", "temp_file_path.open(\"tw\")", "temp_file_path.open(\"tw\", newline=\"\\r\\n\")")]),
    ("C12", "encoding", [("mapper/gitmapper/gitblobcache.py", "temp_file_path.open(\"tw\")", "temp_file_path.open(\"tw\", encoding=\"utf-16\")")]),
    ("C12", "stripped", [("mapper/gitmapper/gitblobcache.py", "f.write(blob)", "f.write(blob.strip())")]),
    ("C12", "known contents skipped", [("mapper/gitmapper/gitblobcache.py", "        self.cached_objects.append((blob, expected_hash))", "        if not any(h[:1] == expected_hash[:1] for _, h in self.cached_objects):\n            self.cached_objects.append((blob, expected_hash))")]),
    ("C13", "counter per process", [("mapper/gitmapper/utils.py", "    if lock_dir not in lock_dict:\n", "    if not lock_dict:\n"), ("mapper/gitmapper/utils.py", "    return lock_dict[lock_dir]", "    return next(iter(lock_dict.values()))")]),
    ("C13", "one lock file", [("mapper/gitmapper/utils.py", "str(lock_dir / GIT_MAPPER_LOCK_FILE_NAME)", "GIT_MAPPER_LOCK_FILE_NAME")]),
    ("C13", "released at once", [("mapper/gitmapper/utils.py", "    lock_state.counter -= 1\n    if lock_state.counter == 0:", "    lock_state.counter -= 1\n    if True:")]),
    ("C13", "released one early", [("mapper/gitmapper/utils.py", "    lock_state.counter -= 1\n    if lock_state.counter == 0:", "    lock_state.counter -= 1\n    if lock_state.counter <= 1:")]),
    ("C13", "never released after nesting", [("mapper/gitmapper/utils.py", "    if lock_state.counter == 0:\n        logger.debug(", "    if lock_state.counter < 0:\n        logger.debug(")]),
    ("C13", "counter not decremented", [("mapper/gitmapper/utils.py", "    lock_state.counter -= 1\n    if lock_state.counter == 0:", "    if lock_state.counter == 1:")]),
    ("C13", "no finally", [("mapper/gitmapper/utils.py", "    try:\n        yield None\n    finally:\n        unlock_backend(realm)", "    yield None\n    unlock_backend(realm)")]),
    ("C13", "released before the body", [("mapper/gitmapper/utils.py", "    try:\n        yield None\n    finally:\n        unlock_backend(realm)", "    unlock_backend(realm)\n    yield None")]),
    ("C13", "only on exception", [("mapper/gitmapper/utils.py", "    try:\n        yield None\n    finally:\n        unlock_backend(realm)", "    try:\n        yield None\n    except Exception:\n        unlock_backend(realm)\n        raise")]),
    ("C13", "only some exceptions", [("mapper/gitmapper/utils.py", "    try:\n        yield None\n    finally:\n        unlock_backend(realm)", "    try:\n        yield None\n    except RuntimeError:\n        unlock_backend(realm)\n        raise\n    else:\n        unlock_backend(realm)")]),
    ("C13", "timeout", [("mapper/gitmapper/utils.py", "lock_state.lock.acquire()", "lock_state.lock.acquire(timeout=60)")]),
    ("C13", "not blocking", [("mapper/gitmapper/utils.py", "lock_state.lock.acquire()", "lock_state.lock.acquire(blocking=False)")]),
    ("C13", "counted before acquiring", [("mapper/gitmapper/utils.py", "    if lock_state.counter == 0:\n        lock_time = time.time()", "    lock_state.counter += 1\n    if lock_state.counter == 1:\n        lock_time = time.time()"), ("mapper/gitmapper/utils.py", "                int(lock_time)))\n    lock_state.counter += 1", "                int(lock_time)))")]),
    ("C13", "update after the lock", [("mapper/gitmapper/objectreference.py", "            tree_hash = add_paths(realm, path_infos, root_entries)\n            git_update_ref(", "            tree_hash = add_paths(realm, path_infos, root_entries)\n        git_update_ref(")]),
    ("C13", "read before the lock", [("mapper/gitmapper/objectreference.py", '        with locked_backend(realm):\n            try:\n                root_entries = _get_dir(realm, GitReference.OBJECT_REFERENCES.value)\n            except RuntimeError:\n', '        try:\n            root_entries = _get_dir(realm, GitReference.OBJECT_REFERENCES.value)\n        except RuntimeError:\n            root_entries = []\n        with locked_backend(realm):\n            try:\n                pass\n            except RuntimeError:\n')]),
    ("C13", "no lock", [("mapper/gitmapper/objectreference.py", "        with locked_backend(realm):\n            try:", "        if True:\n            try:")]),
    ("C13", "new lock per call", [("mapper/gitmapper/utils.py", "    if lock_dir not in lock_dict:\n", "    if True:\n")]),
    ("C16", "existing store dropped", [("mapper/gitmapper/objectreference.py", "                root_entries = _get_dir(realm, GitReference.OBJECT_REFERENCES.value)\n", "                root_entries = _get_dir(realm, GitReference.LEGACY_TREES.value)\n")]),
    ("C16", "trees as files", [("mapper/gitmapper/objectreference.py", "def add_tree_reference(object_hash: str):\n    add_object_reference(EntryType.Directory", "def add_tree_reference(object_hash: str):\n    add_object_reference(EntryType.File")]),
    ("C16", "legacy kinds swapped", [("mapper/gitmapper/objectreference.py", "            GitReference.LEGACY_BLOBS,\n            EntryType.File)", "            GitReference.LEGACY_BLOBS,\n            EntryType.Directory)")]),
    ("C16", "not cleared", [("mapper/gitmapper/objectreference.py", "        cached_object_references = set()\n\n", "\n")]),
    ("C16", "cleared before", [("mapper/gitmapper/objectreference.py", "        with locked_backend(realm):\n", "        cached_object_references = set()\n        with locked_backend(realm):\n")]),
    ("C16", "cleared on failure", [("mapper/gitmapper/objectreference.py", "            tree_hash = add_paths(realm, path_infos, root_entries)\n            git_update_ref(str(realm), GitReference.OBJECT_REFERENCES.value, tree_hash)\n", "            try:\n                tree_hash = add_paths(realm, path_infos, root_entries)\n                git_update_ref(str(realm), GitReference.OBJECT_REFERENCES.value, tree_hash)\n            finally:\n                cached_object_references = set()\n")]),
    ("C16", "short paths", [("mapper/gitmapper/objectreference.py", "                    object_hash[0:3],\n                    object_hash[3:6],\n                    object_hash[6:9],\n                    object_hash[9:],\n", "                    object_hash[0:3],\n                    object_hash[3:6],\n                    object_hash[6:9],\n")]),
    ("C16", "legacy deleted first", [("mapper/gitmapper/objectreference.py", "    legacy_trees_added, legacy_blobs_added = add_legacy_store_entries(realm)\n\n", "    legacy_trees_added, legacy_blobs_added = add_legacy_store_entries(realm)\n    if legacy_trees_added is True:\n        remove_legacy_store_reference(realm, GitReference.LEGACY_TREES)\n    legacy_trees_added = False\n")]),
    ("C16", "wrong legacy deleted", [("mapper/gitmapper/objectreference.py", "    if legacy_trees_added is True:\n        remove_legacy_store_reference(realm, GitReference.LEGACY_TREES)", "    if legacy_trees_added is True:\n        remove_legacy_store_reference(realm, GitReference.LEGACY_BLOBS)")]),
    ("C16", "legacy names as ids", [("mapper/gitmapper/objectreference.py", "cached_object_references.add((entry_type, entry[2]))", "cached_object_references.add((entry_type, entry[1]))")]),
    ("C16", "only first legacy", [("mapper/gitmapper/objectreference.py", "            cached_object_references.add((entry_type, entry[2]))\n        return True", "            cached_object_references.add((entry_type, entry[2]))\n            break\n        return True")]),
    ("C16", "reference not updated", [("mapper/gitmapper/objectreference.py", "git_update_ref(str(realm), GitReference.OBJECT_REFERENCES.value, tree_hash)", "git_update_ref(str(realm), GitReference.LEGACY_TREES.value, tree_hash)")]),
    ("C16", "failure hidden", [("mapper/gitmapper/objectreference.py", "            git_update_ref(str(realm), GitReference.OBJECT_REFERENCES.value, tree_hash)\n", "            try:\n                git_update_ref(str(realm), GitReference.OBJECT_REFERENCES.value, tree_hash)\n            except RuntimeError:\n                logger.warning('update failed')\n")]),
    ("C16", "only files added", [("mapper/gitmapper/objectreference.py", "            for entry_type, object_hash in cached_object_references\n", "            for entry_type, object_hash in cached_object_references\n            if entry_type == EntryType.Directory\n")]),
    ("C16", "sub-trees not read", [("mapper/gitmapper/treeupdater.py", "            sub_dir_entries = _get_dir(repo, directory_hash)\n", "            sub_dir_entries = []\n")]),
    ("C16", "cached by prefix", [("mapper/gitmapper/objectreference.py", "    cached_object_references.add((entry_type, object_hash))\n\n\ndef add_legacy_store_entries_from", "    if not any(h[:4] == object_hash[:4] for _, h in cached_object_references):\n        cached_object_references.add((entry_type, object_hash))\n\n\ndef add_legacy_store_entries_from")]),
    ("C11", "no -w in save_str", [("mapper/gitmapper/gitbackend/subprocess.py", "[\"-w\", \"--stdin\"]", "[\"--stdin\"]")]),
    ("C11", "no -w in save_file_list", [("mapper/gitmapper/gitbackend/subprocess.py", "[\"-w\", \"--no-filters\", \"--stdin-paths\"]", "[\"--no-filters\", \"--stdin-paths\"]")]),
    ("C11", "json blob filters", [("mapper/gitmapper/gitbackend/subprocess.py", "[\"-w\", \"--stdin\"]", "[\"-w\", \"--stdin\", \"--path\", \"metadata.json\"]")]),
    ("C04", "only quotes escaped", [("mapper/gitmapper/mtreenodemapper.py", "if any(character in input_string for character in '\"\\n\\r'):", "if '\"' in input_string:")]),
    ("C04", "quotes before backslashes", [("mapper/gitmapper/mtreenodemapper.py", "                .replace('\\\\', '\\\\\\\\')\n                .replace('\\\"', '\\\\\"')", "                .replace('\\\"', '\\\\\"')\n                .replace('\\\\', '\\\\\\\\')")]),
    ("C04", "no backslashes", [("mapper/gitmapper/mtreenodemapper.py", "                .replace('\\\\', '\\\\\\\\')\n", "")]),
    ("C04", "only leading quote", [("mapper/gitmapper/mtreenodemapper.py", "if any(character in input_string for character in '\"\\n\\r'):", "if input_string[0] in '\"\\n\\r':")]),
    ("C04", "unicode escape", [("mapper/gitmapper/mtreenodemapper.py", "codecs.escape_decode(name[1:-1])[0].decode(\"utf-8\")", "codecs.decode(name[1:-1], \"unicode_escape\")")]),
    ("C04", "quotes removed only", [("mapper/gitmapper/mtreenodemapper.py", "name = codecs.escape_decode(name[1:-1])[0].decode(\"utf-8\")", "name = name[1:-1]")]),
    ("C04", "quotes stripped", [("mapper/gitmapper/mtreenodemapper.py", "name = codecs.escape_decode(name[1:-1])[0].decode(\"utf-8\")", "name = codecs.escape_decode(name.strip('\"'))[0].decode(\"utf-8\")")]),
    ("C04", "latin1", [("mapper/gitmapper/mtreenodemapper.py", "[0].decode(\"utf-8\")", "[0].decode(\"latin-1\")")]),
    ("C04", "split at blanks", [("mapper/gitmapper/utils.py", "    fixed_fields, name = line.split(\"\\t\")\n    flag, node_type, hash_value = fixed_fields.split(\" \")", "    flag, node_type, hash_value, name = line.split()[:4]")]),
    ("C04", "split at all white space", [("mapper/gitmapper/utils.py", "    fixed_fields, name = line.split(\"\\t\")\n    flag, node_type, hash_value = fixed_fields.split(\" \")", "    flag, node_type, hash_value, name = line.split(None, 3)")]),
    ("C04", "line stripped", [("mapper/gitmapper/utils.py", "fixed_fields, name = line.split(\"\\t\")", "fixed_fields, name = line.strip().split(\"\\t\")")]),
    ("C04", "quoted without unquoting", [("mapper/gitmapper/gitbackend/subprocess.py", "cmd_line = git_command_line(repo_dir, \"mktree\", [\"--missing\", ])\n    return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]\n\n\ndef git_save_tree(", "cmd_line = git_command_line(repo_dir, \"mktree\", [\"--missing\", \"-z\"])\n    return checked_execute(cmd_line, stdin_content=tree_spec.replace(\"\\n\", \"\\0\"))[0][0]\n\n\ndef git_save_tree(")]),
    ("C04", "name cut", [("mapper/gitmapper/mtreenodemapper.py", "            return input_string\n", "            return input_string.strip()\n")]),
    ("C05", "absolute kept", [("metadatapath.py", "modified_path = \"/\".join(original_path.parts[1:])", "modified_path = \"/\".join(original_path.parts)")]),
    ("C05", "first part lost", [("metadatapath.py", "        if not original_path.is_absolute():\n            return \"/\".join(original_path.parts)", "        if not original_path.is_absolute():\n            return \"/\".join(original_path.parts[1:] or original_path.parts)")]),
    ("C05", "first argument only", [("metadatapath.py", "original_path = PurePosixPath(*posix_args)", "original_path = PurePosixPath(*posix_args[:1])")]),
    ("C05", "slash stripped from the first argument", [("metadatapath.py", "        original_path = PurePosixPath(*posix_args)\n        if not original_path.is_absolute():\n            return \"/\".join(original_path.parts)\n", "        original_path = PurePosixPath(*posix_args)\n        return str(original_path).lstrip(\"/\") if not str(original_path).startswith(\"//\") else str(original_path)\n")]),
    ("C05", "root as dot", [("metadatapath.py", "            \"\"\n            if path_str == \".\"\n            else path_str)", "            path_str)")]),
    ("C05", "length of root", [("metadatapath.py", "return len(self.parts)", "return len(self.parts) or 1")]),
    ("C05", "blank removed", [("metadatapath.py", "            posix_args.append(arg)", "            posix_args.append(arg.strip() if isinstance(arg, str) else arg)")]),
    ("C05", "given unchanged", [("metadatapath.py", "super().__init__(self._get_relative_path(*args))", "super().__init__(*args)")]),
    ("C16", "unreadable store replaced", [("mapper/gitmapper/objectreference.py", "                if git_ref_exists(str(realm), GitReference.OBJECT_REFERENCES.value):\n                    raise\n", "")]),
    ("C21", "lookup registers record", [("common.py", "    if auto_create:\n        _ensure_versioned_element(\n            version_list=uuid_version_list", "    if metadata_root_record is not None:\n        _ensure_versioned_element(\n            version_list=uuid_version_list")]),
    ("C21", "lookup creates tree", [("common.py", "        else:\n            if auto_create is False:\n                return None\n            dataset_tree = DatasetTree()\n            tree_version_list.set_dataset_tree(\n                primary_data_version=primary_data_version", "        else:\n            dataset_tree = DatasetTree()\n            tree_version_list.set_dataset_tree(\n                primary_data_version=primary_data_version")]),
    ("C21", "lookup touches", [("versionlist.py", "        self.ensure_mapped()\n        time_stamp, prefix_path, dataset_tree = super()", "        self.ensure_mapped()\n        self.touch()\n        time_stamp, prefix_path, dataset_tree = super()")]),
    ("C21", "lookup ignores prefix", [("common.py", "            _, _, dataset_tree = tree_version_list.get_dataset_tree(\n                primary_data_version=primary_data_version,\n                prefix_path=prefix_path)", "            _, _, dataset_tree = next(iter(tree_version_list.get_dataset_trees(primary_data_version)))")]),
    ("C21", "lookup of sub-dataset returns root", [("common.py", "        metadata_root_record = dataset_tree.get_metadata_root_record(\n            dataset_tree_path)", "        metadata_root_record = dataset_tree.get_metadata_root_record(\n            MetadataPath(\"\"))")]),
    ("C21", "new version list for unknown dataset", [("common.py", "    else:\n        if auto_create is False:\n            return None\n        uuid_version_list = VersionList()", "    else:\n        uuid_version_list = VersionList()")]),
    ("C22", "not registered in version list", [("common.py", "        if element is metadata_root_record:\n            return", "        if element is metadata_root_record or element.dataset_version == metadata_root_record.dataset_version:\n            return")]),
    ("C22", "time stamp renewed", [("common.py", "        time_stamp, _, element = version_list", "        _, _, element = version_list")]),
    ("C22", "root registered at empty prefix", [("common.py", "                primary_data_version=root_dataset_version,\n                prefix_path=prefix_path,\n                metadata_root_record=root_mrr)", "                primary_data_version=root_dataset_version,\n                prefix_path=MetadataPath(\"\"),\n                metadata_root_record=root_mrr)")]),
    ("C22", "sub-dataset registered at prefix", [("common.py", "        prefix_path = MetadataPath(\"\")\n    else:", "    else:")]),
    ("C22", "root not registered", [("common.py", "        if auto_create:\n            _ensure_versioned_element(\n                version_list=root_uuid_version_list", "        if auto_create and not len(root_uuid_version_list):\n            _ensure_versioned_element(\n                version_list=root_uuid_version_list")]),
    ("C22", "record with version of root", [("common.py", "            dataset_version=primary_data_version,\n            dataset_level_metadata=Metadata(),", "            dataset_version=root_dataset_version or primary_data_version,\n            dataset_level_metadata=Metadata(),")]),
    ("C22", "new record without file tree", [("common.py", "            dataset_level_metadata=Metadata(),\n            file_tree=FileTree())\n        dataset_tree.add_dataset(dataset_tree_path", "            dataset_level_metadata=Metadata(),\n            file_tree=None)\n        dataset_tree.add_dataset(dataset_tree_path")]),
    ("C22", "other versions dropped", [("versionlist.py", "        if primary_data_version not in self.version_set:\n            self.version_set[primary_data_version] = dict()", "        self.version_set[primary_data_version] = dict()")]),
    ("C22", "uuid set entry replaced", [("common.py", "    if dataset_id in uuid_set.uuids():\n        uuid_version_list = uuid_set.get_version_list(dataset_id)\n    else:", "    if dataset_id in uuid_set.uuids() and not auto_create:\n        uuid_version_list = uuid_set.get_version_list(dataset_id)\n    else:")]),
    ("C22", "swapped root and sub version", [("common.py", "            sub_dataset_version,\n            prefix_path,\n            dataset_tree_path,\n            dataset_id,\n            primary_data_version,", "            primary_data_version,\n            prefix_path,\n            dataset_tree_path,\n            dataset_id,\n            sub_dataset_version,")]),
    ("C23", "both or none", [("common.py", "    return _read_in_if_exists(tree_version_list), _read_in_if_exists(uuid_set)", "    tvl, us = _read_in_if_exists(tree_version_list), _read_in_if_exists(uuid_set)\n    return (tvl, us) if tvl is not None and us is not None else (None, None)")]),
    ("C23", "all errors are missing", [("common.py", "    except RuntimeError:\n        # An", "    except Exception:\n        return None\n    except RuntimeError:\n        # An")]),
    ("C23", "unreadable is missing", [("common.py", "                mappable_object.reference.location):\n            raise\n", "                mappable_object.reference.location):\n            pass\n")]),
    ("C23", "both replaced", [("common.py", "    if tree_version_list is None and auto_create:\n        tree_version_list = TreeVersionList()\n", "    if (tree_version_list is None or uuid_set is None) and auto_create:\n        tree_version_list = TreeVersionList()\n")]),
    ("C23", "created without auto_create", [("common.py", "    if uuid_set is None and auto_create:", "    if uuid_set is None:")]),
    ("C23", "locations swapped", [("mapper/__init__.py", "    return _get_locations(mapper_family)[1]", "    return _get_locations(mapper_family)[0]")]),
    ("C20", "prefix is not applied to tree version lists", [("versionlist.py", "                    path_prefix / version_record.prefix_path,\n                    cast(MetadataRootRecord,", "                    version_record.prefix_path,\n                    cast(MetadataRootRecord,")]),
    ("C20", "prefix is put behind the path", [("versionlist.py", "                    path_prefix / version_record.prefix_path,\n                    version_record.element.deepcopy(", "                    version_record.prefix_path / path_prefix,\n                    version_record.element.deepcopy(")]),
    ("C20", "file trees that are not loaded are left out of a copy", [("metadatarootrecord.py", "                if self._file_tree is not None\n                else None\n            ),\n            None,\n            None\n        )\n\n        copied", "                if self._file_tree is not None and self._file_tree.mtree.mapped\n                else None\n            ),\n            None,\n            None\n        )\n\n        copied")]),
    ("C20", "copying loads the original for good", [("mappableobject.py", "        with ensure_mapped(self):\n            result = self.deepcopy_impl(new_mapper_family,\n                                        new_destination,\n                                        **kwargs)\n        return result", "        self.ensure_mapped()\n        return self.deepcopy_impl(new_mapper_family,\n                                  new_destination,\n                                  **kwargs)")]),
    ("C20", "children of a copy are saved where the originals are", [("mtreenode.py", "                child_node.deepcopy(\n                    new_mapper_family,\n                    new_destination))", "                child_node.deepcopy(\n                    new_mapper_family,\n                    child_node.realm or new_destination))")]),
    ("C20", "copy of a tree version list is a plain version list", [("versionlist.py", "        copied_version_list = TreeVersionList()", "        copied_version_list = VersionList()")]),
    ("C20", "texts are not stored by a copy", [("text.py", "        copied_text.write_out(new_destination)\n        copied_text.purge()\n", "")]),
    ("C20", "dataset-level metadata of a copied record is shared", [("metadatarootrecord.py", "                self.dataset_level_metadata.deepcopy(\n                    new_mapper_family,\n                    new_destination)\n                if self.dataset_level_metadata is not None\n                else None", "                self.dataset_level_metadata")]),
    ("C20", "the original is purged by a copy", [("mtreenode.py", "        copied_mtree_node.write_out(new_destination)\n        copied_mtree_node.purge()\n", "        copied_mtree_node.write_out(new_destination)\n        self.write_out(new_destination)\n        self.purge()\n        copied_mtree_node.purge()\n")]),
    ("C20", "only one prefix path of a version is copied", [("versionlist.py", "            for version_record in prefix_set.values():\n                copied_version_list.set_versioned_element(\n                    primary_data_version,\n                    version_record.time_stamp,\n                    path_prefix / version_record.prefix_path,\n                    version_record.element.deepcopy(", "            for version_record in list(prefix_set.values())[-1:]:\n                copied_version_list.set_versioned_element(\n                    primary_data_version,\n                    version_record.time_stamp,\n                    path_prefix / version_record.prefix_path,\n                    version_record.element.deepcopy(")]),
    ("C20", "instance sets are shared by an object that stays loaded", [("metadata.py", "copied_metadata.instance_sets[extractor_name] = copy.deepcopy(instance_set)\n        copied_metadata.write_out(new_destination)\n        copied_metadata.purge()\n", "copied_metadata.instance_sets[extractor_name] = instance_set\n        copied_metadata.write_out(new_destination)\n")]),
    ("C20", "version lists are shared by a set that stays loaded", [("uuidset.py", "            copied_uuid_set.uuid_set[uuid] = version_list.deepcopy(\n                new_mapper_family,\n                new_destination)\n\n        copied_uuid_set.write_out(new_destination)\n        copied_uuid_set.purge()\n", "            copied_uuid_set.uuid_set[uuid] = version_list\n        copied_uuid_set.write_out(new_destination)\n")]),
    ("C10", "flush failure ignored", [("mtreeproxy.py", "                 mappable_object.stored_sub_locations) = location\n            raise\n", "                 mappable_object.stored_sub_locations) = location\n")]),
    ("C10", "saved state is only restored for the root node", [("mtreeproxy.py", "        if mappable_object.mapped:\n            for sub_object in mappable_object.modifiable_sub_objects:\n                saved_states.extend(\n                    MTreeProxy._get_saved_states(sub_object))\n", "")]),
    ("C10", "saved state is not copied before the save", [("mtreeproxy.py", "            set(mappable_object.saved_on),", "            mappable_object.saved_on,")]),
    ("C02", "metadata versions are not checked", [("metadata.py", "        assert obj[\"@\"][\"type\"] == \"MetadataInstance\"\n        check_serialized_version(obj)\n", "        assert obj[\"@\"][\"type\"] == \"MetadataInstance\"\n")]),
    ("C02", "reference class is not checked", [("mapper/reference.py", "        assert obj[\"@\"][\"type\"] == \"Reference\"\n", "")]),
    ("C02", "only older versions are refused", [("__init__.py", "    if stored_version != version_string:", "    if stored_version > version_string:")]),
    ("C02", "unsupported versions are only logged", [("__init__.py", "        raise ValueError(\n            f\"Unsupported", "        print(\n            f\"Unsupported")]),
    ("C02", "marked as loaded before loading", [("mappableobject.py", "            # The object is not mapped, but saved on self.realm,\n", "            self.mapped = True\n")]),
    ("C02", "failing loads are swallowed", [("mappableobject.py", "            get_mapper(\n                type(self).__name__,\n                backend_type).map_in(\n                    self,\n                    self.realm,\n                    self.reference)\n\n            # Mark", "            try:\n                get_mapper(\n                    type(self).__name__,\n                    backend_type).map_in(\n                        self,\n                        self.realm,\n                        self.reference)\n            except (RuntimeError, ValueError, AssertionError):\n                logger.error('could not load')\n\n            # Mark")]),
    ("C26", "email is not compared", [("metadata.py", "                and self.author_email == other.author_email\n", "")]),
    ("C26", "number of configurations is not compared", [("metadata.py", "            len(self.parameter_set) == len(other.parameter_set)\n            and all(", "            all(")]),
    ("C26", "order of configurations is compared", [("metadata.py", "            len(self.parameter_set) == len(other.parameter_set)\n            and all(\n                configuration in other.parameter_set\n                and self.get_instance_for_configuration(configuration)\n                == other.get_instance_for_configuration(configuration)\n                for configuration in self.parameter_set)\n", "            self.parameter_set == other.parameter_set\n            and self._instances == other._instances\n")]),
    ("C26", "instances are compared by index", [("metadata.py", "                == other.get_instance_for_configuration(configuration)\n", "                == other.get_instance_for_configuration_index(self.parameter_set.index(configuration))\n")]),
    ("C26", "other object is not loaded", [("metadata.py", "        other.ensure_mapped()\n", "")]),
    ("C26", "hash depends on key order", [("metadata.py", "        return hash(frozenset(self.keys()))", "        return hash(tuple(self.keys()))")]),
    ("C26", "hash uses the values", [("metadata.py", "        return hash(frozenset(self.keys()))", "        return hash(frozenset(self.items()))")]),
    ("C26", "only parameter names are compared", [("metadata.py", "            and self.parameter == other.parameter\n", "            and self.parameter.keys() == other.parameter.keys()\n")]),
    ("C26", "reference class is not compared", [("mapper/reference.py", "            self.class_name == other.class_name\n            and self.location == other.location", "            self.location == other.location")]),
    ("C26", "sources of different repositories are equal", [("metadatasource.py", "            and self.git_repository_path == other.git_repository_path\n", "")]),
    ("C26", "content of sources is compared by keys", [("metadatasource.py", "            and self.content == other.content)", "            and set(self.content) == set(other.content))")]),
    ("C26", "references are not stripped", [("metadatasource.py", "        self.object_reference = object_reference.strip()", "        self.object_reference = object_reference")]),
    ("C28", "empty sub-trees are stored", [("mapper/gitmapper/mtreenodemapper.py", "            if not child_node.reference.is_none_reference()\n", "")]),
    ("C28", "absent metadata is loaded", [("mapper/gitmapper/metadatarootrecordmapper.py", "        if metadata_reference.is_none_reference():", "        if metadata_reference.location is None:")]),
    ("C30", "object is not unloaded after an exception", [("mappableobject.py", "        yield mappable_object\n    finally:\n        if needs_purge:\n            mappable_object.purge()\n", "        yield mappable_object\n    except Exception:\n        needs_purge = False\n        raise\n    finally:\n        if needs_purge:\n            mappable_object.purge()\n")]),
    ("C30", "exception is swallowed", [("mappableobject.py", "        yield mappable_object\n    finally:\n", "        yield mappable_object\n    except KeyError as e:\n        logger.error(e)\n    finally:\n")]),
    ("C30", "always unloaded", [("mappableobject.py", "        if needs_purge:\n            mappable_object.purge()\n", "        if mappable_object is not None and mappable_object.saved_on:\n            mappable_object.purge()\n")]),
    ("C30", "never unloaded", [("mappableobject.py", "            needs_purge = mappable_object.ensure_mapped()", "            mappable_object.ensure_mapped()")]),
    ("C30", "modifications are discarded", [("mappableobject.py", "        if needs_purge:\n            mappable_object.purge()\n", "        if needs_purge:\n            mappable_object.purge_impl()\n            mappable_object.mapped = False\n")]),
    ("C30", "mapped state is not reported", [("mappableobject.py", "            self.mapped = True\n            return True\n        return False", "            self.mapped = True\n        return True")]),
    ("C33", "copy failure is ignored", [("metadatasource.py", "        copied_object_reference = subprocess.check_output([\n            \"git\", \"--git-dir\", str(destination_repository / \".git\"),\n            \"hash-object\", \"-w\", \"--stdin\"],\n            input=content).decode().strip()\n        assert copied_object_reference == self.object_reference\n        return copied_object_reference", "        subprocess.run([\n            \"git\", \"--git-dir\", str(destination_repository / \".git\"),\n            \"hash-object\", \"-w\", \"--stdin\"],\n            input=content)\n        return self.object_reference")]),
    ("C33", "copy is not stored", [("metadatasource.py", "\"hash-object\", \"-w\", \"--stdin\"", "\"hash-object\", \"--stdin\"")]),
    ("C33", "copied into the source repository", [("metadatasource.py", "str(destination_repository / \".git\")", "str(self.git_repository_path / \".git\")")]),
    ("C33", "write failure is ignored", [("metadatasource.py", "        if result.returncode != 0:\n            raise RuntimeError(", "        if result.returncode != 0:\n            logger.error(")]),
    ("C33", "flat copy of the content", [("metadatasource.py", "ImmediateMetadataSource(deepcopy(self.content))", "ImmediateMetadataSource(dict(self.content))")]),
    ("C33", "versions are not checked", [("metadatasource.py", "            assert json_obj[\"@\"][\"type\"] == \"ImmediateMetadataSource\"\n            check_serialized_version(json_obj)\n", "            assert json_obj[\"@\"][\"type\"] == \"ImmediateMetadataSource\"\n")]),
    ("C33", "path is stored as given name", [("metadatasource.py", "\"git_repository_path\": self.git_repository_path.as_posix()", "\"git_repository_path\": self.git_repository_path.name")]),
    ("C33", "unknown types are git sources", [("metadatasource.py", "            logger.error(f\"unknown metadata source type: `{source_type}´\")\n            return None", "            return LocalGitMetadataSource(Path(json_obj[\"git_repository_path\"]), json_obj[\"object_reference\"])")]),
    ('C28', 'the marker is added to the object references', [('mapper/gitmapper/metadatarootrecordmapper.py', '            if not file_tree_reference.is_none_reference():\n                add_tree_reference', '            if True:\n                add_tree_reference'), ('mapper/gitmapper/objectreference.py', '    if object_hash == none_location:\n        logger.warning("attempt to add a None-reference")\n        return\n', '')]),
    ("C32", "sub-trees that are not loaded are skipped", [("mtreenode.py", "                if not isinstance(child_node, MTreeNode):\n                    yield MetadataPath(child_name), child_node\n", "                if not isinstance(child_node, MTreeNode):\n                    yield MetadataPath(child_name), child_node\n                elif not child_node.child_nodes and not show_intermediate:\n                    continue\n")]),
    ("C32", "children are fetched before the tree is loaded", [("mtreenode.py", "        with ensure_mapped(self):\n            for child_name, child_node in self.child_nodes.items():\n                if not", "        children = dict(self.child_nodes)\n        with ensure_mapped(self):\n            for child_name, child_node in children.items():\n                if not")]),
    ("C32", "replaced version is listed twice", [("versionlist.py", "        self.version_set[primary_data_version][prefix_path] = VersionRecord(", "        if prefix_path in self.version_set[primary_data_version] and self.realm is not None:\n            self.version_set[primary_data_version + \"\\n\"] = self.version_set[primary_data_version]\n        self.version_set[primary_data_version][prefix_path] = VersionRecord(")]),
    ("C31", "replaced element keeps its old time after loading", [("versionlist.py", "            time_stamp,\n            prefix_path,\n            element)\n\n    def unget", "            time_stamp if prefix_path not in self.version_set[primary_data_version] or self.reference is None\n            else self.version_set[primary_data_version][prefix_path].time_stamp,\n            prefix_path,\n            element)\n\n    def unget")]),
    ("C31", "copied list is prefixed with its version", [("versionlist.py", "                    path_prefix / version_record.prefix_path,\n                    cast(", "                    path_prefix / version_record.prefix_path / \"\" if path_prefix.parts else MetadataPath(*version_record.prefix_path.parts[:1]),\n                    cast(")]),
    ("C31", "removed child comes back", [("mtreenode.py", "        self.ensure_mapped()\n        self.touch()\n        del self.child_nodes[child_name]", "        self.ensure_mapped()\n        del self.child_nodes[child_name]\n        self.stored_sub_locations = None")]),
    ("C33", "copies are read as text", [("metadatasource.py", "\"cat-file\", \"blob\", self.object_reference])\n        copied_object_reference", "\"cat-file\", \"blob\", self.object_reference],\n            universal_newlines=True).encode()\n        copied_object_reference")]),
    ('C01', 'contents are read as text with translated line breaks', [('mapper/gitmapper/gitbackend/subprocess.py', '    return checked_run(cmd_line).stdout.decode()', '    result = subprocess.run(cmd_line, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)\n    if result.returncode != 0:\n        raise RuntimeError(f"Command failed: {cmd_line}: {result.stderr}")\n    return result.stdout')]),
    ("C17", "remote names are compared without case", [("mapper/gitmapper/localcache.py", "hashlib.sha256(name.encode())", "hashlib.sha256(name.lower().encode())")]),
    ("C17", "cache names are the end of the remote name", [("mapper/gitmapper/localcache.py", "return hashlib.sha256(name.encode()).hexdigest()", "return name.rstrip('/').split('/')[-1] + hashlib.sha256(name.encode()).hexdigest()[:1]")]),
    ("C17", "cache names without special characters", [("mapper/gitmapper/localcache.py", "return hashlib.sha256(name.encode()).hexdigest()", "return ''.join(c if c.isalnum() else '_' for c in name)")]),
    ("C20", "copies of empty saved trees are the original", [("mtreenode.py", "        copied_mtree_node = MTreeNode(self.leaf_class)\n        for child_name", "        if new_destination in self.saved_on and not self.child_nodes:\n            return self\n        copied_mtree_node = MTreeNode(self.leaf_class)\n        for child_name")]),
    ("C20", "prefix paths of copies are cut", [("versionlist.py", "                    path_prefix / version_record.prefix_path,\n                    cast(", "                    path_prefix / version_record.prefix_path.name,\n                    cast(")]),
    ("C26", "hash values are no numbers", [("metadata.py", "return hash(frozenset(self.keys()))", "return frozenset(self.keys())")]),
    ("C33", "immediate sources write nothing", [("metadatasource.py", "        json.dump(self.content, file_descriptor)", "        pass")]),
    ("C33", "immediate sources write all of their JSON form", [("metadatasource.py", "        json.dump(self.content, file_descriptor)", "        file_descriptor.write(self.to_json_str())")]),
    ("C21", "lookups without elements raise", [("common.py", "    if uuid_set is None or tree_version_list is None:\n        return None\n\n    is_sub", "    is_sub")]),
    ('C17', 'root references of remotes are looked up in the cache', [('mapper/gitmapper/gitbackend/subprocess.py', '        cmd_line = ["git", "ls-remote", "--exit-code", repo_dir, ref_name]\n', '        cmd_line = git_command_line(adapt_for_remote(repo_dir, ref_name), "rev-parse", ["--verify", "--quiet", ref_name])\n')]),
    ('C17', 'every root reference of a remote is regarded as present', [('mapper/gitmapper/gitbackend/subprocess.py', '"ls-remote", "--exit-code", ', '"ls-remote", ')]),
    ('C17', 'caches of remotes are not created', [('mapper/gitmapper/localcache.py', '    if not cache_path.exists():', '    if cache_path.exists():')]),
    ('C17', 'failures of fetch are ignored', [('mapper/gitmapper/gitbackend/subprocess.py', '        ]\n    )\n    checked_execute(cmd_line)\n', '        ]\n    )\n    execute(cmd_line)\n')]),
    ("C31", "runs are looked up by position", [("metadata.py", 'return self._instances[index]', 'return list(self._instances.values())[len(self._instances) - 1 - index]')]),
    ("C31", "configurations are compared by version only", [("metadata.py", '        if metadata_instance.configuration not in self.parameter_set:', '        if metadata_instance.configuration.version not in [c.version for c in self.parameter_set]:')]),
    ('C26', 'version-strip', [('metadata.py', '            self.version == other.version\n', '            str(self.version).strip() == str(other.version).strip()\n')]),
    ('C17', 'cache-host', [('mapper/gitmapper/localcache.py', '    return hashlib.sha256(name.encode()).hexdigest()\n', '    return hashlib.sha256(name.split("@")[-1].encode()).hexdigest()\n')]),
    ('C27', 'configuration-shared', [('metadata.py', '                author_email,\n                configuration,\n                metadata_content))\n', '                author_email,\n                next(\n                    (known for known in instance_set.configurations\n                     if known.version == configuration.version\n                     and set(known.parameter.items()) == set(configuration.parameter.items())),\n                    configuration),\n                metadata_content))\n')]),
    ('C06', 'run-replaced', [('metadata.py', '        self.ensure_mapped()\n        self.touch()\n\n        instance_set = self.instance_sets.get(\n            extractor_name,\n            MetadataInstanceSet())\n', '        self.ensure_mapped()\n\n        instance_set = self.instance_sets.get(\n            extractor_name,\n            MetadataInstanceSet())\n        if configuration not in instance_set.configurations or any(\n                instance.metadata_content != metadata_content\n                for instance in instance_set):\n            self.touch()\n')]),
    ('C01', 'stamp-str', [('mapper/gitmapper/versionlistmapper.py', '                "time_stamp": version_record.time_stamp,\n', '                "time_stamp": version_record.time_stamp.split(".")[0],\n')]),
    ('C31', 'upper-uuid', [('mapper/gitmapper/versionlistmapper.py', '            prefix_path = MetadataPath(pdm_assoc["path"])\n', '            prefix_path = MetadataPath(pdm_assoc["path"].strip())\n')]),
    ('C32', 'leaf-order', [('versionlist.py', '        yield from map(\n            lambda vvr: (vvr[0], vvr[1].prefix_path),\n            self._iterate_version_records())', '        yield from {\n            vvr[1].element: (vvr[0], vvr[1].prefix_path)\n            for vvr in self._iterate_version_records()}.values()')]),
    ('C22', 'same-identifier', [('common.py', '        if element is metadata_root_record:\n            return\n', '        if element.reference is not None and element.reference == metadata_root_record.reference:\n            return\n')]),
    ('C27', 'keep-newer', [('metadata.py', '        instance_key = self.parameter_set.index(metadata_instance.configuration)\n        self._instances[instance_key] = metadata_instance\n', '        instance_key = self.parameter_set.index(metadata_instance.configuration)\n        existing = self._instances.get(instance_key)\n        if existing is not None and existing.time_stamp > metadata_instance.time_stamp:\n            return\n        self._instances[instance_key] = metadata_instance\n')]),
    ('C26', 'hash-eq', [('metadata.py', '            self.version == other.version\n            and self.parameter == other.parameter\n', '            hash(self) == hash(other)\n            and self.version == other.version\n            and len(self.parameter) == len(other.parameter)\n')]),
    ('C14', 'uuid-update-if-filled', [('mapper/gitmapper/uuidsetmapper.py', '        git_update_ref(realm, GitReference.UUID_SET.value, location)\n', '        if tree_entries:\n            git_update_ref(realm, GitReference.UUID_SET.value, location)\n')]),
    ('C14', 'update-if-new', [('mapper/gitmapper/versionlistmapper.py', '        git_update_ref(\n            realm,\n            GitReference.TREE_VERSION_LIST.value,\n            reference.location)\n', '        previous = tree_version_list.reference\n        if previous is None or previous.location != reference.location:\n            git_update_ref(\n                realm,\n                GitReference.TREE_VERSION_LIST.value,\n                reference.location)\n')]),
    ('C08', 'sorted-locations', [('mappableobject.py', '            or self.stored_sub_locations == self._get_sub_locations())', '            or set(self.stored_sub_locations) == set(self._get_sub_locations()))')]),
    ('C17', 'a cache is used that was not created', [('mapper/gitmapper/localcache.py', '\n    ensure_cache_exists(remote_repo)\n    cache_repo', '\n    cache_repo')]),
    ('C17', 'a path of a cache is added to a text', [('mapper/gitmapper/localcache.py', 'cache_repo = str(get_repo_cache_path(remote_repo))', 'cache_repo = get_repo_cache_path(remote_repo)')]),
    ('C20', 'a text is copied as a str', [('text.py', 'copied_text = Text(self.content)', 'copied_text = self.content')]),
    ('C34', 'old references to dataset trees are not read', [('mapper/mapper.py', 'if reference.class_name in ("FileTree", "DatasetTree"):', 'if reference.class_name in ("FileTree",):')]),
    ('C34', 'old references are converted for proxies only', [('mapper/mapper.py', 'if reference.class_name in ("FileTree", "DatasetTree"):', 'if reference.class_name == type(mappable_object).__name__ and reference.class_name in ("FileTree", "DatasetTree"):')]),
    ('C34', 'old references in version lists are refused', [('mapper/gitmapper/versionlistmapper.py', '("DatasetTree", "MTreeNode")', '("MTreeNode",)')]),
    ('C34', 'old references are read with their realm', [('mapper/reference.py', '            logger.info(f"old reference object found: {obj}")\n', '            logger.info(f"old reference object found: {obj}")\n            return cls(obj["class_name"], obj["realm"] + ":" + obj["location"])\n')]),
    ('C34', 'additional fields of references are refused', [('mapper/reference.py', '        check_serialized_version(obj)\n        if', '        check_serialized_version(obj)\n        assert set(obj) == {"@", "class_name", "location"}\n        if')]),
    ('C34', 'file trees of old references are dropped', [('mapper/gitmapper/metadatarootrecordmapper.py', '        if file_tree_reference.is_none_reference():', '        if file_tree_reference.is_none_reference() or file_tree_reference.class_name != "MTreeNode":')]),
    ('C34', 'old references are followed to their realm', [('mapper/gitmapper/metadatarootrecordmapper.py', '        file_tree_reference = Reference.from_json_obj(\n            json_object[Strings.FILE_TREE])\n', '        realm = json_object[Strings.FILE_TREE].get("realm", realm)\n        file_tree_reference = Reference.from_json_obj(\n            json_object[Strings.FILE_TREE])\n')]),
    ('C09', 'parts that were saved on their own are not noticed by purge', [('mappableobject.py', 'if not any(map(self.is_saved_on, self.saved_on)):', 'if not super().is_saved_on(self.realm):')]),
    ('C09', 'locations of parts are compared as sets', [('mappableobject.py', '            or self.stored_sub_locations == self._get_sub_locations())', '            or set(self.stored_sub_locations) == set(self._get_sub_locations()))')]),
    ('C09', 'missing locations of parts are enough', [('mappableobject.py', '            or self.stored_sub_locations == self._get_sub_locations())', '            or set(self.stored_sub_locations) >= set(self._get_sub_locations()))')]),
    ('C10', 'the state is restored after failing git commands only', [('mtreeproxy.py', 'except BaseException:', 'except RuntimeError:')]),
    ('C10', 'the state of saved parts is not restored', [('mtreeproxy.py', '            for sub_object in mappable_object.modifiable_sub_objects:\n                saved', '            for sub_object in mappable_object.modifiable_sub_objects:\n                if not sub_object.saved_on:\n                  saved')]),
    ('C10', 'the locations of parts are not restored', [('mtreeproxy.py', '                (mappable_object.realm,\n                 mappable_object.reference,\n                 mappable_object.stored_sub_locations) = location', '                (mappable_object.realm,\n                 mappable_object.reference,\n                 _) = location')]),
    ('C10', 'the realm is not restored', [('mtreeproxy.py', '                (mappable_object.realm,\n                 mappable_object.reference,\n                 mappable_object.stored_sub_locations) = location', '                (_,\n                 mappable_object.reference,\n                 mappable_object.stored_sub_locations) = location')]),
    ('C11', 'unloaded trees are saved nowhere', [('mtreeproxy.py', '            reference = self.mtree.write_out(destination,\n', '            reference = self.mtree.write_out(cache_destination if self.mtree.mapped else None,\n')]),
    ('C21', 'lookup fills an empty version list', [('common.py', '    if auto_create:\n        _ensure_versioned_element(\n            version_list=uuid_version_list', '    if auto_create or len(uuid_version_list) == 0:\n        _ensure_versioned_element(\n            version_list=uuid_version_list')]),
    ('C21', 'lookup registers the root dataset', [('common.py', '        if auto_create:\n            _ensure_versioned_element(\n                version_list=root_uuid_version_list', '        if auto_create or root_dataset_version not in root_uuid_version_list.versions():\n            _ensure_versioned_element(\n                version_list=root_uuid_version_list')]),
    ('C21', 'lookup creates the root record', [('common.py', '        if MetadataPath("") not in dataset_tree:\n            if auto_create is False:\n                return None\n', '        if MetadataPath("") not in dataset_tree:\n')]),
    ('C23', 'stored list without versions is replaced', [('common.py', '    if tree_version_list is None and auto_create:', '    if not tree_version_list and auto_create:')]),
    ('C22', 'root record without file tree', [('common.py', '                file_tree=FileTree())\n            dataset_tree.add_dataset(MetadataPath(""), root_mrr)', '                file_tree=None)\n            dataset_tree.add_dataset(MetadataPath(""), root_mrr)')]),
    ('C22', 'version list without versions is replaced', [('common.py', '        uuid_version_list = uuid_set.get_version_list(dataset_id)\n', '        uuid_version_list = uuid_set.get_version_list(dataset_id)\n        if len(uuid_version_list) == 0:\n            uuid_version_list = VersionList()\n')]),
    ('C08', 'versions on other realms stay saved', [('mappableobject.py', '        if self.stored_sub_locations != sub_locations:\n            self.set_unsaved()\n', '')]),
    ('C08', 'one saved realm only', [('modifiableobject.py', '    def set_saved_on(self, destination: str):\n', '    def set_saved_on(self, destination: str):\n        self.saved_on = set()\n')]),
    ('C01', 'stdout latin1', [('mapper/gitmapper/gitbackend/subprocess.py', 'checked_run(cmd_line).stdout.decode()', 'checked_run(cmd_line).stdout.decode("latin-1")')]),
    ('C01', 'stdout ascii', [('mapper/gitmapper/gitbackend/subprocess.py', 'checked_run(cmd_line).stdout.decode()', 'checked_run(cmd_line).stdout.decode("ascii", errors="replace")')]),
    ('C01', 'stdin latin1', [('mapper/gitmapper/gitbackend/subprocess.py', 'stdin_content.encode()', 'stdin_content.encode("latin-1", errors="replace")')]),
    ('C12', 'cache: text mode again', [('mapper/gitmapper/gitblobcache.py', '            with temp_file_path.open("wb") as f:\n                f.write(blob.encode() if isinstance(blob, str) else blob)\n', '            with temp_file_path.open("tw") as f:\n                f.write(blob)\n')]),
    ('C12', 'cache: bytes are decoded', [('mapper/gitmapper/gitblobcache.py', '            with temp_file_path.open("wb") as f:\n                f.write(blob.encode() if isinstance(blob, str) else blob)\n', '            with temp_file_path.open("tw") as f:\n                f.write(blob if isinstance(blob, str) else blob.decode(errors="replace"))\n')]),
    ('C12', 'cache: stale temp', [('mapper/gitmapper/gitblobcache.py', '            with temp_file_path.open("wb") as f:', '            with temp_file_path.open("ab") as f:')]),
    ('C02', 'set accepts instance', [('metadata.py', '        assert obj["@"]["type"] == "MetadataInstanceSet"\n', '        assert obj["@"]["type"] in ("MetadataInstanceSet", "MetadataInstance")\n')]),
    ('C02', 'prefix', [('metadata.py', '        assert obj["@"]["type"] == "ExtractorConfiguration"\n', '        assert obj["@"]["type"].startswith("Extractor")\n')]),
    ('C02', 'newer accepted', [('__init__.py', '    if stored_version != version_string:', '    if stored_version < version_string:')]),
    ('C02', 'startswith', [('__init__.py', '    if stored_version != version_string:', '    if not stored_version.startswith(version_string):')]),
]

EQUIVALENT = [
    ("unchanged", [("text.py", "import", "import")]),
    ("read_in: early return", [("mappableobject.py", """        if self.mapped is False:

            assert self.realm is not None""", """        if self.mapped:
            logger.debug("read_in: not needed")
            return self
        if True:

            assert self.realm is not None""")]),
    ("read_in: helper", [("mappableobject.py", """            get_mapper(
                type(self).__name__,
                backend_type).map_in(
                    self,
                    self.realm,
                    self.reference)

            # Mark the object as mapped.
            self.mapped = True
            self.stored_sub_locations = self._get_sub_locations()
""", """            self._load(get_mapper(type(self).__name__, backend_type))
"""), ("mappableobject.py", """    def write_out(self,""", """    def _load(self, mapper):
        mapper.map_in(self, self.realm, self.reference)
        self.mapped = True
        self.stored_sub_locations = self._get_sub_locations()

    def write_out(self,""")]),
    ("write_out: state in helper", [("mappableobject.py", """        self.realm = destination_realm
        self.reference = reference
        self.set_saved_on(destination_realm)
        self.stored_sub_locations = self._get_sub_locations()

        return self.reference""", """        self._mark_stored(reference, destination_realm)
        return reference"""), ("mappableobject.py", """    def purge(self):""", """    def _mark_stored(self, reference, realm):
        self.stored_sub_locations = self._get_sub_locations()
        self.reference, self.realm = reference, realm
        self.set_saved_on(realm)

    def purge(self):""")]),
    ("write_out: reordered conditions", [("mappableobject.py", """        if self.is_saved_on(destination_realm):
            if not force_write:
                self.realm""", """        saved = self.is_saved_on(destination_realm)
        if saved:
            if force_write is False:
                self.realm""")]),
    ("ensure_mapped simplified", [("mappableobject.py", """        if not self.mapped:
            self.read_in(backend_type)
            self.mapped = True
            return True
        return False""", """        if self.mapped:
            return False
        self.read_in(backend_type)
        return True""")]),
    ("purge: loop", [("mappableobject.py", """            if not any(map(self.is_saved_on, self.saved_on)):
                raise ValueError(""", """            saved = False
            for realm in self.saved_on:
                if self.is_saved_on(realm):
                    saved = True
                    break
            if not saved:
                raise ValueError(""")]),
    ("is_saved_on: loop", [("modifiableobject.py", """        return all(
            map(
                lambda element: element.is_saved_on(destination),
                self.modifiable_sub_objects))""", """        for element in self.modifiable_sub_objects:
            if not element.is_saved_on(destination):
                return False
        return True""")]),
    ("is_saved_on: inverted", [("modifiableobject.py", """        if destination not in self.saved_on:
            return False
        return all(
            map(
                lambda element: element.is_saved_on(destination),
                self.modifiable_sub_objects))""", """        return destination in self.saved_on and not any(
            not element.is_saved_on(destination) for element in self.modifiable_sub_objects)""")]),
    ("saved_on operations", [("modifiableobject.py", "        self.saved_on.add(destination)\n\n    def", "        self.saved_on = self.saved_on | {destination}\n\n    def"),
                             ("modifiableobject.py", "    def set_unsaved(self):\n        self.saved_on = set()", "    def set_unsaved(self):\n        self.saved_on.clear()")]),
    ("mtreenode: get_child", [("mtreenode.py", """        self.ensure_mapped()
        return self.child_nodes.get(str(child_name), None)""", """        self.ensure_mapped()
        name = str(child_name)
        if name in self.child_nodes:
            return self.child_nodes[name]
        return None""")]),
    ("mtreenode: add children one by one", [("mtreenode.py", """        self.touch()
        self.child_nodes = {
            **self.child_nodes,
            **dict(children)
        }""", """        for name, child in children:
            self.child_nodes[name] = child
        self.touch()""")]),
    ("mtreenode: update", [("mtreenode.py", """        self.child_nodes = {
            **self.child_nodes,
            **dict(children)
        }""", """        self.child_nodes.update(children)""")]),
    ("mtreenode: duplicates by comprehension", [("mtreenode.py", """        duplicated_names = set(self.child_nodes.keys()) & new_names""", """        duplicated_names = [name for name, _ in children if name in self.child_nodes]""")]),
    ("mtreenode: add_child_at flat", [("mtreenode.py", """        if len(path) == 1:
            if isinstance(existing_child, MTreeNode):
                raise ValueError(
                    f"tree-node named {path_element} exists: "
                    f"{existing_child}, cannot be converted "
                    f"to {child}")

            # Add the final object to self
            self.add_child(path.parts[0], child)

        else:
""", """        if len(path) == 1:
            if isinstance(existing_child, MTreeNode):
                raise ValueError("exists")
            self.add_child(path_element, child)
            return

        if True:
""")]),
    ("mtreenode: iterative add_child_at", [("mtreenode.py", """        path_element = path.parts[0]
        existing_child = self.get_child(path_element)

        if len(path) == 1:""", """        node = self
        for name in path.parts[:-1]:
            next_node = node.get_child(name)
            if next_node is None:
                next_node = MTreeNode(self.leaf_class)
                node.add_child(name, next_node)
            if not isinstance(next_node, MTreeNode):
                raise ValueError(f"non tree-node named {name} exists")
            node = next_node
        last = path.parts[-1]
        if node.get_child(last) is not None:
            raise ValueError(f"{last} exists")
        node.add_child(last, child)
        return

        path_element = path.parts[0]
        existing_child = self.get_child(path_element)

        if len(path) == 1:""")]),
    ("mtreenode: recursive lookup", [("mtreenode.py", """        path = path or MetadataPath("")
        current_node = self
        for element in path.parts:
            if not isinstance(current_node, MTreeNode):
                return None
            current_node = current_node.get_child(element)
            if current_node is None:
                return None
        return current_node""", """        if path is None or len(path.parts) == 0:
            return self
        child = self.get_child(path.parts[0])
        if child is None or len(path.parts) == 1:
            return child
        if not isinstance(child, MTreeNode):
            return None
        return child.get_object_at_path(MetadataPath("/".join(path.parts[1:])))""")]),
    ("mtreenode: traversal", [("mtreenode.py", """                if not isinstance(child_node, MTreeNode):
                    yield MetadataPath(child_name), child_node
                else:
                    for sub_path, tree_node in child_node.get_paths_recursive(
                            show_intermediate):
                        yield MetadataPath(child_name) / sub_path, tree_node""", """                prefix = MetadataPath(child_name)
                if isinstance(child_node, MTreeNode):
                    yield from (
                        (prefix / sub_path, node)
                        for sub_path, node in child_node.get_paths_recursive(show_intermediate))
                    continue
                yield prefix, child_node""")]),
    ("datasettree: loop", [("datasettree.py", """        return [
            (
                MetadataPath("/".join(path.parts[:-1])),
                cast(MetadataRootRecord, node)
            )
            for path, node in self.mtree.get_paths_recursive()
            if path.parts[-1] == datalad_root_record_name
        ]""", """        result = []
        for path, node in self.mtree.get_paths_recursive():
            *parents, name = path.parts
            if name != datalad_root_record_name:
                continue
            result.append((MetadataPath("/".join(parents)), node))
        return result""")]),
    ("datasettree: contains by record", [("datasettree.py", """        return self.mtree.get_object_at_path(path / datalad_root_record_name) is not None""", """        record = self.mtree.get_object_at_path(path / datalad_root_record_name)
        return False if record is None else True""")]),
    ("filetree: early return", [("filetree.py", """        if metadata is None:
            return None

        assert isinstance(metadata, Metadata)
        metadata.ensure_mapped()
        return metadata""", """        if metadata is not None:
            assert isinstance(metadata, Metadata)
            metadata.ensure_mapped()
        return metadata""")]),
    ("metadata: setdefault", [("metadata.py", """        instance_set = self.instance_sets.get(
            extractor_name,
            MetadataInstanceSet())
""", """        instance_set = self.instance_sets.setdefault(extractor_name, MetadataInstanceSet())
"""), ("metadata.py", """
        self.instance_sets[extractor_name] = instance_set
""", "\n")]),
    ("metadata: time stamp", [("metadata.py", """        self.ensure_mapped()
        self.touch()

        instance_set = self""", """        if time_stamp is None:
            time_stamp = time.time()
        self.ensure_mapped()
        self.touch()

        instance_set = self"""), ("metadata.py", "                time_stamp if time_stamp is not None else time.time(),", "                time_stamp,")]),
    ("metadata: touch last", [("metadata.py", """        self.ensure_mapped()
        self.touch()

        instance_set = self""", """        self.ensure_mapped()

        instance_set = self"""), ("metadata.py", "        self.instance_sets[extractor_name] = instance_set", "        self.instance_sets[extractor_name] = instance_set\n        self.touch()")]),
    ("metadata: try index", [("metadata.py", """        if metadata_instance.configuration not in self.parameter_set:
            self.parameter_set.append(metadata_instance.configuration)
        instance_key = self.parameter_set.index(metadata_instance.configuration)
""", """        try:
            instance_key = self.parameter_set.index(metadata_instance.configuration)
        except ValueError:
            instance_key = len(self.parameter_set)
            self.parameter_set.append(metadata_instance.configuration)
""")]),
    ("metadata: to_json loops", [("metadata.py", """        self.ensure_mapped()
        return json.dumps({
            "@": dict(
                type="Metadata",
                version=version_string
            ),
            "instance_sets": {
                format_name: instance_set.to_json_obj()
                for format_name, instance_set in self.instance_sets.items()
            }
        })""", """        self.ensure_mapped()
        sets = {}
        for format_name in self.instance_sets:
            sets[format_name] = self.instance_sets[format_name].to_json_obj()
        header = {"type": "Metadata", "version": version_string}
        return json.dumps({"@": header, "instance_sets": sets})""")]),
    ("metadata: from_json loop", [("metadata.py", """        metadata_instance_set._instances = {
            int(configuration_id): MetadataInstance.from_json_obj(json_obj)
            for configuration_id, json_obj in obj["instance_set"].items()
        }""", """        for configuration_id, json_obj in obj["instance_set"].items():
            instance = MetadataInstance.from_json_obj(json_obj)
            metadata_instance_set._instances[int(configuration_id)] = instance""")]),
    ("versionlist: setdefault", [("versionlist.py", """        if primary_data_version not in self.version_set:
            self.version_set[primary_data_version] = dict()
        self.version_set[primary_data_version][prefix_path] = VersionRecord(
            time_stamp,
            prefix_path,
            element)""", """        record = VersionRecord(time_stamp, prefix_path, element)
        self.version_set.setdefault(primary_data_version, {})[prefix_path] = record""")]),
    ("versionlist: iterate", [("versionlist.py", """        yield from (
            (version, version_record)
            for version, prefixed_set in self.version_set.items()
            for version_record in prefixed_set.values()
        )""", """        for version in self.version_set:
            for version_record in self.version_set[version].values():
                yield version, version_record""")]),
    ("versionlist: versions generator", [("versionlist.py", """        yield from map(
            lambda vvr: (vvr[0], vvr[1].prefix_path),
            self._iterate_version_records())""", """        for version, record in self._iterate_version_records():
            yield version, record.prefix_path""")]),
    ("versionlist: len", [("versionlist.py", "        return sum([len(path_dict) for path_dict in self.version_set.values()])", "        return len(list(self._iterate_version_records()))")]),
    ("versionlist: deepcopy by versioned_elements", [("versionlist.py", """        copied_version_list = VersionList()
        for primary_data_version, prefix_set in self.version_set.items():
            for version_record in prefix_set.values():
                copied_version_list.set_versioned_element(
                    primary_data_version,
                    version_record.time_stamp,
                    path_prefix / version_record.prefix_path,
                    version_record.element.deepcopy(
                        new_mapper_family,
                        new_destination))""", """        copied_version_list = VersionList()
        for primary_data_version, (time_stamp, prefix_path, element) in self.versioned_elements:
            element_copy = element.deepcopy(new_mapper_family, new_destination)
            copied_version_list.set_versioned_element(
                primary_data_version=primary_data_version,
                time_stamp=time_stamp,
                prefix_path=path_prefix / prefix_path,
                element=element_copy)""")]),
    ("versionlistmapper: loop", [("mapper/gitmapper/versionlistmapper.py", """        json_object = [
            {
                "primary_data_version": primary_data_version,
                "time_stamp": version_record.time_stamp,
                "path": version_record.prefix_path.as_posix(),
                "dataset_tree": self._write_element(
                    version_record.element,
                    realm).to_json_obj()
            }
            for primary_data_version, prefix_set in version_list.version_set.items()
            for version_record in prefix_set.values()
        ]
""", """        json_object = []
        for primary_data_version, prefix_set in version_list.version_set.items():
            for version_record in prefix_set.values():
                reference = self._write_element(version_record.element, realm)
                json_object.append(dict(
                    primary_data_version=primary_data_version,
                    time_stamp=version_record.time_stamp,
                    path=str(version_record.prefix_path),
                    dataset_tree=reference.to_json_obj()))
""")]),
    ("versionlistmapper: reader setdefault", [("mapper/gitmapper/versionlistmapper.py", """            if primary_data_version not in version_records:
                version_records[primary_data_version] = dict()
            version_records[primary_data_version][prefix_path] = \\
                VersionRecord(
                    pdm_assoc["time_stamp"],
                    prefix_path,
                    mrr_or_tree)""", """            records = version_records.setdefault(primary_data_version, dict())
            records[prefix_path] = VersionRecord(pdm_assoc["time_stamp"], prefix_path, mrr_or_tree)""")]),
    ("uuidsetmapper: loop", [("mapper/gitmapper/uuidsetmapper.py", """        tree_entries = [
            (
                "100644",
                "blob",
                version_list.write_out(realm).location,
                str(uuid)
            )
            for uuid, version_list in uuid_set.uuid_set.items()
        ]
        location = git_save_tree(realm, set(tree_entries))""", """        tree_entries = set()
        for uuid, version_list in uuid_set.uuid_set.items():
            reference = version_list.write_out(realm)
            tree_entries.add(("100644", "blob", reference.location, str(uuid)))
        location = git_save_tree(realm, tree_entries)""")]),
    ("uuidsetmapper: unpack", [("mapper/gitmapper/uuidsetmapper.py", """            line_elements = split_git_lstree_line(line)
            version_list = VersionList(
                realm=realm,
                reference=Reference("VersionList", line_elements[2]))

            uuid_set.uuid_set[UUID(line_elements[3])] = version_list""", """            _, _, location, name = split_git_lstree_line(line)
            reference = Reference("VersionList", location)
            uuid_set.uuid_set[UUID(name)] = VersionList(None, realm, reference)""")]),
    ("mtreenodemapper: writer split", [("mapper/gitmapper/mtreenodemapper.py", """        for child_node in mtree_node.child_nodes.values():
            child_node.write_out(realm)
""", """        references = {
            name: child_node.write_out(realm)
            for name, child_node in mtree_node.child_nodes.items()}
"""), ("mapper/gitmapper/mtreenodemapper.py", """                child_node.reference.location,
                self""", """                references[child_name].location,
                self"""), ("mapper/gitmapper/mtreenodemapper.py", """            if not child_node.reference.is_none_reference()""", """            if not references[child_name].is_none_reference()""")]),
    ("mtreenodemapper: entry helper", [("mapper/gitmapper/mtreenodemapper.py", """        dir_entries = [
            (
                "040000" if isinstance(child_node, MTreeNode) else "100644",
                "tree" if isinstance(child_node, MTreeNode) else "blob",
                child_node.reference.location,
                self.escape_double_quotes(child_name)
            )
            for child_name, child_node in mtree_node.child_nodes.items()
            if not child_node.reference.is_none_reference()
        ]""", """        dir_entries = []
        for child_name, child_node in mtree_node.child_nodes.items():
            location = child_node.reference
            if location.is_none_reference():
                continue
            if isinstance(child_node, MTreeNode):
                mode, kind = "040000", "tree"
            else:
                mode, kind = "100644", "blob"
            dir_entries.append((mode, kind, location.location, self.escape_double_quotes(child_name)))""")]),
    ("rootrecordmapper: helper", [("mapper/gitmapper/metadatarootrecordmapper.py", """        if mrr.dataset_level_metadata is None:
            dataset_level_metadata_reference = Reference.get_none_reference("Metadata")
        else:
            dataset_level_metadata_reference = mrr.dataset_level_metadata.write_out(
                realm,
                "git",
                force_write)
            add_blob_reference(dataset_level_metadata_reference.location)
""", """        dataset_level_metadata_reference = self._write_metadata(mrr, realm, force_write)
"""), ("mapper/gitmapper/metadatarootrecordmapper.py", """    def map_out_impl(self,""", """    @staticmethod
    def _write_metadata(mrr, realm, force_write):
        if mrr.dataset_level_metadata is None:
            return Reference.get_none_reference("Metadata")
        result = mrr.dataset_level_metadata.write_out(realm, "git", force_write)
        add_blob_reference(result.location)
        return result

    def map_out_impl(self,""")]),
    ("rootrecord: purge loop", [("metadatarootrecord.py", """        if self.dataset_level_metadata is not None:
            self.dataset_level_metadata.purge()
        if self._file_tree is not None:
            self._file_tree.purge()
        self.dataset_level_metadata = None""", """        for part in (self._file_tree, self.dataset_level_metadata):
            if part is not None:
                part.purge()
        self.dataset_level_metadata = None""")]),
    ("rootrecord: sub objects generator", [("metadatarootrecord.py", """        return [
            child
            for child in [self.dataset_level_metadata, self._file_tree]
            if child is not None
        ]""", """        if self.dataset_level_metadata is not None:
            yield self.dataset_level_metadata
        if self._file_tree is not None:
            yield self._file_tree""")]),
    ("metadatamapper: reference helper", [("mapper/gitmapper/metadatamapper.py", """        metadata_blob_location = git_save_str(realm, metadata.to_json())
        add_blob_reference(metadata_blob_location)
""", """        content = metadata.to_json()
        metadata_blob_location = git_save_str(realm, content)
        add_blob_reference(metadata_blob_location)
""")]),
    ("metadatamapper: if cache", [("mapper/gitmapper/metadatamapper.py", """        if cache is None:
            return self.map_out_impl_immediate(metadata, realm, force_write)
        else:
            return self.map_out_impl_cached(cache, metadata, realm)""", """        if cache is not None:
            return self.map_out_impl_cached(cache, metadata, realm)
        return self.map_out_impl_immediate(metadata, realm, force_write)""")]),
    ("gitblobcache: flush loops", [("mapper/gitmapper/gitblobcache.py", """        hash_dict = {
            blob: hash_values[index]
            for index, (blob, expected_hash) in enumerate(self.cached_objects)
            if check_hash(hash_values[index], expected_hash)
        }
        self.flushed_objects.update(hash_dict)
        self.cached_objects = []""", """        for (blob, expected_hash), hash_value in zip(self.cached_objects, hash_values):
            check_hash(hash_value, expected_hash)
        self.cached_objects = []""")]),
    ("treeupdater: loops", [("mapper/gitmapper/treeupdater.py", """    directory_infos = {
        path_info.first(): [
            matching_path_info.stripped_by(1)
            for matching_path_info in path_infos
            if matching_path_info not in leaf_infos
            and matching_path_info.first() == path_info.first()
        ]
        for path_info in path_infos
        if path_info not in leaf_infos
    }
""", """    directory_infos = {}
    for path_info in path_infos:
        if not path_info.is_leaf():
            directory_infos.setdefault(path_info.first(), []).append(path_info.stripped_by(1))
"""), ("mapper/gitmapper/treeupdater.py", "    resulting_entries = {**root_entry_table}", "    resulting_entries = dict(root_entry_table)")]),
    ("treeupdater: defaultdict", [("mapper/gitmapper/treeupdater.py", """    directory_infos = {
        path_info.first(): [
            matching_path_info.stripped_by(1)
            for matching_path_info in path_infos
            if matching_path_info not in leaf_infos
            and matching_path_info.first() == path_info.first()
        ]
        for path_info in path_infos
        if path_info not in leaf_infos
    }
""", """    from collections import defaultdict
    directory_infos = defaultdict(list)
    for path_info in path_infos:
        if not path_info.is_leaf():
            directory_infos[path_info.first()].append(path_info.stripped_by(1))
""")]),
    ("treeupdater: conversion helper", [("mapper/gitmapper/treeupdater.py", """        existing_entry = root_entry_table.get(name, None)
        if existing_entry:
            if existing_entry.type != leaf_info.type:
                raise ValueError(
                    f"cannot convert {existing_entry.type.name} "
                    f"to {leaf_info.type.name}: {name}")
            logger.debug(f"modifying existing entry: {name}")
""", """        _check_same_type(root_entry_table.get(name, None), leaf_info)
"""), ("mapper/gitmapper/treeupdater.py", """def add_paths(""", """def _check_same_type(entry, leaf_info):
    if entry is not None and entry.type != leaf_info.type:
        raise ValueError(f"cannot convert {entry.type.name} to {leaf_info.type.name}: {entry.name}")


def add_paths(""")]),
    ("objectreference: split", [("mapper/gitmapper/objectreference.py", """            PathInfo(
                [
                    object_hash[0:3],
                    object_hash[3:6],
                    object_hash[6:9],
                    object_hash[9:],
                ],
                object_hash,
                entry_type)
            for entry_type, object_hash in cached_object_references
""", """            _to_path_info(*entry)
            for entry in cached_object_references
"""), ("mapper/gitmapper/objectreference.py", """def flush_object_references(""", """def _to_path_info(entry_type, object_hash):
    from ..gitmapper.treeupdater import PathInfo
    elements = [object_hash[:3], object_hash[3:6], object_hash[6:9], object_hash[9:]]
    return PathInfo(elements, object_hash, entry_type)


def flush_object_references(""")]),
    ("backend: command helper", [("mapper/gitmapper/gitbackend/subprocess.py", """    repo_dir = adapt_for_remote(repo_dir, object_reference)
    cmd_line = git_command_line(repo_dir, "cat-file", ["-p", object_reference])
    return checked_execute(cmd_line)[0]


def git_ls_tree(""", """    output, _ = checked_execute(
        git_command_line(adapt_for_remote(repo_dir, object_reference), "cat-file", ["-p", object_reference]))
    return output


def git_ls_tree(""")]),
    ("no-op statements", [("mappableobject.py", "        from dataladmetadatamodel.mapper import get_mapper\n", "        from dataladmetadatamodel.mapper import get_mapper\n        _unused = None\n"),
                          ("mtreenode.py", "        self.ensure_mapped()\n", "        _ = 0\n        self.ensure_mapped()\n"),
                          ("versionlist.py", "        self.ensure_mapped()\n", "        pass\n        self.ensure_mapped()\n")]),
    ("trees are saved by one function", [("mapper/gitmapper/gitbackend/subprocess.py", "    tree_spec = \"\".join([\n        f\"{flag} {node_type} {object_hash}\\t{name}\\n\"\n        for flag, node_type, object_hash, name in entry_set\n    ])\n    cmd_line = git_command_line(repo_dir, \"mktree\", [\"--missing\", ])\n    return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]\n\n\ndef git_update_ref", "    lines = []\n    for flag, node_type, object_hash, name in entry_set:\n        lines.append(flag + \" \" + node_type + \" \" + object_hash + \"\\t\" + name + \"\\n\")\n    return _mktree(repo_dir, \"\".join(lines))\n\n\ndef _mktree(repo_dir, text):\n    return checked_execute(git_command_line(repo_dir, \"mktree\", [\"--missing\"]), text)[0][0]\n\n\ndef git_update_ref")]),
    ("checked processes", [("mapper/gitmapper/gitbackend/subprocess.py", "    result = execute(arguments, stdin_content)\n    if result.returncode != 0:\n        error", "    result = execute(arguments, stdin_content)\n    failed = bool(result.returncode)\n    if failed:\n        error")]),
    ("source with check=True", [("metadatasource.py", "        result = subprocess.run(command, stdout=file_descriptor)\n        if result.returncode != 0:\n            raise RuntimeError(\n                f\"subprocess returned {result.returncode}, \"\n                f\"command: {command}\")", "        try:\n            subprocess.run(command, stdout=file_descriptor, check=True)\n        except subprocess.CalledProcessError as error:\n            raise RuntimeError(f\"subprocess returned {error.returncode}, command: {command}\") from error")]),
    ("references registered directly", [("mapper/gitmapper/objectreference.py", "def add_blob_reference(object_hash: str):\n    add_object_reference(EntryType.File, object_hash)", "def add_blob_reference(object_hash: str):\n    if object_hash != none_location:\n        cached_object_references.add((EntryType.File, object_hash))")]),
    ("is_remote with a tuple", [("mapper/reference.py", "        return any(\n            map(\n                lambda pattern: realm.startswith(pattern),\n                [\n                   \"git@\",\n                   \"git:\",\n                   \"http:\",\n                   \"https:\",\n                   \"ssh:\"]))", "        return realm.startswith((\"git@\", \"git:\", \"http:\", \"https:\", \"ssh:\"))")]),
    ("forced refspec", [("mapper/gitmapper/gitbackend/subprocess.py", "            \"-f\",\n", ""), ("mapper/gitmapper/gitbackend/subprocess.py", "            remote_reference + (", "            \"+\" + remote_reference + (")]),
    ("remote check first", [("mappableobject.py", "        # If the object is not mapped and not modified,\n        # we do not have to do anything.\n        if not self.mapped:", "        remote = destination_realm is not None and Reference.is_remote(destination_realm)\n        if not self.mapped:"), ("mappableobject.py", "        if Reference.is_remote(destination_realm):\n            raise", "        if remote:\n            raise")]),
    ("metadata mapper: helper", [("mapper/gitmapper/metadatamapper.py", "        metadata_blob_location = cache.cache_blob(realm, metadata.to_json())\n        add_blob_reference(metadata_blob_location)\n", "        metadata_blob_location = self._cache_metadata(cache, realm, metadata)\n"), ("mapper/gitmapper/metadatamapper.py", "    def map_out_impl_cached(self,", "    @staticmethod\n    def _cache_metadata(cache, realm, metadata):\n        location = cache.cache_blob(realm, metadata.to_json())\n        add_blob_reference(location)\n        return location\n\n    def map_out_impl_cached(self,")]),
    ("publish in a helper", [("mapper/gitmapper/versionlistmapper.py", "        git_update_ref(\n            realm,\n            GitReference.TREE_VERSION_LIST.value,\n            reference.location)\n        return Reference(\"TreeVersionList\", reference.location)", "        return self._publish(realm, reference.location)\n\n    @staticmethod\n    def _publish(realm, location):\n        git_update_ref(ref_name=GitReference.TREE_VERSION_LIST.value, repo_dir=realm, location=location)\n        return Reference(\"TreeVersionList\", location)")]),
    ("cache: early exit", [("mapper/gitmapper/localcache.py", "    if object_id.startswith(\"refs\"):\n        git_fetch_reference(\n            cache_repo,\n            remote_repo,\n            object_id,\n            object_id)\n    elif not git_object_exists_locally(cache_repo, object_id):\n        git_fetch_object(\n            cache_repo,\n            remote_repo,\n            object_id)", "    is_reference = object_id.startswith(\"refs\")\n    if not is_reference and git_object_exists_locally(cache_repo, object_id):\n        return\n    local_name = object_id if is_reference else None\n    git_fetch_reference(cache_repo, remote_repo, object_id, local_name)"), ("mapper/gitmapper/localcache.py", "    git_fetch_object,\n", "")]),
    ("lock state by setdefault", [("mapper/gitmapper/utils.py", "    if lock_dir not in lock_dict:\n        lock_dict[lock_dir] = LockState(\n            0,\n            InterProcessLock(str(lock_dir / GIT_MAPPER_LOCK_FILE_NAME)))\n    return lock_dict[lock_dir]", "    return lock_dict.setdefault(\n        lock_dir,\n        LockState(0, InterProcessLock(str(lock_dir / GIT_MAPPER_LOCK_FILE_NAME))))")]),
    ("lock context as class", [("mapper/gitmapper/utils.py", "@contextmanager\ndef locked_backend(realm: Path):\n    \"\"\" lock and unlock the backend given by realm \"\"\"\n    lock_backend(realm)\n    try:\n        yield None\n    finally:\n        unlock_backend(realm)", "class locked_backend:\n    def __init__(self, realm: Path):\n        self.realm = realm\n\n    def __enter__(self):\n        lock_backend(self.realm)\n\n    def __exit__(self, *args):\n        unlock_backend(self.realm)\n        return False")]),
    ("release before decrement", [("mapper/gitmapper/utils.py", "    lock_state.counter -= 1\n    if lock_state.counter == 0:\n        logger.debug(\n            \"process {} unlocks git backend using file {}\".format(PID, lock_dir))\n        lock_state.lock.release()", "    if lock_state.counter == 1:\n        lock_state.lock.release()\n    lock_state.counter = lock_state.counter - 1")]),
    ("locks in two dictionaries", [("mapper/gitmapper/utils.py", "    lock_state = _get_lock_state(read_write_locked, lock_dir)\n    if lock_state.counter == 0:\n        lock_time = time.time()", "    lock_state = _get_lock_state(read_write_locked, lock_dir)\n    if not lock_state.counter > 0:\n        lock_time = time.time()"), ("mapper/gitmapper/utils.py", "    lock_state.counter += 1", "    lock_state.counter = lock_state.counter + 1")]),
    ("lock names by realm", [("mapper/gitmapper/utils.py", "            InterProcessLock(str(lock_dir / GIT_MAPPER_LOCK_FILE_NAME)))", "            InterProcessLock(os.path.join(str(lock_dir), GIT_MAPPER_LOCK_FILE_NAME)))")]),
    ("cached blobs by write_text", [("mapper/gitmapper/gitblobcache.py", "            with temp_file_path.open(\"tw\") as f:\n                f.write(blob)\n", "            temp_file_path.write_text(blob)\n")]),
    ("cached blobs in bytes", [("mapper/gitmapper/gitblobcache.py", "            with temp_file_path.open(\"tw\") as f:\n                f.write(blob)\n", "            data = blob.encode() if isinstance(blob, str) else blob\n            with temp_file_path.open(\"wb\") as f:\n                f.write(data)\n")]),
    ("cache flushed by helper", [("mapper/gitmapper/gitblobcache.py", "        file_list = []\n        for index, (blob, expected_hash) in enumerate(self.cached_objects):\n            temp_file_path = self.temp_dir_path / str(index)\n            with temp_file_path.open(\"tw\") as f:\n                f.write(blob)\n            file_list.append(str(temp_file_path))\n\n        hash_values", "        file_list = [\n            self._store(str(index), blob)\n            for index, (blob, _) in enumerate(self.cached_objects)\n        ]\n        hash_values"), ("mapper/gitmapper/gitblobcache.py", "    def flush(self):", "    def _store(self, name, blob):\n        path = self.temp_dir_path / name\n        with open(path, \"wt\", encoding=\"utf-8\") as f:\n            f.write(blob)\n        return str(path)\n\n    def flush(self):")]),
    ("cache flushed when at least full", [("mapper/gitmapper/gitblobcache.py", "len(self.cached_objects) == self.maxsize", "len(self.cached_objects) >= self.maxsize")]),
    ("references cleared in place", [("mapper/gitmapper/objectreference.py", "        cached_object_references = set()\n\n", "        cached_object_references.clear()\n\n")]),
    ("references sorted", [("mapper/gitmapper/objectreference.py", "            for entry_type, object_hash in cached_object_references\n        ]", "            for entry_type, object_hash in sorted(\n                cached_object_references,\n                key=lambda entry: entry[1])\n        ]")]),
    ("reference path by helper", [("mapper/gitmapper/objectreference.py", "                [\n                    object_hash[0:3],\n                    object_hash[3:6],\n                    object_hash[6:9],\n                    object_hash[9:],\n                ],\n", "                _elements(object_hash),\n"), ("mapper/gitmapper/objectreference.py", "def flush_object_references(", "def _elements(object_hash):\n    parts = [object_hash[i:i + 3] for i in (0, 3, 6)]\n    return parts + [object_hash[9:]]\n\n\ndef flush_object_references(")]),
    ("early return without references", [("mapper/gitmapper/objectreference.py", "    if cached_object_references:\n        path_infos", "    pending = set(cached_object_references)\n    if len(pending) > 0:\n        path_infos")]),
    ("legacy stores by table", [("mapper/gitmapper/objectreference.py", "    if legacy_trees_added is True:\n        remove_legacy_store_reference(realm, GitReference.LEGACY_TREES)\n    if legacy_blobs_added is True:\n        remove_legacy_store_reference(realm, GitReference.LEGACY_BLOBS)", "    for added, reference in ((legacy_trees_added, GitReference.LEGACY_TREES),\n                             (legacy_blobs_added, GitReference.LEGACY_BLOBS)):\n        if added:\n            remove_legacy_store_reference(realm, reference)")]),
    ("cache pop instead of del", [("mapper/gitmapper/metadatamapper.py", "            cache.cached_objects = []\n            del cls.metadata_caches[realm]", "            cache.cached_objects.clear()\n            cls.metadata_caches.pop(realm)")]),
    ("cache membership", [("mapper/gitmapper/metadatamapper.py", "        if cls.get_cache(realm) is not None:\n            raise", "        if realm in cls.metadata_caches:\n            raise")]),
    ("name quoting as table", [("mapper/gitmapper/mtreenodemapper.py", "        if any(character in input_string for character in '\"\\n\\r'):\n            return (\n                '\"'\n                + input_string\n                .replace('\\\\', '\\\\\\\\')\n                .replace('\\\"', '\\\\\"')\n                .replace('\\n', '\\\\n')\n                .replace('\\r', '\\\\r')\n                + '\"'\n            )\n        else:\n            return input_string", "        special = {'\"', '\\n', '\\r'}\n        if not special & set(input_string):\n            return input_string\n        quoted = input_string.replace('\\\\', '\\\\\\\\')\n        for character, replacement in (('\"', '\\\\\"'), ('\\n', '\\\\n'), ('\\r', '\\\\r')):\n            quoted = quoted.replace(character, replacement)\n        return f'\"{quoted}\"'")]),
    ("split limited", [("mapper/gitmapper/utils.py", "line.split(\"\\t\")", "line.split(\"\\t\", 1)")]),
    ("partition", [("mapper/gitmapper/utils.py", "    fixed_fields, name = line.split(\"\\t\")", "    fixed_fields, _, name = line.partition(\"\\t\")")]),
    ("unquoting helper", [("mapper/gitmapper/mtreenodemapper.py", "            if name.startswith('\"'):\n                name = codecs.escape_decode(name[1:-1])[0].decode(\"utf-8\")\n", "            name = self._unquote(name)\n"), ("mapper/gitmapper/mtreenodemapper.py", "    def map_out_impl(", "    @staticmethod\n    def _unquote(name):\n        if not (name[:1] == '\"' and name[-1:] == '\"'):\n            return name\n        return codecs.escape_decode(name[1:-1])[0].decode()\n\n    def map_out_impl(")]),
    ("path parts", [("metadatapath.py", "        if not original_path.is_absolute():\n            return \"/\".join(original_path.parts)\n", "        if not original_path.is_absolute():\n            return original_path.as_posix()\n")]),
    ("path constructor with parts", [("metadatapath.py", "        posix_args = []\n        for arg in args:\n            if isinstance(arg, str):\n                arg.replace(\"\\\\\", \"/\")\n            posix_args.append(arg)\n\n        original_path = PurePosixPath(*posix_args)\n", "        original_path = PurePosixPath(*args)\n")]),
    ("path root relative", [("metadatapath.py", "        modified_path = \"/\".join(original_path.parts[1:])\n", "        modified_path = str(original_path.relative_to(original_path.anchor))\n")]),
    ("no carriage return", [("mapper/gitmapper/mtreenodemapper.py", "'\"\\n\\r'", "'\"\\n'")]),
    ("root record created by helper", [("common.py", "        metadata_root_record = MetadataRootRecord(\n            dataset_identifier=dataset_id,\n            dataset_version=primary_data_version,\n            dataset_level_metadata=Metadata(),\n            file_tree=FileTree())", "        metadata_root_record = _new_record(dataset_id, primary_data_version)"), ("common.py", "def get_metadata_root_record_from_top_nodes(", "def _new_record(identifier, version):\n    return MetadataRootRecord(identifier, version, Metadata(), FileTree())\n\n\ndef get_metadata_root_record_from_top_nodes(")]),
    ("top elements loaded in a loop", [("common.py", "    return _read_in_if_exists(tree_version_list), _read_in_if_exists(uuid_set)", "    loaded = [_read_in_if_exists(x) for x in (tree_version_list, uuid_set)]\n    return loaded[0], loaded[1]")]),
    ("element ensured by try", [("common.py", "    time_stamp = str(time.time())\n    if (primary_data_version, prefix_path) in version_list.versions_and_prefix_paths():\n        time_stamp, _, element = version_list.get_versioned_element(\n            primary_data_version,\n            prefix_path)\n        if element is metadata_root_record:\n            return\n", "    try:\n        time_stamp, _, element = version_list.get_versioned_element(primary_data_version, prefix_path)\n    except KeyError:\n        time_stamp, element = str(time.time()), None\n    if element is metadata_root_record:\n        return\n")]),
    ("sub-dataset by length of path", [("common.py", "is_sub_dataset = dataset_tree_path != MetadataPath(\"\")", "is_sub_dataset = len(dataset_tree_path) > 0")]),
    ("record looked up before membership", [("common.py", "    if dataset_tree_path not in dataset_tree:\n        if auto_create", "    metadata_root_record = dataset_tree.get_metadata_root_record(dataset_tree_path)\n    if metadata_root_record is None:\n        if auto_create"), ("common.py", "        dataset_tree.add_dataset(dataset_tree_path, metadata_root_record)\n    else:\n        metadata_root_record = dataset_tree.get_metadata_root_record(\n            dataset_tree_path)\n", "        dataset_tree.add_dataset(dataset_tree_path, metadata_root_record)\n")]),
    ("copy of instance sets through their JSON objects", [("metadata.py", "copied_metadata.instance_sets[extractor_name] = copy.deepcopy(instance_set)", "copied_metadata.instance_sets[extractor_name] = (\n                MetadataInstanceSet.from_json_obj(\n                    json.loads(json.dumps(instance_set.to_json_obj()))))")]),
    ("copy of a UUID set by comprehension", [("uuidset.py", "        for uuid, version_list in self.uuid_set.items():\n            copied_uuid_set.uuid_set[uuid] = version_list.deepcopy(\n                new_mapper_family,\n                new_destination)", "        copied_uuid_set.uuid_set.update({\n            uuid: version_list.deepcopy(new_mapper_family, new_destination)\n            for uuid, version_list in self.uuid_set.items()})")]),
    ("copy with try-finally instead of the context manager", [("mappableobject.py", "        with ensure_mapped(self):\n            result = self.deepcopy_impl(new_mapper_family,\n                                        new_destination,\n                                        **kwargs)\n        return result", "        needs_purge = self.ensure_mapped()\n        try:\n            return self.deepcopy_impl(new_mapper_family,\n                                      new_destination,\n                                      **kwargs)\n        finally:\n            if needs_purge:\n                self.purge()")]),
    ("copy of all metadata at once", [("metadata.py", "        for extractor_name, instance_set in self.instance_sets.items():\n            copied_metadata.instance_sets[extractor_name] = copy.deepcopy(instance_set)\n", "        copied_metadata.instance_sets = copy.deepcopy(self.instance_sets)\n")]),
    ("saved states of a tree collected by a generator", [("mtreeproxy.py", "        if mappable_object.mapped:\n            for sub_object in mappable_object.modifiable_sub_objects:\n                saved_states.extend(\n                    MTreeProxy._get_saved_states(sub_object))\n", "        sub_objects = mappable_object.modifiable_sub_objects if mappable_object.mapped else []\n        for sub_object in sub_objects:\n            saved_states += MTreeProxy._get_saved_states(sub_object)\n")]),
    ('empty file tree is added to the tree cache', [('mapper/gitmapper/metadatarootrecordmapper.py', '            if not file_tree_reference.is_none_reference():\n                add_tree_reference', '            if True:\n                add_tree_reference')]),
    ('empty trees are saved', [('mapper/gitmapper/mtreenodemapper.py', '        if not dir_entries:\n            return Reference.get_none_reference("MTreeNode")\n', '')]),
    ('empty objects are loaded', [('mappableobject.py', '            if self.reference.is_none_reference():', '            if self.reference.location is None:')]),
    ('write_out split by load state', [('mappableobject.py', '    def write_out(self,\n                  destination_realm: Optional[str] = None,\n                  backend_type: str = "git",\n                  force_write: bool = False) -> Reference:\n\n        from dataladmetadatamodel.mapper import get_mapper\n\n        # If no destination is given, use the realm of the object.\n        destination_realm = destination_realm or self.realm\n\n        # If the object is not mapped and not modified,\n        # we do not have to do anything.\n        if not self.mapped:\n\n            assert isinstance(self.realm, str), \\\n                f"write_out: object {self} has no valid " \\\n                f"realm: {self.realm}"\n            assert isinstance(self.reference, Reference), \\\n                f"write_out: object {self} has no valid " \\\n                f"reference: {self.reference}"\n\n            if not self.is_saved_on(destination_realm):\n                raise RuntimeError(\n                    f"write_out({self}): modified object got lost "\n                    f"on {destination_realm}")\n\n            logger.debug(\n                f"write_out({self}): not needed, object already"\n                f" saved on {destination_realm}")\n            return self.reference\n\n        assert destination_realm is not None, \\\n            f"write_out({self}): no destination available for {self}"\n\n        if Reference.is_remote(destination_realm):\n            raise RuntimeError(\n                f"write_out({self}): trying to write to a remote realm: "\n                f"{destination_realm}")\n\n        if self.is_saved_on(destination_realm):\n            if not force_write:\n                self.realm = destination_realm\n                logger.debug(\n                    f"write_out({self}): skipping map_out because {self} "\n                    f"is already stored on {destination_realm}")\n                return self.reference\n\n            logger.debug(\n                f"write_out({self}): forcing map_out, although {self} "\n                f"is already stored on {destination_realm}")\n\n        logger.debug(\n            f"write_out({self}): calling map_out to save {self} "\n            f"to {destination_realm}")\n\n        reference = get_mapper(\n            type(self).__name__,\n            backend_type).map_out(\n                self,\n                destination_realm,\n                force_write)\n\n        assert isinstance(reference, Reference), \\\n            f"write_out({self}): object {self} has no valid " \\\n            f"reference: {reference}"\n\n        # Update the state of the object only if it was saved.\n        self.realm = destination_realm\n        self.reference = reference\n        self.set_saved_on(destination_realm)\n        self.stored_sub_locations = self._get_sub_locations()\n\n        return self.reference\n', '    def write_out(self,\n                  destination_realm: Optional[str] = None,\n                  backend_type: str = "git",\n                  force_write: bool = False) -> Reference:\n\n        target = self.realm if not destination_realm else destination_realm\n        if self.mapped:\n            return self._write_mapped(target, backend_type, force_write)\n        return self._write_unmapped(target)\n\n    def _write_unmapped(self, target):\n        assert isinstance(self.realm, str)\n        assert isinstance(self.reference, Reference)\n        if self.is_saved_on(target):\n            return self.reference\n        raise RuntimeError(f"write_out({self}): modified object got lost on {target}")\n\n    def _write_mapped(self, target, backend_type, force_write):\n        from dataladmetadatamodel.mapper import get_mapper\n\n        assert target is not None\n        if Reference.is_remote(target):\n            raise RuntimeError(f"write_out({self}): trying to write to a remote realm: {target}")\n\n        if self.is_saved_on(target) and not force_write:\n            self.realm = target\n            return self.reference\n\n        mapper = get_mapper(type(self).__name__, backend_type)\n        self._stored(target, mapper.map_out(self, target, force_write))\n        return self.reference\n\n    def _stored(self, target, reference):\n        assert isinstance(reference, Reference)\n        self.realm, self.reference = target, reference\n        self.set_saved_on(target)\n        self.stored_sub_locations = self._get_sub_locations()\n')]),
    ('root records created by helpers with closures', [('common.py', 'def get_metadata_root_record_from_top_nodes(\n        tree_version_list: TreeVersionList,\n        uuid_set: UUIDSet,\n        dataset_id: UUID,\n        primary_data_version: str,\n        prefix_path: MetadataPath,\n        dataset_tree_path: MetadataPath,\n        root_dataset_id: Optional[UUID],\n        root_dataset_version: Optional[str],\n        auto_create: Optional[bool] = False\n) -> Optional[MetadataRootRecord]:\n\n    """\n    Return a metadata root record for the dataset id `dataset_id` and the\n    dataset version `primary_data_version`. If `root_dataset_id` and\n    `root_dataset_version` or not `None`, and if `dataset_tree_path` is not\n    None, the metadata record will be in the dataset tree of the root dataset\n    version.\n\n    If auto_create is True, create all necessary tree nodes and the metadata\n    root record with empty dataset metadata and an empty file-tree. It will\n    also add the datasets to the UUID set and the tree version list, if\n    necessary.\n\n    If auto_create is False and the metadata root record does not exist None\n    is returned.\n\n    If you want to preserve any changes or any created metadata objects, you\n    have to save the returned objects (or their containers) and flush the\n    realm.\n    """\n    if uuid_set is None or tree_version_list is None:\n        return None\n\n    is_sub_dataset = dataset_tree_path != MetadataPath("")\n    if is_sub_dataset:\n        assert root_dataset_id is not None\n        assert root_dataset_version is not None\n\n    # If there is a root dataset id, make sure that the root dataset elements\n    # exist or return if `auto_create` is `False`.\n    if is_sub_dataset:\n        if root_dataset_id in uuid_set.uuids():\n            root_uuid_version_list = uuid_set.get_version_list(root_dataset_id)\n        else:\n            if auto_create is False:\n                return None\n            root_uuid_version_list = VersionList()\n            uuid_set.set_version_list(root_dataset_id, root_uuid_version_list)\n\n        if (root_dataset_version, prefix_path) in tree_version_list.versions_and_prefix_paths():\n            _, _, dataset_tree = tree_version_list.get_dataset_tree(\n                primary_data_version=root_dataset_version,\n                prefix_path=prefix_path)\n        else:\n            if auto_create is False:\n                return None\n            dataset_tree = DatasetTree()\n            tree_version_list.set_dataset_tree(\n                primary_data_version=root_dataset_version,\n                time_stamp=str(time.time()),\n                prefix_path=prefix_path,\n                dataset_tree=dataset_tree)\n\n        if MetadataPath("") not in dataset_tree:\n            if auto_create is False:\n                return None\n            root_mrr = MetadataRootRecord(\n                dataset_identifier=root_dataset_id,\n                dataset_version=root_dataset_version,\n                dataset_level_metadata=Metadata(),\n                file_tree=FileTree())\n            dataset_tree.add_dataset(MetadataPath(""), root_mrr)\n        else:\n            root_mrr = dataset_tree.get_metadata_root_record(MetadataPath(""))\n\n        if auto_create:\n            _ensure_versioned_element(\n                version_list=root_uuid_version_list,\n                primary_data_version=root_dataset_version,\n                prefix_path=prefix_path,\n                metadata_root_record=root_mrr)\n\n        prefix_path = MetadataPath("")\n    else:\n\n        # Get the dataset tree\n        if (primary_data_version, prefix_path) in tree_version_list.versions_and_prefix_paths():\n            _, _, dataset_tree = tree_version_list.get_dataset_tree(\n                primary_data_version=primary_data_version,\n                prefix_path=prefix_path)\n        else:\n            if auto_create is False:\n                return None\n            dataset_tree = DatasetTree()\n            tree_version_list.set_dataset_tree(\n                primary_data_version=primary_data_version,\n                time_stamp=str(time.time()),\n                prefix_path=prefix_path,\n                dataset_tree=dataset_tree)\n\n    if dataset_id in uuid_set.uuids():\n        uuid_version_list = uuid_set.get_version_list(dataset_id)\n    else:\n        if auto_create is False:\n            return None\n        uuid_version_list = VersionList()\n        uuid_set.set_version_list(dataset_id, uuid_version_list)\n\n    if dataset_tree_path not in dataset_tree:\n        if auto_create is False:\n            return None\n        metadata_root_record = MetadataRootRecord(\n            dataset_identifier=dataset_id,\n            dataset_version=primary_data_version,\n            dataset_level_metadata=Metadata(),\n            file_tree=FileTree())\n        dataset_tree.add_dataset(dataset_tree_path, metadata_root_record)\n    else:\n        metadata_root_record = dataset_tree.get_metadata_root_record(\n            dataset_tree_path)\n\n    if auto_create:\n        _ensure_versioned_element(\n            version_list=uuid_version_list,\n            primary_data_version=primary_data_version,\n            prefix_path=prefix_path,\n            metadata_root_record=metadata_root_record)\n\n    return metadata_root_record\n', 'def get_metadata_root_record_from_top_nodes(\n        tree_version_list: TreeVersionList,\n        uuid_set: UUIDSet,\n        dataset_id: UUID,\n        primary_data_version: str,\n        prefix_path: MetadataPath,\n        dataset_tree_path: MetadataPath,\n        root_dataset_id: Optional[UUID],\n        root_dataset_version: Optional[str],\n        auto_create: Optional[bool] = False\n) -> Optional[MetadataRootRecord]:\n\n    if uuid_set is None or tree_version_list is None:\n        return None\n\n    def version_list_of(identifier):\n        if identifier in uuid_set.uuids():\n            return uuid_set.get_version_list(identifier)\n        if auto_create is False:\n            return None\n        created = VersionList()\n        uuid_set.set_version_list(identifier, created)\n        return created\n\n    def tree_of(version):\n        if (version, prefix_path) in tree_version_list.versions_and_prefix_paths():\n            return tree_version_list.get_dataset_tree(version, prefix_path)[2]\n        if auto_create is False:\n            return None\n        created = DatasetTree()\n        tree_version_list.set_dataset_tree(version, str(time.time()), prefix_path, created)\n        return created\n\n    def record_of(tree, path, identifier, version):\n        if path in tree:\n            return tree.get_metadata_root_record(path)\n        if auto_create is False:\n            return None\n        created = MetadataRootRecord(identifier, version, Metadata(), FileTree())\n        tree.add_dataset(path, created)\n        return created\n\n    record_prefix = prefix_path\n    if dataset_tree_path != MetadataPath(""):\n        assert root_dataset_id is not None\n        assert root_dataset_version is not None\n        root_list = version_list_of(root_dataset_id)\n        if root_list is None:\n            return None\n        dataset_tree = tree_of(root_dataset_version)\n        if dataset_tree is None:\n            return None\n        root_record = record_of(dataset_tree, MetadataPath(""), root_dataset_id, root_dataset_version)\n        if root_record is None:\n            return None\n        if auto_create:\n            _ensure_versioned_element(root_list, root_dataset_version, prefix_path, root_record)\n        record_prefix = MetadataPath("")\n    else:\n        dataset_tree = tree_of(primary_data_version)\n        if dataset_tree is None:\n            return None\n\n    version_list = version_list_of(dataset_id)\n    if version_list is None:\n        return None\n    record = record_of(dataset_tree, dataset_tree_path, dataset_id, primary_data_version)\n    if record is not None and auto_create:\n        _ensure_versioned_element(version_list, primary_data_version, record_prefix, record)\n    return record\n')]),
    ('equality of instance sets by dictionary loops', [('metadata.py', '    def __eq__(self, other: "MetadataInstanceSet"):\n        # The order of configurations is not relevant\n        return (\n            len(self.parameter_set) == len(other.parameter_set)\n            and all(\n                configuration in other.parameter_set\n                and self.get_instance_for_configuration(configuration)\n                == other.get_instance_for_configuration(configuration)\n                for configuration in self.parameter_set)\n        )\n', '    def __eq__(self, other: "MetadataInstanceSet"):\n        if len(self.parameter_set) != len(other.parameter_set):\n            return False\n        for index, configuration in enumerate(self.parameter_set):\n            try:\n                other_index = other.parameter_set.index(configuration)\n            except ValueError:\n                return False\n            if not self._instances[index] == other._instances[other_index]:\n                return False\n        return True\n'), ('metadata.py', '    def add_metadata_instance(self, metadata_instance: MetadataInstance):\n        if metadata_instance.configuration not in self.parameter_set:\n            self.parameter_set.append(metadata_instance.configuration)\n        instance_key = self.parameter_set.index(metadata_instance.configuration)\n        self._instances[instance_key] = metadata_instance\n', '    def add_metadata_instance(self, metadata_instance: MetadataInstance):\n        configuration = metadata_instance.configuration\n        for key, known in enumerate(self.parameter_set):\n            if known == configuration:\n                break\n        else:\n            key = len(self.parameter_set)\n            self.parameter_set.append(configuration)\n        self._instances[key] = metadata_instance\n')]),
    ('blob cache with zip', [('mapper/gitmapper/gitblobcache.py', '    def flush(self):\n        """\n        Write all cached objects to a git repository,\n        associate the objects with their hash in\n        self.cached_objects.\n\n        Writing is done by creating files in a\n        temporary directory and calling git hash-object\n        with the list of files.\n\n        :return: None\n        """\n        def check_hash(hash: str, expected_hash: str):\n            assert hash == expected_hash\n\n        if not self.cached_objects:\n            return\n\n        file_list = []\n        for index, (blob, expected_hash) in enumerate(self.cached_objects):\n            temp_file_path = self.temp_dir_path / str(index)\n            with temp_file_path.open("tw") as f:\n                f.write(blob)\n            file_list.append(str(temp_file_path))\n\n        hash_values = git_save_file_list(self.realm, file_list)\n        assert len(hash_values) == len(file_list), \\\n            f"hash value list length ({len(hash_values)}) and file list length " \\\n            f"({len(file_list)}) differ.\\n{hash_values}\\n{file_list}"\n\n        hash_dict = {\n            blob: hash_values[index]\n            for index, (blob, expected_hash) in enumerate(self.cached_objects)\n            if check_hash(hash_values[index], expected_hash)\n        }\n        self.flushed_objects.update(hash_dict)\n        self.cached_objects = []\n', '    def flush(self):\n        pending = self.cached_objects\n        if len(pending) == 0:\n            return\n\n        names = [self._store(number, blob) for number, (blob, _) in enumerate(pending)]\n        hashes = git_save_file_list(self.realm, names)\n        assert len(hashes) == len(names)\n        for (blob, expected), found in zip(pending, hashes):\n            assert found == expected\n        self.cached_objects = list()\n\n    def _store(self, number, blob):\n        path = self.temp_dir_path / str(number)\n        with open(path, "w") as f:\n            f.write(blob)\n        return str(path)\n')]),
    ('process execution merged', [('mapper/gitmapper/gitbackend/subprocess.py', 'def checked_run(arguments: Union[str, List[str]],\n                stdin_content: Optional[Union[str, bytes]] = None\n                ) -> Any:\n\n    result = execute(arguments, stdin_content)\n    if result.returncode != 0:\n        error = RuntimeError(\n            f"Command failed (exit code: {result.returncode}) "\n            f"{\' \'.join(arguments)}:\\n"\n            f"STDOUT:\\n"\n            f"{result.stdout.decode()}"\n            f"STDERR:\\n"\n            f"{result.stderr.decode()}")\n        error.stdout = result.stdout.decode()\n        error.stderr = result.stderr.decode()\n        raise error\n    return result\n', 'def checked_run(arguments: Union[str, List[str]],\n                stdin_content: Optional[Union[str, bytes]] = None\n                ) -> Any:\n\n    result = execute(arguments, stdin_content)\n    if result.returncode == 0:\n        return result\n    output, messages = result.stdout.decode(), result.stderr.decode()\n    error = RuntimeError(f"Command failed ({result.returncode}): {output}{messages}")\n    error.stdout, error.stderr = output, messages\n    raise error\n'), ('mapper/gitmapper/gitbackend/subprocess.py', 'def execute(arguments: Union[str, List[str]],\n            stdin_content: Optional[Union[str, bytes]] = None) -> Any:\n\n    logger.debug(f"gitbackend: execute({arguments}, {stdin_content})")\n    return subprocess.run(\n        shlex.split(arguments) if isinstance(arguments, str) else arguments,\n        input=(\n            stdin_content.encode()\n            if isinstance(stdin_content, str)\n            else stdin_content),\n        stdout=subprocess.PIPE,\n        stderr=subprocess.PIPE)\n', 'def execute(arguments: Union[str, List[str]],\n            stdin_content: Optional[Union[str, bytes]] = None) -> Any:\n\n    if isinstance(arguments, str):\n        arguments = shlex.split(arguments)\n    if isinstance(stdin_content, str):\n        stdin_content = stdin_content.encode("utf-8")\n    return subprocess.run(arguments, input=stdin_content, capture_output=True)\n')]),
    ('version list writer with generator', [('mapper/gitmapper/versionlistmapper.py', '    def map_out_impl(self,\n                     version_list: "VersionList",\n                     realm: str,\n                     force_write: bool\n                     ) -> Reference:\n\n        from dataladmetadatamodel.versionlist import VersionList\n\n        assert isinstance(version_list, VersionList)\n        json_object = [\n            {\n                "primary_data_version": primary_data_version,\n                "time_stamp": version_record.time_stamp,\n                "path": version_record.prefix_path.as_posix(),\n                "dataset_tree": self._write_element(\n                    version_record.element,\n                    realm).to_json_obj()\n            }\n            for primary_data_version, prefix_set in version_list.version_set.items()\n            for version_record in prefix_set.values()\n        ]\n\n        location = git_save_json(realm, json_object)\n        return Reference("VersionList", location)\n', '    def map_out_impl(self,\n                     version_list: "VersionList",\n                     realm: str,\n                     force_write: bool\n                     ) -> Reference:\n\n        from dataladmetadatamodel.versionlist import VersionList\n\n        assert isinstance(version_list, VersionList)\n        return Reference(\n            "VersionList",\n            git_save_json(realm, list(self._associations(version_list, realm))))\n\n    def _associations(self, version_list, realm):\n        for version in version_list.version_set:\n            for prefix_path, record in version_list.version_set[version].items():\n                element_reference = self._write_element(record.element, realm)\n                yield dict(\n                    primary_data_version=version,\n                    time_stamp=record.time_stamp,\n                    path=str(record.prefix_path),\n                    dataset_tree=element_reference.to_json_obj())\n'), ('mapper/gitmapper/versionlistmapper.py', '    def _get_version_records(self,\n                             realm: str,\n                             reference: Reference) -> dict:\n        from dataladmetadatamodel.datasettree import DatasetTree\n        from dataladmetadatamodel.metadatapath import MetadataPath\n        from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord\n        from dataladmetadatamodel.versionlist import VersionRecord\n\n        assert isinstance(reference, Reference)\n\n        json_object = git_load_json(realm, reference.location)\n\n        version_records = {}\n        for pdm_assoc in json_object:\n\n            reference = Reference.from_json_obj(pdm_assoc["dataset_tree"])\n            if reference.class_name in ("DatasetTree", "MTreeNode"):\n                mrr_or_tree = DatasetTree(realm=realm, reference=reference)\n            elif reference.class_name == "MetadataRootRecord":\n                mrr_or_tree = MetadataRootRecord(None, None, None, None, realm, reference)\n            else:\n                raise ValueError(\n                    f"unexpected tree class in primary data-metadata "\n                    f"assoc: ({reference.class_name})")\n\n            primary_data_version = pdm_assoc["primary_data_version"]\n            prefix_path = MetadataPath(pdm_assoc["path"])\n            if primary_data_version not in version_records:\n                version_records[primary_data_version] = dict()\n            version_records[primary_data_version][prefix_path] = \\\n                VersionRecord(\n                    pdm_assoc["time_stamp"],\n                    prefix_path,\n                    mrr_or_tree)\n\n        return version_records\n', '    def _get_version_records(self,\n                             realm: str,\n                             reference: Reference) -> dict:\n        from dataladmetadatamodel.metadatapath import MetadataPath\n        from dataladmetadatamodel.versionlist import VersionRecord\n\n        assert isinstance(reference, Reference)\n        result = {}\n        for entry in git_load_json(realm, reference.location):\n            element = self._element(realm, Reference.from_json_obj(entry["dataset_tree"]))\n            path = MetadataPath(entry["path"])\n            records = result.setdefault(entry["primary_data_version"], {})\n            records[path] = VersionRecord(entry["time_stamp"], path, element)\n        return result\n\n    @staticmethod\n    def _element(realm, reference):\n        from dataladmetadatamodel.datasettree import DatasetTree\n        from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord\n\n        if reference.class_name == "MetadataRootRecord":\n            return MetadataRootRecord(None, None, None, None, realm=realm, reference=reference)\n        if reference.class_name in ("DatasetTree", "MTreeNode"):\n            return DatasetTree(None, realm, reference)\n        raise ValueError(f"unexpected class ({reference.class_name})")\n')]),
    ('UUID set mapper with dictionaries', [('mapper/gitmapper/uuidsetmapper.py', '    def map_in_impl(self,\n                    uuid_set: "UUIDSet",\n                    realm: str,\n                    reference: Reference) -> None:\n\n        from dataladmetadatamodel.uuidset import UUIDSet\n        from dataladmetadatamodel.versionlist import VersionList\n\n        assert isinstance(uuid_set, UUIDSet)\n        assert isinstance(realm, str)\n        assert isinstance(reference, Reference)\n\n        uuid_set.uuid_set = dict()\n        for line in git_ls_tree(realm, reference.location):\n            line_elements = split_git_lstree_line(line)\n            version_list = VersionList(\n                realm=realm,\n                reference=Reference("VersionList", line_elements[2]))\n\n            uuid_set.uuid_set[UUID(line_elements[3])] = version_list\n', '    def map_in_impl(self,\n                    uuid_set: "UUIDSet",\n                    realm: str,\n                    reference: Reference) -> None:\n\n        from dataladmetadatamodel.uuidset import UUIDSet\n        from dataladmetadatamodel.versionlist import VersionList\n\n        assert isinstance(uuid_set, UUIDSet)\n        rows = [split_git_lstree_line(line) for line in git_ls_tree(realm, reference.location)]\n        uuid_set.uuid_set = {\n            UUID(name): VersionList(None, realm, Reference("VersionList", object_id))\n            for _, _, object_id, name in rows\n        }\n'), ('mapper/gitmapper/uuidsetmapper.py', '    def map_out_impl(self,\n                     uuid_set: "UUIDSet",\n                     realm: str,\n                     force_write: bool) -> Reference:\n\n        from dataladmetadatamodel.uuidset import UUIDSet\n        assert isinstance(uuid_set, UUIDSet)\n\n        tree_entries = [\n            (\n                "100644",\n                "blob",\n                version_list.write_out(realm).location,\n                str(uuid)\n            )\n            for uuid, version_list in uuid_set.uuid_set.items()\n        ]\n        location = git_save_tree(realm, set(tree_entries))\n        git_update_ref(realm, GitReference.UUID_SET.value, location)\n        return Reference("UUIDSet", location)\n', '    def map_out_impl(self,\n                     uuid_set: "UUIDSet",\n                     realm: str,\n                     force_write: bool) -> Reference:\n\n        from dataladmetadatamodel.uuidset import UUIDSet\n        assert isinstance(uuid_set, UUIDSet)\n\n        references = {\n            identifier: versions.write_out(realm)\n            for identifier, versions in uuid_set.uuid_set.items()\n        }\n        rows = [\n            ("100644", "blob", written.location, f"{identifier}")\n            for identifier, written in references.items()]\n        tree = git_save_tree(realm, rows)\n        git_update_ref(realm, GitReference.UUID_SET.value, tree)\n        return Reference("UUIDSet", tree)\n')]),
    ('write cache as context manager', [('mtreeproxy.py', '    def write_out(self,\n                  destination: Optional[str] = None,\n                  backend_type: str = "git",\n                  force_write: bool = False) -> Reference:\n\n        # Since a file tree might contain a large number\n        # of metadata entries and since each entry requires\n        # two blobs to be written, we use a write-cache.\n\n        # TODO: ugly:\n        from .filetree import FileTree\n\n        cache_destination = destination or self.mtree.realm\n        if isinstance(self, FileTree):\n            MetadataGitMapper.cache_realm(cache_destination)\n            saved_states = self._get_saved_states(self.mtree)\n\n        try:\n            reference = self.mtree.write_out(destination,\n                                             backend_type,\n                                             force_write)\n        finally:\n            # Flush the cache, even if the tree could not be written\n            # completely. Objects that were written up to this point\n            # are marked as saved, i.e. they have to be persisted.\n            if isinstance(self, FileTree):\n                self._flush_cache(cache_destination, saved_states)\n\n        if not reference.is_none_reference():\n            add_tree_reference(reference.location)\n        return reference\n', '    def write_out(self,\n                  destination: Optional[str] = None,\n                  backend_type: str = "git",\n                  force_write: bool = False) -> Reference:\n\n        from .filetree import FileTree\n\n        realm = destination if destination else self.mtree.realm\n        if not isinstance(self, FileTree):\n            reference = self.mtree.write_out(destination, backend_type, force_write)\n        else:\n            with self._cached(realm):\n                reference = self.mtree.write_out(destination, backend_type, force_write)\n\n        if reference.is_none_reference():\n            return reference\n        add_tree_reference(reference.location)\n        return reference\n\n    @contextmanager\n    def _cached(self, realm):\n        MetadataGitMapper.cache_realm(realm)\n        states = self._get_saved_states(self.mtree)\n        try:\n            yield\n        finally:\n            self._flush_cache(realm, states)\n'), ('mtreeproxy.py', 'from typing import (\n    cast,\n    Any,', 'from contextlib import contextmanager\nfrom typing import (\n    cast,\n    Any,')]),
    ('traversal by a helper', [('mtreenode.py', '    def get_paths_recursive(self,\n                            show_intermediate: Optional[bool] = False\n                            ) -> Iterable[Tuple[MetadataPath, "MappableObject"]]:\n\n        if show_intermediate:\n            yield MetadataPath(""), self\n\n        with ensure_mapped(self):\n            for child_name, child_node in self.child_nodes.items():\n                if not isinstance(child_node, MTreeNode):\n                    yield MetadataPath(child_name), child_node\n                else:\n                    for sub_path, tree_node in child_node.get_paths_recursive(\n                            show_intermediate):\n                        yield MetadataPath(child_name) / sub_path, tree_node\n', '    def get_paths_recursive(self,\n                            show_intermediate: Optional[bool] = False\n                            ) -> Iterable[Tuple[MetadataPath, "MappableObject"]]:\n        for parts, node in self._walk(show_intermediate):\n            yield MetadataPath("/".join(parts)), node\n\n    def _walk(self, show_intermediate):\n        if show_intermediate:\n            yield [], self\n        with ensure_mapped(self):\n            for name in self.child_nodes:\n                child = self.child_nodes[name]\n                if isinstance(child, MTreeNode):\n                    for parts, node in child._walk(show_intermediate):\n                        yield [name] + parts, node\n                else:\n                    yield [name], child\n')]),
    ('object references published by a helper', [('mapper/gitmapper/objectreference.py', 'def flush_object_references(realm: Path):\n    global cached_object_references\n\n    from .gitbackend.subprocess import (\n        git_ref_exists,\n        git_update_ref,\n    )\n    from ..gitmapper.treeupdater import (\n        PathInfo,\n        _get_dir,\n        add_paths,\n    )\n    from ..gitmapper.utils import locked_backend\n\n    legacy_trees_added, legacy_blobs_added = add_legacy_store_entries(realm)\n\n    if cached_object_references:\n        path_infos = [\n            PathInfo(\n                [\n                    object_hash[0:3],\n                    object_hash[3:6],\n                    object_hash[6:9],\n                    object_hash[9:],\n                ],\n                object_hash,\n                entry_type)\n            for entry_type, object_hash in cached_object_references\n        ]\n\n        with locked_backend(realm):\n            try:\n                root_entries = _get_dir(realm, GitReference.OBJECT_REFERENCES.value)\n            except RuntimeError:\n                # Only start with an empty store if there is none. A store\n                # that could not be read should not be replaced.\n                if git_ref_exists(str(realm), GitReference.OBJECT_REFERENCES.value):\n                    raise\n                root_entries = []\n\n            tree_hash = add_paths(realm, path_infos, root_entries)\n            git_update_ref(str(realm), GitReference.OBJECT_REFERENCES.value, tree_hash)\n\n        cached_object_references = set()\n\n    if legacy_trees_added is True:\n        remove_legacy_store_reference(realm, GitReference.LEGACY_TREES)\n    if legacy_blobs_added is True:\n        remove_legacy_store_reference(realm, GitReference.LEGACY_BLOBS)\n', 'def _path_elements(object_hash):\n    return [object_hash[i:i + 3] for i in range(0, 9, 3)] + [object_hash[9:]]\n\n\ndef _root_entries(realm):\n    from .gitbackend.subprocess import git_ref_exists\n    from ..gitmapper.treeupdater import _get_dir\n\n    name = GitReference.OBJECT_REFERENCES.value\n    try:\n        return _get_dir(realm, name)\n    except RuntimeError:\n        if git_ref_exists(str(realm), name):\n            raise\n        return []\n\n\ndef flush_object_references(realm: Path):\n    from .gitbackend.subprocess import git_update_ref\n    from ..gitmapper.treeupdater import PathInfo, add_paths\n    from ..gitmapper.utils import locked_backend\n\n    legacy = dict(zip(\n        (GitReference.LEGACY_TREES, GitReference.LEGACY_BLOBS),\n        add_legacy_store_entries(realm)))\n\n    if len(cached_object_references) > 0:\n        infos = []\n        for kind, object_hash in cached_object_references:\n            infos.append(PathInfo(_path_elements(object_hash), object_hash, kind))\n        with locked_backend(realm):\n            tree = add_paths(realm, infos, _root_entries(realm))\n            git_update_ref(str(realm), GitReference.OBJECT_REFERENCES.value, tree)\n        cached_object_references.clear()\n\n    for store, added in legacy.items():\n        if added:\n            remove_legacy_store_reference(realm, store)\n')]),
    ('tree updater in one pass', [('mapper/gitmapper/treeupdater.py', 'def add_paths(repo: Path,\n              path_infos: List[PathInfo],\n              root_entries: List[DirEntry]) -> str:\n    """\n    Add all prefix_path infos to the tree object defined by "root-entries". Load\n    subtrees if necessary, write subtrees, when they are completely assembled.\n\n    This method is called recursively, with path_infos shortened by one and\n    corresponding root_entries.\n    """\n\n    # Build a quickly accessible entry structure\n    root_entry_table = {\n        root_entry.name: root_entry\n        for root_entry in root_entries}\n\n    # Collect all leaf entries, i.e. prefix_path info has only one element.\n    leaf_infos = [path_info for path_info in path_infos if path_info.is_leaf()]\n\n    # Collect all directory entries, i.e. for each directory name, get all\n    # sub-paths that start with the directory name.\n    directory_infos = {\n        path_info.first(): [\n            matching_path_info.stripped_by(1)\n            for matching_path_info in path_infos\n            if matching_path_info not in leaf_infos\n            and matching_path_info.first() == path_info.first()\n        ]\n        for path_info in path_infos\n        if path_info not in leaf_infos\n    }\n\n    _check_entries_validity(leaf_infos, directory_infos)\n\n    resulting_entries = {**root_entry_table}\n\n    # Process leaf entries\n    for leaf_info in leaf_infos:\n\n        name = leaf_info.first()\n\n        existing_entry = root_entry_table.get(name, None)\n        if existing_entry:\n            if existing_entry.type != leaf_info.type:\n                raise ValueError(\n                    f"cannot convert {existing_entry.type.name} "\n                    f"to {leaf_info.type.name}: {name}")\n            logger.debug(f"modifying existing entry: {name}")\n\n        resulting_entries[name] = DirEntry(\n            type=leaf_info.type,\n            object_hash=leaf_info.object_hash,\n            name=name)\n\n    # Process non-leaf entries\n    for directory_name, sub_path_infos in directory_infos.items():\n        if directory_name in root_entry_table:\n            if root_entry_table[directory_name].type != EntryType.Directory:\n                raise ValueError(\n                    f"cannot convert file to directory: {directory_name}")\n            directory_hash = root_entry_table[directory_name].object_hash\n            sub_dir_entries = _get_dir(repo, directory_hash)\n        else:\n            sub_dir_entries = []\n\n        written_directory_hash = add_paths(\n            repo,\n            sub_path_infos,\n            sub_dir_entries)\n\n        resulting_entries[directory_name] = DirEntry(\n            type=EntryType.Directory,\n            object_hash=written_directory_hash,\n            name=directory_name)\n\n    return _write_dir(repo, resulting_entries.values())\n', 'def add_paths(repo: Path,\n              path_infos: List[PathInfo],\n              root_entries: List[DirEntry]) -> str:\n\n    leafs, directories = [], {}\n    for info in path_infos:\n        if info.is_leaf():\n            leafs.append(info)\n        else:\n            directories.setdefault(info.first(), []).append(info.stripped_by(1))\n    _check_entries_validity(leafs, directories)\n\n    entries = {entry.name: entry for entry in root_entries}\n    known = dict(entries)\n    for info in leafs:\n        present = known.get(info.first())\n        if present is not None and present.type != info.type:\n            raise ValueError(f"cannot convert {present.type.name} to {info.type.name}: {info.first()}")\n        entries[info.first()] = DirEntry(type=info.type, object_hash=info.object_hash, name=info.first())\n\n    for name in directories:\n        present = known.get(name)\n        if present is None:\n            below = []\n        elif present.type == EntryType.Directory:\n            below = _get_dir(repo, present.object_hash)\n        else:\n            raise ValueError(f"cannot convert file to directory: {name}")\n        entries[name] = DirEntry(\n            type=EntryType.Directory,\n            object_hash=add_paths(repo, directories[name], below),\n            name=name)\n    return _write_dir(repo, list(entries.values()))\n')]),
    ('root record mapper with a table', [('mapper/gitmapper/metadatarootrecordmapper.py', '    def map_out_impl(self,\n                     mrr: "MetadataRootRecord",\n                     realm: str,\n                     force_write: bool) -> Reference:\n\n        from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord\n\n        assert isinstance(mrr, MetadataRootRecord)\n\n        if mrr._file_tree is None:\n            file_tree_reference = Reference.get_none_reference("FileTree")\n        else:\n            file_tree_reference = mrr._file_tree.write_out(\n                realm,\n                "git",\n                force_write)\n            if not file_tree_reference.is_none_reference():\n                add_tree_reference(file_tree_reference.location)\n\n        if mrr.dataset_level_metadata is None:\n            dataset_level_metadata_reference = Reference.get_none_reference("Metadata")\n        else:\n            dataset_level_metadata_reference = mrr.dataset_level_metadata.write_out(\n                realm,\n                "git",\n                force_write)\n            add_blob_reference(dataset_level_metadata_reference.location)\n\n        json_object = {\n            Strings.DATASET_IDENTIFIER: (\n                str(mrr.dataset_identifier)\n                if mrr.dataset_identifier is not None\n                else None),\n            Strings.DATASET_VERSION: mrr.dataset_version,\n            Strings.DATASET_LEVEL_METADATA: dataset_level_metadata_reference.to_json_obj(),\n            Strings.FILE_TREE: file_tree_reference.to_json_obj()}\n\n        return Reference(\n            "MetadataRootRecord",\n            git_save_json(realm, json_object))\n', '    def map_out_impl(self,\n                     mrr: "MetadataRootRecord",\n                     realm: str,\n                     force_write: bool) -> Reference:\n\n        from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord\n\n        assert isinstance(mrr, MetadataRootRecord)\n\n        references = {}\n        for key, part, class_name, register in (\n                (Strings.FILE_TREE, mrr._file_tree, "FileTree", add_tree_reference),\n                (Strings.DATASET_LEVEL_METADATA, mrr.dataset_level_metadata, "Metadata", add_blob_reference)):\n            if part is None:\n                references[key] = Reference.get_none_reference(class_name)\n                continue\n            references[key] = part.write_out(realm, "git", force_write)\n            if not references[key].is_none_reference():\n                register(references[key].location)\n\n        identifier = mrr.dataset_identifier\n        location = git_save_json(realm, {\n            Strings.DATASET_IDENTIFIER: None if identifier is None else str(identifier),\n            Strings.DATASET_VERSION: mrr.dataset_version,\n            **{key: reference.to_json_obj() for key, reference in references.items()}})\n        return Reference("MetadataRootRecord", location)\n'), ('mapper/gitmapper/metadatarootrecordmapper.py', '    def map_in_impl(self,\n                    metadata_root_record: "MetadataRootRecord",\n                    realm: str,\n                    reference: Reference) -> None:\n\n        from dataladmetadatamodel.filetree import FileTree\n        from dataladmetadatamodel.metadata import Metadata\n        from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord\n\n        assert isinstance(metadata_root_record, MetadataRootRecord)\n        assert isinstance(realm, str)\n        assert isinstance(reference, Reference)\n\n        json_object = git_load_json(realm, reference.location)\n\n        metadata_reference = Reference.from_json_obj(\n            json_object[Strings.DATASET_LEVEL_METADATA])\n        if metadata_reference.is_none_reference():\n            metadata = None\n        else:\n            metadata = Metadata(realm=realm, reference=metadata_reference)\n\n        file_tree_reference = Reference.from_json_obj(\n            json_object[Strings.FILE_TREE])\n        if file_tree_reference.is_none_reference():\n            file_tree = None\n        else:\n            file_tree = FileTree(realm=realm, reference=file_tree_reference)\n\n        dataset_identifier = json_object[Strings.DATASET_IDENTIFIER]\n\n        MetadataRootRecord.__init__(\n            metadata_root_record,\n            UUID(dataset_identifier) if dataset_identifier is not None else None,\n            json_object[Strings.DATASET_VERSION],\n            metadata,\n            file_tree,\n            realm=realm,\n            reference=reference)\n', '    def map_in_impl(self,\n                    metadata_root_record: "MetadataRootRecord",\n                    realm: str,\n                    reference: Reference) -> None:\n\n        from dataladmetadatamodel.filetree import FileTree\n        from dataladmetadatamodel.metadata import Metadata\n        from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord\n\n        assert isinstance(metadata_root_record, MetadataRootRecord)\n\n        data = git_load_json(realm, reference.location)\n\n        def part(key, part_class):\n            part_reference = Reference.from_json_obj(data[key])\n            return None if part_reference.is_none_reference() else part_class(realm=realm, reference=part_reference)\n\n        identifier = data[Strings.DATASET_IDENTIFIER]\n        MetadataRootRecord.__init__(\n            metadata_root_record,\n            dataset_identifier=None if identifier is None else UUID(identifier),\n            dataset_version=data[Strings.DATASET_VERSION],\n            dataset_level_metadata=part(Strings.DATASET_LEVEL_METADATA, Metadata),\n            file_tree=part(Strings.FILE_TREE, FileTree),\n            realm=realm,\n            reference=reference)\n')]),
    ('remote cache as early return', [('mapper/gitmapper/localcache.py', 'def cache_object(remote_repo: str, object_id: str):\n\n    ensure_cache_exists(remote_repo)\n    cache_repo = str(get_repo_cache_path(remote_repo))\n\n    if object_id.startswith("refs"):\n        git_fetch_reference(\n            cache_repo,\n            remote_repo,\n            object_id,\n            object_id)\n    elif not git_object_exists_locally(cache_repo, object_id):\n        git_fetch_object(\n            cache_repo,\n            remote_repo,\n            object_id)\n', 'def cache_object(remote_repo: str, object_id: str):\n    ensure_cache_exists(remote_repo)\n    cache_repo = str(get_repo_cache_path(remote_repo))\n    if object_id.startswith("refs"):\n        return git_fetch_reference(cache_repo, remote_repo, object_id, local_reference=object_id)\n    if git_object_exists_locally(cache_repo, object_id):\n        return None\n    return git_fetch_object(cache_repo, remote_repo, object_id)\n')]),
    ('metadata mapper writes through a function', [('mapper/gitmapper/metadatamapper.py', '    def map_out_impl(self,\n                     metadata: "Metadata",\n                     realm: str,\n                     force_write: bool) -> Reference:\n\n        from dataladmetadatamodel.metadata import Metadata\n        assert isinstance(metadata, Metadata)\n\n        cache = self.get_cache(realm)\n        if cache is None:\n            return self.map_out_impl_immediate(metadata, realm, force_write)\n        else:\n            return self.map_out_impl_cached(cache, metadata, realm)\n', '    def map_out_impl(self,\n                     metadata: "Metadata",\n                     realm: str,\n                     force_write: bool) -> Reference:\n\n        cache = self.get_cache(realm)\n        save = git_save_str if cache is None else cache.cache_blob\n        content = save(realm, metadata.to_json())\n        add_blob_reference(content)\n        return Reference("Metadata", save(realm, Reference("Metadata", content).to_json_str()))\n')]),
    ('version records in a comprehension', [('versionlist.py', '    def deepcopy_impl(self,\n                      new_mapper_family: Optional[str] = None,\n                      new_destination: Optional[str] = None,\n                      **kwargs\n                      ) -> "VersionList":\n\n        path_prefix = kwargs.get("path_prefix", MetadataPath(""))\n\n        copied_version_list = VersionList()\n        for primary_data_version, prefix_set in self.version_set.items():\n            for version_record in prefix_set.values():\n                copied_version_list.set_versioned_element(\n                    primary_data_version,\n                    version_record.time_stamp,\n                    path_prefix / version_record.prefix_path,\n                    version_record.element.deepcopy(\n                        new_mapper_family,\n                        new_destination))\n\n        copied_version_list.write_out(new_destination)\n        copied_version_list.purge()\n        return copied_version_list\n', '    def deepcopy_impl(self,\n                      new_mapper_family: Optional[str] = None,\n                      new_destination: Optional[str] = None,\n                      **kwargs\n                      ) -> "VersionList":\n        return self._copied(VersionList(), new_mapper_family, new_destination, kwargs)\n\n    def _copied(self, result, family, destination, options):\n        prefix = options.get("path_prefix", MetadataPath(""))\n        for version, record in self._iterate_version_records():\n            element = record.element.deepcopy(family, destination)\n            result.set_versioned_element(version, record.time_stamp, prefix / record.prefix_path, element)\n        result.write_out(destination)\n        result.purge()\n        return result\n'), ('versionlist.py', '    def deepcopy_impl(self,\n                      new_mapper_family: Optional[str] = None,\n                      new_destination: Optional[str] = None,\n                      **kwargs\n                      ) -> "TreeVersionList":\n\n        path_prefix = kwargs.get("path_prefix", MetadataPath(""))\n\n        copied_version_list = TreeVersionList()\n        for primary_data_version, prefix_set in self.version_set.items():\n            for version_record in prefix_set.values():\n                copied_version_list.set_versioned_element(\n                    primary_data_version,\n                    version_record.time_stamp,\n                    path_prefix / version_record.prefix_path,\n                    cast(MetadataRootRecord,\n                         version_record.element.deepcopy(\n                            new_mapper_family,\n                            new_destination)))\n\n        copied_version_list.write_out(new_destination)\n        copied_version_list.purge()\n        return copied_version_list\n', '    def deepcopy_impl(self,\n                      new_mapper_family: Optional[str] = None,\n                      new_destination: Optional[str] = None,\n                      **kwargs\n                      ) -> "TreeVersionList":\n        return self._copied(TreeVersionList(), new_mapper_family, new_destination, kwargs)\n')]),
    ("text mode where git answers with ids", [("mapper/gitmapper/gitbackend/subprocess.py", "    return checked_execute(cmd_line, stdin_content=content)[0][0]\n\n\ndef git_save_file", "    result = subprocess.run(cmd_line, input=content, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)\n    if result.returncode != 0:\n        raise RuntimeError(f\"Command failed: {result.stderr}\")\n    return result.stdout.strip()\n\n\ndef git_save_file")]),
    ("text mode for all git commands but loading", [("mapper/gitmapper/gitbackend/subprocess.py", "    result = checked_run(arguments, stdin_content)\n    return (\n        result.stdout.decode().splitlines(),\n        result.stderr.decode().splitlines())", "    result = subprocess.run(\n        shlex.split(arguments) if isinstance(arguments, str) else arguments,\n        input=stdin_content,\n        stdout=subprocess.PIPE,\n        stderr=subprocess.PIPE,\n        text=True)\n    if result.returncode != 0:\n        error = RuntimeError(f\"Command failed: {arguments}: {result.stderr}\")\n        error.stdout = result.stdout\n        error.stderr = result.stderr\n        raise error\n    return result.stdout.splitlines(), result.stderr.splitlines()")]),
    ("immediate sources write a text", [("metadatasource.py", "        json.dump(self.content, file_descriptor)", "        text = json.dumps(self.content)\n        file_descriptor.write(text)")]),
    ("immediate sources print", [("metadatasource.py", "        json.dump(self.content, file_descriptor)", "        print(json.dumps(self.content), file=file_descriptor, end=\"\")")]),
    ('existing caches are directories', [('mapper/gitmapper/localcache.py', '    if not cache_path.exists():', '    if not cache_path.is_dir():')]),
    ('caches are looked up with os.path, quiet init', [('mapper/gitmapper/localcache.py', 'import hashlib\n', 'import hashlib\nimport os\n'), ('mapper/gitmapper/localcache.py', '    if not cache_path.exists():', '    if not os.path.isdir(str(cache_path)):'), ('mapper/gitmapper/gitbackend/subprocess.py', '["git", "init", repo_dir]', '["git", "-P", "init", "--quiet", repo_dir]')]),
    ('parents of caches are created', [('mapper/gitmapper/localcache.py', '        git_init(str(cache_path))', '        cache_path.parent.mkdir(parents=True, exist_ok=True)\n        git_init(str(cache_path))')]),
    ('forced refspec of fetch', [('mapper/gitmapper/gitbackend/subprocess.py', '            "-f",\n', ''), ('mapper/gitmapper/gitbackend/subprocess.py', '            remote_reference + (\n                f":{local_reference}"\n                if local_reference is not None\n                else ""\n            )', '            f"+{remote_reference}:{local_reference}" if local_reference is not None else remote_reference')]),
    ('order of the arguments of fetch', [('mapper/gitmapper/gitbackend/subprocess.py', '            remote_repo,\n            "-f",\n            "--no-tags",\n            "--no-recurse-submodules",\n', '            "--force",\n            "--no-tags",\n            "--no-recurse-submodules",\n            "--quiet",\n            remote_repo,\n')]),
    ('ls-remote prints the reference', [('mapper/gitmapper/gitbackend/subprocess.py', '        cmd_line = ["git", "ls-remote", "--exit-code", repo_dir, ref_name]\n    else:', '        result = execute(["git", "ls-remote", repo_dir, ref_name])\n        return result.returncode == 0 and result.stdout.strip() != b""\n    else:')]),
    ('all references of the remote are listed', [('mapper/gitmapper/gitbackend/subprocess.py', '        cmd_line = ["git", "ls-remote", "--exit-code", repo_dir, ref_name]\n    else:', '        result = execute(["git", "ls-remote", repo_dir])\n        return result.returncode == 0 and any(\n            line.split()[1] == ref_name\n            for line in result.stdout.decode().splitlines())\n    else:')]),
    ('cached objects are looked up by type', [('mapper/gitmapper/gitbackend/subprocess.py', '["-e", object_reference]', '["-t", object_reference]')]),
    ('cached objects are looked up with rev-parse', [('mapper/gitmapper/gitbackend/subprocess.py', '    cmd_line = git_command_line(repo_dir, "cat-file", ["-e", object_reference])', '    cmd_line = git_command_line(repo_dir, "rev-parse", ["--verify", "--quiet", object_reference + "^{object}"])')]),
    ('existing caches are remembered', [('mapper/gitmapper/localcache.py', 'def ensure_cache_exists(remote_repo: str):\n    cache_path = get_repo_cache_path(remote_repo)\n', 'known_caches = set()\n\n\ndef ensure_cache_exists(remote_repo: str):\n    if remote_repo in known_caches:\n        return\n    known_caches.add(remote_repo)\n    cache_path = get_repo_cache_path(remote_repo)\n')]),
    ('a failed fetch is repeated', [('mapper/gitmapper/gitbackend/subprocess.py', '        ]\n    )\n    checked_execute(cmd_line)\n', '        ]\n    )\n    try:\n        checked_execute(cmd_line)\n    except RuntimeError:\n        logger.warning("fetch failed, retry")\n        checked_execute(cmd_line)\n')]),
    ('old names of references are in a table', [('mapper/mapper.py', '        if reference.class_name in ("FileTree", "DatasetTree"):\n            logger', '        old_names = {"FileTree": "MTreeNode", "DatasetTree": "MTreeNode"}\n        new_name = old_names.get(reference.class_name)\n        if new_name is not None:\n            logger'), ('mapper/mapper.py', '            reference.class_name = "MTreeNode"\n', '            reference.class_name = new_name\n')]),
    ('old references are converted by a helper', [('mapper/mapper.py', '        if reference.class_name in ("FileTree", "DatasetTree"):\n            logger.warning(f"Mapper.map_in(): converting reference to class "\n                           f"{reference.class_name} to a reference to class "\n                           f"MTreeNode")\n            reference.class_name = "MTreeNode"\n', '        self._convert_old_reference(reference)\n'), ('mapper/mapper.py', '    def map_out(self,\n', '    @staticmethod\n    def _convert_old_reference(reference: Reference):\n        if reference.class_name not in ("FileTree", "DatasetTree"):\n            return\n        logger.warning(\n            "Mapper.map_in(): converting reference to class %s to a "\n            "reference to class MTreeNode",\n            reference.class_name)\n        reference.class_name = "MTreeNode"\n\n    def map_out(self,\n')]),
    ('a new reference replaces an old one', [('mapper/mapper.py', '            reference.class_name = "MTreeNode"\n', '            reference = Reference("MTreeNode", reference.location)\n')]),
    ('kinds of elements are looked up', [('mapper/gitmapper/versionlistmapper.py', '            if reference.class_name in ("DatasetTree", "MTreeNode"):\n                mrr_or_tree = DatasetTree(realm=realm, reference=reference)\n            elif reference.class_name == "MetadataRootRecord":\n                mrr_or_tree = MetadataRootRecord(None, None, None, None, realm, reference)\n            else:\n', '            create = {\n                "DatasetTree": lambda r: DatasetTree(realm=realm, reference=r),\n                "MTreeNode": lambda r: DatasetTree(realm=realm, reference=r),\n                "MetadataRootRecord": lambda r: MetadataRootRecord(None, None, None, None, realm, r),\n            }.get(reference.class_name)\n            if create is not None:\n                mrr_or_tree = create(reference)\n            else:\n')]),
    ('fields of old references are removed first', [('mapper/reference.py', '            logger.info(f"old reference object found: {obj}")\n', '            logger.info(f"old reference object found: {obj}")\n            obj = {\n                key: value\n                for key, value in obj.items()\n                if key not in ("mapper_family", "realm")\n            }\n')]),
    ('reference fields are unpacked', [('mapper/reference.py', '        return cls(\n            obj["class_name"],\n            obj["location"]\n        )\n', '        class_name, location = (obj[name] for name in ("class_name", "location"))\n        return cls(class_name=class_name, location=location)\n')]),
    ('outdated versions are recognised by the reference', [('mappableobject.py', '        if self.stored_sub_locations != sub_locations:\n            self.set_unsaved()\n', '        if self.reference is None or self.reference.location != reference.location:\n            self.set_unsaved()\n')]),
    ('saved destinations are replaced', [('mappableobject.py', '        if self.stored_sub_locations != sub_locations:\n            self.set_unsaved()\n        self.realm', '        self.saved_on = {\n            realm\n            for realm in self.saved_on\n            if self.stored_sub_locations == sub_locations\n        }\n        self.realm')]),
    ('saved states are kept by a context manager', [('mtreeproxy.py', '        except BaseException:\n            # The content', '        except (Exception, KeyboardInterrupt, SystemExit):\n            # The content')]),
    ('explicit codecs', [('mapper/gitmapper/gitbackend/subprocess.py', 'stdin_content.encode()', 'stdin_content.encode(encoding="utf-8")'), ('mapper/gitmapper/gitbackend/subprocess.py', 'checked_run(cmd_line).stdout.decode()', 'str(checked_run(cmd_line).stdout, "utf-8")')]),
    ('cache: write_bytes', [('mapper/gitmapper/gitblobcache.py', '            with temp_file_path.open("wb") as f:\n                f.write(blob.encode() if isinstance(blob, str) else blob)\n', '            temp_file_path.write_bytes(bytes(blob, "utf-8") if isinstance(blob, str) else blob)\n')]),
    ('cache: encoded on add', [('mapper/gitmapper/gitblobcache.py', '                f.write(blob.encode() if isinstance(blob, str) else blob)\n', '                f.write(blob)\n'), ('mapper/gitmapper/gitblobcache.py', '        expected_hash = hash_blob(blob)\n', '        if isinstance(blob, str):\n            blob = blob.encode()\n        expected_hash = hash_blob(blob)\n')]),
    ('cache: bytearray', [('mapper/gitmapper/gitblobcache.py', '                f.write(blob.encode() if isinstance(blob, str) else blob)\n', '                content = bytearray(blob.encode()) if isinstance(blob, str) else bytearray(blob)\n                f.write(content)\n')]),
    ('cache: two modes', [('mapper/gitmapper/gitblobcache.py', '            with temp_file_path.open("wb") as f:\n                f.write(blob.encode() if isinstance(blob, str) else blob)\n', '            if isinstance(blob, bytes):\n                temp_file_path.write_bytes(blob)\n            else:\n                temp_file_path.write_text(blob, encoding="utf-8", newline="")\n')]),
    ('header check: tuple', [('__init__.py', '    if stored_version != version_string:', '    if tuple(stored_version.split(".")) != tuple(version_string.split(".")):')]),
    ('header check: not in', [('__init__.py', '    if stored_version != version_string:', '    if stored_version not in (version_string,):')]),
    ('header check: parts', [('__init__.py', '    if stored_version != version_string:', '    if stored_version.strip() != version_string or stored_version != version_string:')]),
    ('header check: type raise', [('metadata.py', '        assert obj["@"]["type"] == "MetadataInstanceSet"\n', '        if not obj["@"]["type"] == "MetadataInstanceSet":\n            raise ValueError("wrong type: " + obj["@"]["type"])\n')]),
    ('header check: type helper', [('metadata.py', '        assert obj["@"]["type"] == "MetadataInstanceSet"\n', '        assert {"MetadataInstanceSet": True}.get(obj["@"]["type"], False)\n')]),
]
