"""Properties: source of properties.jsonl and MANIFEST.json (written by gen.py)."""
P = "dataladmetadatamodel/"
M = P + "mapper/gitmapper/"
MODEL = [P + x for x in ("metadata.py", "metadatarootrecord.py", "mtreenode.py", "mtreeproxy.py", "filetree.py",
                         "datasettree.py", "uuidset.py", "versionlist.py", "text.py")]
MAPPERS = [M + x for x in ("metadatamapper.py", "metadatarootrecordmapper.py", "mtreenodemapper.py",
                           "uuidsetmapper.py", "versionlistmapper.py", "textmapper.py")]
GIT = M + "gitbackend/subprocess.py"
FLOW = "path-sensitive interprocedural dataflow analysis"

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe=observe))


NOTE = ("Every path of the current source that the analysis enumerates is judged; alarms only on definite violations. "
        "Trusted: the models of external functions (git, json, os, builtins) in sa/library.py; loops over unknown "
        "collections are represented by no and one generic iteration, containers by two or three symbolic entries. "
        "What cannot be decided is counted as undecided in the evidence and not reported. ")

prop("C01", "Saving and loading an object gives back an equal object",
     "For every model object (metadata, root record, file tree, dataset tree, version list, UUID set, text) with any "
     "content, the content that is read back from its stored version equals the content that was saved. No entry, "
     "key, value, time stamp, author, configuration or sub-object is lost, invented, reordered under another key or "
     "converted into another type. Absent optional parts are read back as absent.",
     ["inputs", "histories"], "all contents of all model classes, all combinations of present and absent parts",
     "The tests save and load a handful of objects with fixed sample content, and mostly with mocked git functions.",
     MODEL + MAPPERS, [("map_in_impl and map_out_impl of each mapper", M), ("to_json and init_from_json", P)],
     FLOW + ": composition of writer and reader on symbolic content, term comparison",
     NOTE + "Content equality is equality of terms over symbolic keys and values.")

prop("C02", "Data of another class or format version are not loaded",
     "Loading an object raises if its stored version, or the stored version of anything that is read with it, names another "
     "class or another format version than the one that is expected, or if the reference is one to another class. A load "
     "that fails, for whatever reason, leaves the object unloaded, with its reference and its saved state, and can be "
     "repeated; the repeated load gives the complete content.",
     ["inputs", "fault_sequences"], "all headers in the stored versions of all classes, all failing git commands of a load",
     "The tests load data of the expected classes and never fail within a load.",
     MODEL + MAPPERS + [P + "mappableobject.py", P + "__init__.py"],
     [("read_in", P + "mappableobject.py"), ("check_serialized_version", P + "__init__.py")],
     FLOW + ": abstract execution of client programs against an abstract git object store, with replaced headers and failing commands",
     NOTE + "Class name and version are replaced one at a time, in every header of the stored texts of the enumerated objects.")

prop("C04", "Names of tree elements survive storage unchanged",
     "An element of a metadata tree is stored in git under exactly its name and read back under exactly this name, "
     "whatever characters the name consists of: blanks, tabs, line breaks, quotes, backslashes, control characters, "
     "unicode. No name makes saving or loading fail, and different names never become the same name.",
     ["inputs"], "all names without slash and NUL character",
     "The tests use plain names and one or two special characters; git's quoting of names depends on every character.",
     [M + "mtreenodemapper.py", M + "utils.py", GIT],
     [("escape_double_quotes and escape_decode", M + "mtreenodemapper.py"), ("split_git_lstree_line", M + "utils.py"),
      ("git_save_tree_node and git_read_tree_node", GIT)],
     FLOW + ": constant propagation of names through writer and reader, model of git's quoting",
     NOTE + "Names are enumerated constants, one for every class of characters that git or the code treat "
     "differently. core.quotepath is assumed to have its default value.")

prop("C05", "Metadata paths are always relative",
     "A metadata path is relative and has exactly the parts that its arguments specify, whatever the arguments are: "
     "leading slashes are dropped, nothing else is. The text of the empty path is empty and its length is 0, the "
     "length of all other paths is the number of their parts.",
     ["inputs"], "all lists of arguments: texts, paths, empty, absolute, with special parts",
     "The tests create a handful of paths.",
     [P + "metadatapath.py"], [("MetadataPath", P + "metadatapath.py")],
     FLOW + ": constant propagation through the constructor, comparison with pathlib's parts",
     NOTE + "Arguments are enumerated constants.")

prop("C06", "Every change of an object is noticed as a change",
     "After any public operation that changes what a model object would store, the object (or the object that holds "
     "the changed content) is not regarded as saved anywhere, so that the next save writes it. "
     "This includes changes of objects that were loaded from a stored version.",
     ["inputs", "histories"], "all public methods of all model classes, all arguments, loaded and unloaded objects",
     "The tests check the saved state after a few operations on sample objects; a new or changed operation that "
     "forgets to mark the object is only noticed if someone saves, purges and reloads after exactly that operation.",
     MODEL + [P + "modifiableobject.py", P + "mappableobject.py"],
     [("touch and set_unsaved", P + "modifiableobject.py")],
     FLOW + ": effect analysis of all public methods against the saved state",
     NOTE)

prop("C07", "Unloaded objects behave as if they were loaded",
     "Every public operation on an object that has only been referenced so far first loads its content: it returns "
     "what it would return for the loaded object, and it never replaces or ignores stored content. "
     "Loading reads the stored version exactly once and leaves the object unmodified.",
     ["inputs", "histories"], "all public methods of all model classes on unloaded objects",
     "The tests call a few operations on loaded sample objects; the order of loading and access matters only for "
     "objects that were created from references.",
     MODEL + [P + "mappableobject.py"], [("ensure_mapped and read_in", P + "mappableobject.py")],
     FLOW + ": order of content accesses and load operations on all paths",
     NOTE)

prop("C08", "Objects count as saved only if all they contain is saved",
     "An object is reported as saved on a realm exactly if it was saved there, all sub-objects that are in memory are "
     "saved there, and the stored version refers to the current versions of its sub-objects. "
     "In particular, a change deep inside a tree makes all containers unsaved.",
     ["inputs", "histories"], "all model classes, realms, saved states of the sub-objects",
     "Tests use one realm and few nesting levels.",
     [P + "modifiableobject.py", P + "mappableobject.py"] + MODEL, [("is_saved_on", P + "modifiableobject.py")],
     FLOW + ": decision table of saved state over all sub-object states",
     NOTE)

prop("C09", "Purging never loses modifications",
     "Purging an object that holds unsaved changes, directly or in any loaded sub-object, raises and leaves the "
     "object as it was. Purging a saved object removes its content from memory, including that of its sub-objects, "
     "and keeps the information that is required to load it again.",
     ["inputs", "histories"], "all model classes, all combinations of saved and unsaved sub-objects and realms",
     "Tests purge a few saved objects and one unsaved object.",
     [P + "mappableobject.py"] + MODEL, [("purge and purge_impl", P + "mappableobject.py")],
     FLOW + ": state comparison before and after purge on all paths",
     NOTE)

prop("C10", "A failing save leaves the object as it was",
     "If saving an object fails at any step, the object keeps its content, its realm, its reference, its load state "
     "and the set of destinations on which it is saved. No object is regarded as saved unless its content has "
     "reached the object store, so that saving can be repeated.",
     ["fault_sequences"], "a failure of every single git command or mapper step during a save",
     "The tests inject no failures into saving.",
     [P + "mappableobject.py", P + "mtreeproxy.py"] + MAPPERS,
     [("write_out", P + "mappableobject.py"), ("flush of the write cache", P + "mtreeproxy.py")],
     FLOW + ": exceptional paths from every git command, state comparison",
     NOTE)

prop("C11", "Saving stores the object on the destination, once",
     "After a successful save the object and all its sub-objects are stored on the destination realm, the object "
     "is saved there, its realm is the destination and its reference is the stored version. "
     "An object that is already saved on the destination is not written again unless this is forced.",
     ["inputs", "histories"], "all model classes, destinations equal to or different from the realm, forced or not",
     "Tests save to one realm from one starting state.",
     [P + "mappableobject.py"] + MAPPERS, [("write_out", P + "mappableobject.py"), ("map_out_impl", M)],
     FLOW + ": postconditions of write_out and destinations of nested writes",
     NOTE)


prop("C12", "The write cache loses and alters nothing",
     "While a realm is cached, every content given to the cache is written unchanged to this realm when the cache is "
     "full or flushed, and the id returned at once is the id that git gives to the content. "
     "A cache that cannot be flushed keeps its content, so the flush can be repeated. Caching of a realm ends with the "
     "flush of the realm, successful or not; a realm cannot be cached twice, and content for another realm is refused.",
     ["inputs", "histories", "fault_sequences"], "all sequences of contents, all sizes of the cache, failures of git",
     "The tests fill the cache with short ASCII contents and never beyond its default size; git is mocked.",
     [M + "gitblobcache.py", M + "metadatamapper.py", GIT],
     [("cache_blob and flush", M + "gitblobcache.py"), ("cache_realm and flush_realm", M + "metadatamapper.py")],
     FLOW + ": abstract execution of client programs, model of files and git hash-object",
     NOTE + "Contents and sizes are enumerated constants.")

prop("C13", "Write locks are exclusive, nestable and always released",
     "The lock of a repository is acquired when the first lock is taken and released when the last nested one is "
     "given back, also if the locked code raises. A lock that could not be acquired is not regarded as held; locks of "
     "different repositories are independent. The store of object references is read, extended and published "
     "without giving up the lock in between.",
     ["histories", "fault_sequences"], "all nestings of locks of two repositories, all exits of locked code",
     "The tests lock one or two repositories in a fixed order.",
     [M + "utils.py", M + "objectreference.py"],
     [("lock_backend, unlock_backend and locked_backend", M + "utils.py"),
      ("flush_object_references", M + "objectreference.py")],
     FLOW + ": typestate of the lock files over enumerated sequences of operations",
     NOTE + "Sequences are enumerated up to five (thorough: seven) operations. Mutual exclusion of processes by "
     "fasteners.InterProcessLock is trusted, threads of one process are not covered.")

prop("C14", "The root references point to what was saved last",
     "Saving a new or changed tree version list or UUID set makes the reference that the top-level loader reads for this class "
     "point to exactly the object that the save returned, on the destination, after everything the object refers to "
     "was written. If writing fails, the reference keeps its value. Saving any other object changes no root "
     "reference.",
     ["inputs", "fault_sequences"], "all model classes and contents, a failure of every git command",
     "The tests look at the reference after successful saves, with mocked git functions.",
     [M + "versionlistmapper.py", M + "uuidsetmapper.py", P + "common.py", GIT],
     [("git_update_ref", GIT), ("get_top_level_metadata_objects", P + "common.py")],
     FLOW + ": order and arguments of git commands on all save paths",
     NOTE)

prop("C15", "Everything that is saved stays reachable for git",
     "Every blob or tree whose id is only written in the text of another blob is added to the object references "
     "when it is saved (blobs as files, trees as directories), so that git's garbage collection does not remove it. "
     "The marker of empty objects is never added.",
     ["inputs", "histories"], "all model classes and contents, with and without a write cache",
     "The tests do not run a garbage collection; an object that is not reachable is lost weeks later.",
     [M + "objectreference.py", P + "mtreeproxy.py", P + "filetree.py", P + "datasettree.py"] + MAPPERS,
     [("add_tree_reference and add_blob_reference", M + "objectreference.py")],
     FLOW + ": ids in stored texts against the registered ids on all save paths",
     NOTE)

prop("C16", "Object references are published completely",
     "Flushing the object references of a realm publishes a tree that holds all entries the store had before, all ids "
     "that were registered since the last flush, with their kind, and the entries of legacy stores, which are deleted "
     "after that. If it fails, the store is unchanged and nothing is forgotten, so a repeated flush publishes "
     "everything. A flush without registered ids changes nothing.",
     ["inputs", "histories", "fault_sequences"],
     "all sets of ids, existing stores and legacy stores, a failure of every command that writes",
     "The tests flush a few ids into an empty store without failures.",
     [M + "objectreference.py", M + "treeupdater.py"],
     [("flush_object_references", M + "objectreference.py"), ("add_paths", M + "treeupdater.py")],
     FLOW + ": abstract execution of client programs on enumerated stores, comparison of published trees",
     NOTE + "Ids and stores are enumerated constants, including common prefixes.")

prop("C17", "Remote realms are read-only and never read stale",
     "Writing an unsaved object to a remote realm raises, and no command that writes is run on a remote realm. "
     "Reading a named reference from a remote realm fetches its current value first, even if it was rewritten on the "
     "remote; objects are fetched unless they are present locally. Two remotes never share a local cache. Objects and root elements "
     "that are loaded from a remote realm are complete and are those of that remote at the time of the request; "
     "elements that a remote does not have are reported as missing, a failing git command raises.",
     ["inputs", "histories"], "all forms of remote realms, all model classes, all read operations of the backend",
     "The tests have no network and mock the remote commands.",
     [P + "mappableobject.py", GIT, M + "localcache.py", M + "utils.py"],
     [("git_fetch_reference and git_fetch_object", GIT), ("create_localcache", M + "localcache.py")],
     FLOW + ": repositories and arguments of all git commands for constant remote realms",
     NOTE + "Remotes are enumerated constants (one per protocol), or symbols in client programs.")

prop("C18", "No failure of git is ignored",
     "If a git command exits with an error, the operation that needed its result raises. It neither returns a "
     "result nor runs further commands that write.",
     ["fault_sequences"], "a failure of every single git command of every load and save operation",
     "The tests inject no failures into git commands.",
     [GIT] + MAPPERS, [("checked_execute", GIT)],
     FLOW + ": exceptional paths from every git command",
     NOTE + "Commands that test whether something exists may fail.")

prop("C19", "Values of callers are never interpreted by a shell",
     "Realms, paths, names and references that callers supply reach git as single, unchanged arguments of a list. "
     "No command is run by a shell, and no text is split or quoted into a command line, so names with blanks, quotes "
     "or shell syntax are harmless.",
     ["inputs"], "all processes that are started, all callers' values",
     "The tests use plain names.",
     [GIT, M + "localcache.py"],
     [("execute", GIT)],
     FLOW + ": argument lists of all started processes",
     NOTE)

prop("C20", "A deep copy is complete, separate and leaves its original alone",
     "A deep copy holds the same content as its original, down to all sub-objects, is stored completely on the given "
     "destination and shares no object with the original: later changes of one are never seen in the other. The original "
     "keeps its content, its saved state and its load state. A path prefix is put in front of all prefix paths of a "
     "copied version list.",
     ["inputs", "histories", "programs"], "all classes, load and save states of the original, and destinations",
     "The tests copy objects in memory and compare them before anything is changed or loaded again.",
     [P + "mappableobject.py", P + "metadata.py", P + "metadatarootrecord.py", P + "mtreenode.py", P + "versionlist.py",
      P + "uuidset.py", P + "text.py", P + "mtreeproxy.py"],
     [("deepcopy", P + "mappableobject.py"), ("deepcopy_impl", P + "versionlist.py")],
     FLOW + ": abstract execution of copying programs on modelled repositories, comparison of all observations and of "
     "the reachable objects",
     NOTE + "Structures are enumerated, metadata contents and time stamps are symbolic.")

prop("C21", "Looking up a root record changes nothing",
     "Without auto_create, looking up the metadata root record of a dataset or sub-dataset returns the stored record, or "
     "None if the store does not have it. It adds, removes and changes no entry, and everything that was saved is still "
     "regarded as saved. Nothing is written.",
     ["inputs", "histories"], "all stores and all requests for datasets, versions, prefix paths and sub-dataset paths",
     "The tests look up one record in an empty store.",
     [P + "common.py", P + "versionlist.py", P + "uuidset.py", P + "datasettree.py"],
     [("get_metadata_root_record_from_top_nodes", P + "common.py")],
     FLOW + ": abstract execution on enumerated stores and requests, comparison with a map of the store",
     NOTE + "Stores and requests are enumerated, identifiers, versions and time stamps are symbolic.")

prop("C22", "Created root records are registered in both indexes",
     "With auto_create, the record that is returned is the existing one or a new, empty one with the requested dataset "
     "identifier and version. It is registered under the requested version and prefix path, at its path in the dataset "
     "tree and in the version list of its dataset, and so is the record of the root dataset of a sub-dataset: both "
     "indexes hold the same object. All other entries and existing time stamps are kept, and what was extended is not "
     "regarded as saved.",
     ["inputs", "histories"], "all stores and all requests for datasets, versions, prefix paths and sub-dataset paths",
     "The tests create one record in an empty store and only check the types of the results.",
     [P + "common.py", P + "versionlist.py", P + "uuidset.py", P + "datasettree.py"],
     [("get_metadata_root_record_from_top_nodes", P + "common.py"), ("set_versioned_element", P + "versionlist.py")],
     FLOW + ": abstract execution on enumerated stores and requests, comparison with a map of the store",
     NOTE + "Stores and requests are enumerated, identifiers, versions and time stamps are symbolic.")

prop("C23", "Stored top-level elements are found and never replaced",
     "The top-level loader returns the tree version list and the UUID set of a realm exactly if they are stored there, "
     "each one independently of the other. An element that is stored but cannot be read raises; it is never regarded as "
     "missing. With auto_create a stored element is used and extended, and only a missing one is created; without it, "
     "nothing is returned if one of them is missing.",
     ["inputs", "fault_sequences"], "all combinations of stored, missing and unreadable elements, realms given as text or path",
     "The tests load both elements from an empty and from a complete store.",
     [P + "common.py", M + "__init__.py"],
     [("get_top_level_metadata_objects", P + "common.py"), ("get_top_nodes_and_metadata_root_record", P + "common.py")],
     FLOW + ": abstract execution with all combinations of stored elements and failures",
     NOTE + "Elements that cannot be read because git cannot even tell whether they exist count as missing.")

prop("C24", "Adding to a tree never replaces or converts what is there",
     "Adding an element at a path of a metadata tree, file tree or dataset tree changes the tree by exactly that "
     "element and the missing nodes above it; it raises, and changes nothing, if an element is already at that path "
     "or if a leaf is in the way. Removing an element removes exactly what is at its path. The tree of object "
     "references is extended in the same way: entries are only added, and a file never becomes a directory or vice "
     "versa.",
     ["inputs"], "all tree structures and paths",
     "The tests use a few regular trees; the damaging cases are conflicts between paths of different length and type.",
     [P + "mtreenode.py", P + "filetree.py", P + "datasettree.py", M + "treeupdater.py"],
     [("add_child_at", P + "mtreenode.py"), ("add_paths", M + "treeupdater.py")],
     FLOW + ": abstract execution on enumerated tree structures, comparison with a path map",
     NOTE + "Tree structures and paths are enumerated constants, all elements are symbolic.")

prop("C26", "Objects are equal exactly if they hold the same content",
     "Two extractor configurations, metadata instances, instance sets, metadata objects, references, metadata sources or "
     "metadata paths are equal exactly if they hold the same content, in whatever order it was added and whether it is in "
     "memory or has to be loaded. == is symmetric, != is its negation, and equal configurations have equal hash values, "
     "whatever JSON values their parameters have.",
     ["inputs", "histories"], "all values of the classes that define equality",
     "The tests compare few objects, mostly equal ones; a part that is left out of a comparison is not noticed.",
     [P + "metadata.py", P + "metadatasource.py", P + "metadatapath.py", P + "mapper/reference.py"],
     [("MetadataInstanceSet", P + "metadata.py"), ("ParameterDict", P + "metadata.py")],
     FLOW + ": abstract execution of comparisons of enumerated values",
     NOTE + "The values are enumerated: every part of a value is changed at least once. Hash collisions are not regarded.")

prop("C27", "Extractor runs are recorded exactly as given",
     "Adding an extractor run stores the given time stamp, author, configuration and content unchanged under the "
     "extractor name, whatever their values are. A later run with the same configuration replaces the earlier one, "
     "all other runs are kept; only a missing time stamp is replaced by the current time.",
     ["inputs", "histories"], "all values, all numbers of extractors and configurations",
     "The tests add runs with distinct sample values.",
     [P + "metadata.py", P + "filetree.py"], [("add_extractor_run", P + "metadata.py")],
     FLOW + ": abstract execution on symbolic runs, term comparison",
     NOTE)

prop("C28", "Empty objects are saved and read back as empty",
     "Objects without content, and objects with parts that have no content, are saved, copied, flushed and loaded like all "
     "others, and are read back as empty or as absent, never as something else and never with an error. The marker that "
     "stands for them in references is never handed to git and never stored in a git tree.",
     ["inputs", "histories"], "all objects that are or contain an empty object, all programs that save, copy and load them",
     "The tests save few empty objects and use mocked git functions.",
     MODEL + MAPPERS + [P + "mapper/reference.py", P + "mappableobject.py"],
     [("Reference", P + "mapper/reference.py"), ("write_out", P + "mappableobject.py")],
     FLOW + ": abstract execution of client programs against an abstract git object store, observation of content and of all git commands",
     NOTE + "The empty objects are enumerated: every class, with empty and with absent parts.")

prop("C30", "Temporary loading ends with its block and loses nothing",
     "Within a block of ensure_mapped the object is loaded; when the block is left, normally or by an exception, the load "
     "state is what it was before, nested blocks included. An exception of the block is passed on. Modifications that are "
     "made in the block and not saved are never discarded.",
     ["histories", "fault_sequences"], "all classes, load states and ways to leave the block",
     "The tests use blocks that load an object, change nothing and end normally.",
     [P + "mappableobject.py"] + MODEL, [("ensure_mapped", P + "mappableobject.py"), ("purge", P + "mappableobject.py")],
     FLOW + ": abstract execution of client programs, observation of load state, saved state and content",
     NOTE + "Leaving a block with unsaved modifications may raise, as purging them does; only that nothing is lost is checked.")

prop("C31", "What is stored under a key is found under that key, and only there",
     "After an element is set for a path, dataset version and prefix path, dataset identifier or extractor name, a "
     "lookup with this key returns it with its time stamp and prefix path, and all other entries are unchanged. "
     "A lookup with another key never returns it; a lookup changes nothing.",
     ["inputs", "histories"], "all keys and containers",
     "The tests use few keys, mostly one prefix path per version.",
     [P + "versionlist.py", P + "uuidset.py", P + "mtreenode.py", P + "filetree.py", P + "datasettree.py",
      P + "metadatarootrecord.py", P + "metadata.py"],
     [("set_versioned_element", P + "versionlist.py"), ("get_object_at_path", P + "mtreenode.py")],
     FLOW + ": abstract execution of setters and getters on symbolic containers",
     NOTE)

prop("C32", "Traversals visit every entry exactly once",
     "The listings of a tree, dataset tree, version list, UUID set or metadata object contain every entry exactly "
     "once, with its complete path or its version and prefix path. Intermediate nodes are listed exactly if they are "
     "requested.",
     ["inputs"], "all tree structures, any number of prefix paths per version",
     "The tests traverse one or two regular trees.",
     [P + "mtreenode.py", P + "filetree.py", P + "datasettree.py", P + "versionlist.py", P + "uuidset.py",
      P + "metadata.py"],
     [("get_paths_recursive", P + "mtreenode.py"), ("versioned_elements", P + "versionlist.py")],
     FLOW + ": abstract execution of generators on enumerated structures",
     NOTE)

prop("C33", "Metadata sources deliver exactly their content",
     "Writing or copying a git metadata source delivers exactly the content of the object it refers to: a copy is complete in "
     "its new repository under the identifier that is returned, and a failing git command raises. An immediate source writes its "
     "content as JSON text. Metadata sources survive their JSON form, deep copies share no content, and data of another class, version or kind give no source.",
     ["inputs", "fault_sequences"], "all sources, all failing commands",
     "The tests copy one object between two repositories and check two JSON strings.",
     [P + "metadatasource.py"], [("LocalGitMetadataSource", P + "metadatasource.py"),
                                 ("ImmediateMetadataSource", P + "metadatasource.py")],
     FLOW + ": abstract execution of client programs against an abstract git object store, with failing commands and foreign JSON data",
     NOTE)

prop("C34", "Stored references in their old forms are read",
     "References to metadata trees that are stored under the names of the tree classes (FileTree, DatasetTree), or that carry "
     "the mapper family and the realm of earlier releases as additional fields, are read like references in the present form: "
     "the object is complete, read from the realm of the object that holds the reference, and counts as saved, and it can be "
     "copied, changed and saved.",
     ["inputs", "histories"], "all classes that store references, all old forms of references",
     "The tests check that one old reference is parsed and that the mapper accepts one class name.",
     [P + "mapper/mapper.py", P + "mapper/reference.py"] + MAPPERS,
     [("map_in", P + "mapper/mapper.py"), ("from_json_obj", P + "mapper/reference.py")],
     FLOW + ": abstract execution of client programs against an abstract git object store, whose references are rewritten to their old forms",
     NOTE)

NOT_APPLICABLE = []
