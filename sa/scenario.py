"""Client programs: small functions that use the public interface, analysed like the functions of the package."""
import ast
import textwrap

from .loader import Module, PACKAGE
from .model import O, T, TRUE, Const

IMPORTS = {
    "lock": f"from {PACKAGE}.mapper.gitmapper.utils import lock_backend, locked_backend, unlock_backend\n",
    "references": f"from {PACKAGE}.mapper.gitmapper.objectreference import "
                  "add_blob_reference, add_tree_reference, flush_object_references\n",
    "cache": f"from {PACKAGE}.mapper.gitmapper.metadatamapper import MetadataGitMapper\n"
             f"from {PACKAGE}.mapper.gitmapper.gitblobcache import GitBlobCache, hash_blob\n",
    "model": "".join(f"from {PACKAGE}.{m} import {c}\n" for m, c in (
        ("metadata", "Metadata, MetadataInstance, MetadataInstanceSet, ExtractorConfiguration"),
        ("metadatapath", "MetadataPath"), ("filetree", "FileTree"), ("datasettree", "DatasetTree"),
        ("mtreenode", "MTreeNode"), ("metadatarootrecord", "MetadataRootRecord"), ("uuidset", "UUIDSet"),
        ("versionlist", "VersionList, TreeVersionList"), ("text", "Text"), ("mapper.reference", "Reference"))),
}


def scenario(text, *imports, path="scenario.py"):
    """Function `scenario` of a client program; probe(..) reports values as events."""
    src = "import probes\n" + "".join(IMPORTS.get(i, i + "\n") for i in imports) + textwrap.dedent(text)
    tree = ast.parse(src, path)
    return Module(PACKAGE + ".scenario", path, tree, False).functions["scenario"]


def probes(st, name=None):
    """Arguments of all probes.<name>(..) calls of a path."""
    return [e.args for e in st.events() if e.kind == "call" and isinstance(e.name, str)
            and e.name.startswith("probes.") and (name is None or e.name == "probes." + name)]
