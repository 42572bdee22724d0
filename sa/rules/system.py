"""Rules that analyse whole client programs on modelled repositories (C20 and parts of other rules)."""
import os
from collections import Counter

from ..gitstore import GitStore, plain, start_store
from ..model import *
from ..scenario import probes, scenario
from .store import line

EXTRA = (f"from uuid import UUID\nfrom pathlib import Path\n"
         f"from {PKG}.common import get_top_level_metadata_objects, get_top_nodes_and_metadata_root_record\n"
         f"from {PKG}.mapper.gitmapper.objectreference import flush_object_references, add_blob_reference\n")

SEE = '''
def see_metadata(label, where, m):
    m.read_in()
    probes.metadata(label, where)
    for name, runs in m.extractor_runs:
        for i in runs:
            probes.run(label, where, name, i.time_stamp, i.author_name, i.author_email,
                       i.configuration.version, i.configuration.parameter, i.metadata_content)


def see_files(label, where, tree):
    tree.read_in()
    for p, m in tree.get_paths_recursive():
        probes.file(label, where, str(p))
        see_metadata(label, (where, str(p)), m)


def see_record(label, where, r):
    r.read_in()
    probes.record(label, where, r.dataset_identifier, r.dataset_version)
    m = r.get_dataset_level_metadata()
    if m is not None:
        see_metadata(label, (where, 'dataset'), m)
    f = r.get_file_tree()
    if f is not None:
        see_files(label, (where, 'files'), f)


def see_datasets(label, where, tree):
    tree.read_in()
    for p, r in tree.dataset_paths:
        probes.dataset(label, where, str(p))
        see_record(label, (where, str(p)), r)


def see_versions(label, where, versions):
    versions.read_in()
    for v, (t, p, e) in versions.versioned_elements:
        probes.version(label, where, v, str(p), t)
        if isinstance(e, DatasetTree):
            see_datasets(label, (where, v, str(p)), e)
        else:
            see_record(label, (where, v, str(p)), e)


def see_uuids(label, where, uuids):
    uuids.read_in()
    for u in list(uuids.uuids()):
        probes.uuid(label, where, u)
        see_versions(label, (where, str(u)), uuids.get_version_list(u))


def see_text(label, where, text):
    text.read_in()
    probes.text(label, where, text.content)


def new_metadata(stamp, content, name="core", version="1"):
    m = Metadata()
    m.add_extractor_run(stamp, name, "author", "mail", ExtractorConfiguration(version, {"key": ["value"]}),
                        {"data": [content]})
    return m


def new_files(stamp, content):
    f = FileTree()
    f.add_metadata(MetadataPath("a"), new_metadata(stamp, content))
    f.add_metadata(MetadataPath("sub/b c"), new_metadata(stamp, content, "other", "2"))
    f.add_metadata(MetadataPath("sub/deep/d"), new_metadata(stamp, content))
    return f


def new_record(number, version, stamp, content):
    return MetadataRootRecord(UUID(int=number), version, new_metadata(stamp, content), new_files(stamp, content))


def small_record(number, version, stamp, content):
    f = FileTree()
    f.add_metadata(MetadataPath("sub/b c"), new_metadata(stamp, content, "other", "2"))
    return MetadataRootRecord(UUID(int=number), version, new_metadata(stamp, content), f)


def new_datasets(version, stamp, content):
    d = DatasetTree()
    d.add_dataset(MetadataPath(""), small_record(1, version, stamp, content))
    d.add_dataset(MetadataPath("sub/ds"), small_record(2, version, stamp, content))
    return d


def small_datasets(version, stamp, content):
    d = DatasetTree()
    d.add_dataset(MetadataPath("sub/ds"), MetadataRootRecord(UUID(int=1), version, new_metadata(stamp, content), None))
    return d


def new_tree_versions(stamp, content):
    t = TreeVersionList()
    t.set_dataset_tree("v1", "1675113291.25", MetadataPath("pre"), new_datasets("v1", stamp, content))
    t.set_dataset_tree("v1", "", MetadataPath(""), small_datasets("v1", stamp, content))
    t.set_dataset_tree("v2", "2023-01-30 22:14 +01:00", MetadataPath("pre"), small_datasets("v2", stamp, content))
    return t


def new_versions(stamp, content):
    v = VersionList()
    v.set_versioned_element("v1", "1675113291.25", MetadataPath("pre"), small_record(1, "v1", stamp, content))
    v.set_versioned_element("v1", "", MetadataPath(""), small_record(1, "v1", stamp, content))
    v.set_versioned_element("v2", "2023-01-30 22:14 +01:00", MetadataPath("pre"), small_record(1, "v2", stamp, content))
    return v


def given_versions(stamp, content):
    from dataladmetadatamodel.versionlist import VersionRecord
    p, q = MetadataPath("pre"), MetadataPath("")
    return VersionList({
        "v1": {p: VersionRecord("1675113291.25", p, small_record(1, "v1", stamp, content)),
               q: VersionRecord("", q, new_record(1, "v1", stamp, content))},
        "v2": {q: VersionRecord("2023-01-30 22:14 +01:00", None, small_record(1, "v2", stamp, content))}})


def new_uuids(stamp, content):
    v = VersionList()
    v.set_versioned_element("v1", "1675113291.25", MetadataPath(""), small_record(1, "v1", stamp, content))
    u = UUIDSet()
    u.set_version_list(UUID(int=1), v)
    u.set_version_list(UUID(int=2), new_versions(stamp, content))
    return u


def many_runs(stamp, content):
    m = new_metadata(stamp, content)
    for version, parameter in (("1", {}), ("2", {"key": ["value"]}), ("2", {"key": "value"})):
        m.add_extractor_run(stamp, "core", "author", "mail", ExtractorConfiguration(version, parameter), {"data": [content]})
    m.add_extractor_run(0, "other", "author", "mail", ExtractorConfiguration("1", {}), {})
    return m
'''

# observation without explicit loading
LAZY = "\n".join(line for line in SEE[:SEE.index("def new_metadata")].replace("see_", "lazy_see_").split("\n")
                 if line.strip() not in ("m.read_in()", "tree.read_in()", "versions.read_in()", "uuids.read_in()"))


class Kind:
    """A class of stored objects: how to create, load, observe and change one."""

    def __init__(self, name, create, see, load, change):
        self.name, self.create, self.see, self.load, self.change = name, create, see, load, change


ADD_RUN = "add_extractor_run(stamp, 'changed', 'x', 'y', ExtractorConfiguration('3', {}), content)"
KINDS = (
    Kind("Metadata", "new_metadata(stamp, content)", "see_metadata", "Metadata(realm, ref)", "{x}." + ADD_RUN),
    Kind("Text", "Text(content)", "see_text", "Text(None, realm, ref)", "{x}.read_in()\n{x}.content = content + 'changed'\n{x}.touch()"),
    Kind("FileTree", "new_files(stamp, content)", "see_files", "FileTree(None, realm, ref)",
         "{x}.get_metadata(MetadataPath('sub/deep/d'))." + ADD_RUN),
    Kind("MetadataRootRecord", "new_record(1, 'v1', stamp, content)", "see_record",
         "MetadataRootRecord(None, None, None, None, realm, ref)",
         "{x}.get_file_tree().get_metadata(MetadataPath('sub/deep/d'))." + ADD_RUN),
    Kind("DatasetTree", "new_datasets('v1', stamp, content)", "see_datasets", "DatasetTree(None, realm, ref)",
         "{x}.get_metadata_root_record(MetadataPath('sub/ds')).get_dataset_level_metadata()." + ADD_RUN),
    Kind("VersionList", "new_versions(stamp, content)", "see_versions", "VersionList(None, realm, ref)",
         "{x}.get_versioned_element('v1', MetadataPath('pre'))[2].get_dataset_level_metadata()." + ADD_RUN),
    Kind("TreeVersionList", "new_tree_versions(stamp, content)", "see_versions", "TreeVersionList(None, realm, ref)",
         "{x}.get_dataset_tree('v1', MetadataPath('pre'))[2].get_metadata_root_record(MetadataPath('sub/ds'))"
         ".get_dataset_level_metadata()." + ADD_RUN),
    Kind("UUIDSet", "new_uuids(stamp, content)", "see_uuids", "UUIDSet(None, realm, ref)",
         "{x}.get_version_list(UUID(int=2)).get_versioned_element('v1', MetadataPath('pre'))[2]"
         ".get_dataset_level_metadata()." + ADD_RUN),
)

# records without one or both of their parts, metadata with several runs
MORE = (
    Kind("Metadata", "many_runs(stamp, content)", "see_metadata", "Metadata(realm, ref)", "{x}." + ADD_RUN),
    Kind("Metadata", "Metadata()", "see_metadata", "Metadata(realm, ref)", "{x}." + ADD_RUN),
    Kind("MetadataRootRecord", "MetadataRootRecord(UUID(int=1), 'v1', None, new_files(stamp, content))", "see_record",
         "MetadataRootRecord(None, None, None, None, realm, ref)",
         "{x}.get_file_tree().get_metadata(MetadataPath('a'))." + ADD_RUN),
    Kind("MetadataRootRecord", "MetadataRootRecord(UUID(int=1), 'v1', new_metadata(stamp, content), None)", "see_record",
         "MetadataRootRecord(None, None, None, None, realm, ref)", "{x}.get_dataset_level_metadata()." + ADD_RUN),
    Kind("MetadataRootRecord", "MetadataRootRecord(UUID(int=1), 'v1', None, None)", "see_record",
         "MetadataRootRecord(None, None, None, None, realm, ref)",
         "{x}.set_dataset_level_metadata(new_metadata(stamp, content))"),
    Kind("UUIDSet", "UUIDSet()", "see_uuids", "UUIDSet(None, realm, ref)",
         "{x}.set_version_list(UUID(int=9), new_versions(stamp, content))"),
    Kind("VersionList", "given_versions(stamp, content)", "see_versions", "VersionList(None, realm, ref)",
         "{x}.set_versioned_element('v1', 'time', MetadataPath('p'), small_record(1, 'v1', stamp, content))"),
    Kind("UUIDSet", "UUIDSet({UUID(int=3): given_versions(stamp, content), UUID(int=4): VersionList()})", "see_uuids", "UUIDSet(None, realm, ref)",
         "{x}.set_version_list(UUID(int=9), new_versions(stamp, content))"),
    Kind("VersionList", "VersionList()", "see_versions", "VersionList(None, realm, ref)",
         "{x}.set_versioned_element('v1', 'time', MetadataPath(''), small_record(1, 'v1', stamp, content))"),
)

# trees and lists without elements
HOLLOW = (
    Kind("FileTree", "FileTree()", "see_files", "FileTree(None, realm, ref)",
         "{x}.add_metadata(MetadataPath('sub/n'), new_metadata(stamp, content))"),
    Kind("DatasetTree", "DatasetTree()", "see_datasets", "DatasetTree(None, realm, ref)",
         "{x}.add_dataset(MetadataPath('n'), small_record(1, 'v1', stamp, content))"),
    Kind("TreeVersionList", "TreeVersionList()", "see_versions", "TreeVersionList(None, realm, ref)",
         "{x}.set_dataset_tree('v1', 'time', MetadataPath(''), small_datasets('v1', stamp, content))"),
    Kind("MTreeNode", "MTreeNode(Metadata)", "see_files", "MTreeNode(Metadata, realm, ref)",
         "{x}.add_child('n', new_metadata(stamp, content))"),
    Kind("MTreeNode", "new_files(stamp, content).mtree", "see_files", "MTreeNode(Metadata, realm, ref)",
         "{x}.add_child('n', new_metadata(stamp, content))"),
)


class Run:
    """Analysis of one client program."""

    def __init__(self, ctx, text, fail=None, hooks=None, lazy=False, imports="", remote=0):
        self.ctx = ctx
        self.store = GitStore(ctx, fail)
        self.eng = ctx.engine({**self.store.hooks(), "ext probes.forget": forget, "ext probes.restore": restore, "ext probes.publish": publish,
                               "ext copy.deepcopy": copy_known(True), "ext copy.copy": copy_known(False), **(hooks or {})}, assert_raises=False)
        self.eng.opaque_globals = False
        self.eng.known_depth = 20
        self.eng.max_depth = 120
        see = SEE + (LAZY if lazy else "")
        self.f = scenario(see + f"\n\ndef scenario(a, b, stamp, content{''.join(', ' + x for x in ('far', 'far2')[:remote])}):\n" + "".join(
            "    " + x + "\n" for x in text.splitlines()), "model", EXTRA + imports)
        self.st, (self.a, self.b, *self.remote) = start_store(ctx, self.eng, "realm_a", "realm_b", *("remote_1", "remote_2")[:remote])
        self.store.remotes = self.remote
        for r in self.remote:
            self.st.facts[T("is_remote", r)] = True
        self.stamp, self.content = T("sym", "stamp"), T("sym", "content")
        self.st.types[self.stamp] = "float"
        self.st.types[self.content] = "str"
        self.st.facts[self.stamp] = self.st.facts[self.content] = True

    def paths(self):
        try:
            return self.ctx.run(self.eng, self.st, self.f, None, [self.a, self.b, self.stamp, self.content, *self.remote])
        except Exception as e:      # an analysis error is not a violation
            if os.environ.get("SA_DEBUG"):
                raise
            self.ctx.unknown("program", type(e).__name__, str(e))


def forget(eng, st, recv, args, kw, node):
    """The objects of a repository are lost."""
    realm = plain(args[0])
    st.glob[("lost", realm)] = st.glob.get(("objects", realm), {})
    st.glob[("objects", realm)] = {}
    return [(st, NONE)]


def restore(eng, st, recv, args, kw, node):
    """The objects of a repository are back."""
    realm = plain(args[0])
    st.glob[("objects", realm)] = {**st.glob.get(("lost", realm), {}), **st.glob.get(("objects", realm), {})}
    return [(st, NONE)]


def publish(eng, st, recv, args, kw, node):
    """The second repository becomes a copy of the first."""
    source, target = plain(args[0]), plain(args[1])
    for kind in ("objects", "refs"):
        st.glob[(kind, target)] = dict(st.glob.get((kind, source), {}))
    return [(st, NONE)]


def copy_known(deep):
    """copy.deepcopy and copy.copy for objects that are known completely."""
    def hook(eng, st, recv, args, kw, node):
        memo = {}

        def dup(v, top=False):
            if not isinstance(v, O):
                return v if not isinstance(v, Tup) or not deep else Tup(dup(x) for x in v.items)
            if v in memo:
                return memo[v]
            h = st.h(v)
            if not (top or deep):
                return v
            if h.opaque or h.kind not in ("inst", "list", "set", "dict", "tuple"):
                raise ValueError
            new = memo[v] = st.alloc(h.copy(), h.label)
            n = st.update(new)
            n.attrs = {k: dup(x) for k, x in h.attrs.items()}
            n.segs = tuple(tuple(dup(x) for x in seg[:-2]) + tuple(seg[-2:]) for seg in h.segs)
            return new
        if not args or not isinstance(args[0], (O, Tup)):
            return None
        try:
            return [(st, dup(args[0], True))]
        except ValueError:
            return None
    return hook


def strip(t):
    """Term without conversions to subclasses of dict."""
    if isinstance(t, T):
        if t.op == "new" and len(t.args) == 2 and isinstance(t.args[1], T) and t.args[1].op in ("fz", "new"):
            return strip(t.args[1])
        return T(t.op, *[strip(x) for x in t.args])
    if isinstance(t, Tup):
        return Tup(strip(x) for x in t.items)
    return t


def seen(eng, s, label):
    """Everything that was observed under a label, order does not matter."""
    res = Counter()
    for e in s.events():
        if e.kind == "call" and isinstance(e.name, str) and e.name.startswith("probes.") and e.args[:1] == (Const(label),):
            res[repr((e.name, *[strip(eng.freeze(s, a)) for a in e.args[1:]]))] += 1
    return res


def diff(want, got):
    lost = [k for k in want if got[k] < want[k]]
    new = [k for k in got if want[k] < got[k]]
    return "; ".join(([f"missing: {lost[0][:200]}"] if lost else []) + ([f"instead: {new[0][:200]}"] if new else []))


# -- C20 ------------------------------------------------------------------------
SOURCES = (
    ("object in memory", "x = {create}"),
    ("saved object", "x = {create}\nx.write_out(a)"),
    ("changed object", "x = {create}\nx.write_out(a)\n{change}"),
    ("object that is not loaded", "x = {create}\nref = x.write_out(a)\nrealm = a\nx = {load}"),
    ("loaded object", "x = {create}\nref = x.write_out(a)\nrealm = a\nx = {load}\nx.read_in()"),
)


def mapped(kind, name="x"):
    return f"{name}.mtree.mapped" if kind.name in ("FileTree", "DatasetTree") else f"{name}.mapped"


def check_c20(ctx):
    ctx.rule("for all classes, load states and destinations: the content of a deep copy, loaded from its destination after "
             "the repository of the original is gone, equals the content of the original; state and content of the "
             "original are unchanged; changes of the copy or of the original are not seen in the other one")
    count = 0
    for kind in KINDS + MORE:
        f = ctx.p.find_method(ctx.p.cls(kind.name), "deepcopy")
        for i, (source, setup) in enumerate(SOURCES):
            for dest in ("b", "a"):
                if kind in KINDS or (i, dest) in ((0, "b"), (1, "a"), (2, "a"), (3, "b")):
                    count += copy_run(ctx, kind, source, setup, dest, f)
    for kind in HOLLOW:
        f = ctx.p.find_method(ctx.p.cls(kind.name), "deepcopy")
        for i, (source, setup) in enumerate(SOURCES):
            if source != "changed object":
                count += copy_run(ctx, kind, source, setup, "a" if i else "b", f)
    for kind in KINDS:
        if "VersionList" in kind.name:
            prefix_run(ctx, kind)
    for element, see in (("small_record(1, 'v1', stamp, content)", "see_record"), ("small_datasets('v1', stamp, content)", "see_datasets")):
        record_run(ctx, element, see)
    if not count:
        raise BrokenAnchor("no copy analysed")


def reachable(s, v, res=None):
    """Heap objects that are reachable from a value."""
    res = set() if res is None else res
    if isinstance(v, Tup):
        for x in v.items:
            reachable(s, x, res)
    elif isinstance(v, O) and v not in res:
        res.add(v)
        h = s.h(v)
        for x in [*h.attrs.values(), *(x for seg in h.segs for x in seg[:-2])]:
            reachable(s, x, res)
    return res


def changeable(ctx, h):
    """Containers and objects of classes whose instances are modified after their creation."""
    if h.kind != "inst":
        return h.kind in ("list", "dict", "set")
    return h.cls is not None and h.cls.name not in ("MetadataPath", "UUID", "Reference")


def copy_run(ctx, kind, source, setup, dest, f):
    change = kind.change.replace("{x}", "x")
    fill = dict(create=kind.create, load=kind.load, change=change)
    if source == "changed object":
        before = f"o = {kind.create}\n" + kind.change.replace("{x}", "o") + f"\n{kind.see}('before', 0, o)\n"
    else:
        before = f"{kind.see}('before', 0, {kind.create})\n"
    text = before + setup.format(**fill) + f"""
probes.pre(x.is_saved_on(a), x.is_saved_on(b), {mapped(kind)})
c = x.deepcopy(new_destination={dest})
probes.post(x.is_saved_on(a), x.is_saved_on(b), {mapped(kind)})
probes.copy(c.is_saved_on({dest}), type(c) is type(x), c is x)
{kind.see}('original', 0, x)
""" + ("probes.forget(a)\n" if dest == "b" else "") + f"""
{kind.see}('copy', 0, c)
realm = {dest}
ref = c.reference
y = {kind.load}
{kind.see}('stored copy', 0, y)
""" + ("probes.restore(a)\n" if dest == "b" else "") + f"""
{kind.change.replace('{x}', 'c')}
{kind.see}('original after change of copy', 0, x)
c.write_out({dest})
ref = c.reference
y = {kind.load}
{kind.see}('changed copy', 0, y)
{change}
{kind.see}('changed original', 0, x)
{kind.see}('copy after change of original', 0, c)
return x, c
"""
    run = Run(ctx, text)
    where = f"{kind.name}.deepcopy"
    label = f"{source}, copied to {'another' if dest == 'b' else 'its own'} repository"
    outs = run.paths()
    count = 0
    if run.store.unknown:
        ctx.unknown("copy", where, f"{label}: {run.store.unknown[0]}")
        return 0
    for s, v in outs or ():
        if isinstance(v, Exc):
            if len(outs) == 1:
                ctx.bad("copy", where, f"{label}: raises {v!r}", v.loc or line(f), s)
            else:
                ctx.unknown("copy", where, f"{label}: {v!r}")
            continue
        count += 1
        want = seen(run.eng, s, "before")
        pre, post, copy = (probes(s, n)[0] for n in ("pre", "post", "copy"))
        bad = None
        for name, text in (("original", "the original is changed"), ("copy", "the copy differs"),
                           ("stored copy", "the stored copy differs"),
                           ("original after change of copy", "a change of the copy changes the original")):
            d = diff(want, seen(run.eng, s, name))
            bad = bad or d and f"{text}: {d}"
        changed = seen(run.eng, s, "changed copy")
        bad = bad or (diff(changed, seen(run.eng, s, "copy after change of original"))
                      and "a change of the original changes the copy: "
                      + diff(changed, seen(run.eng, s, "copy after change of original")))
        if any(isinstance(x, T) for x in (*pre, *post, *copy)):
            ctx.unknown("copy", where, f"{label}: {pre} {post} {copy}")
            continue
        bad = bad or pre != post and f"the saved state or the load state of the original is changed: {pre} -> {post}"
        shared = reachable(s, v.items[0]) & reachable(s, v.items[1]) if isinstance(v, Tup) else ()
        shared = sorted(f"{s.h(o).cls.name if s.h(o).cls else s.h(o).kind}" for o in shared if changeable(ctx, s.h(o)))
        bad = bad or shared and f"the copy shares objects with the original: {', '.join(shared)}"
        bad = bad or copy[0] != TRUE and "the copy is not saved on its destination"
        bad = bad or copy[1] != TRUE and "the copy is of another class"
        bad = bad or copy[2] == TRUE and "the copy is the original"
        ctx.check(not bad, "copy", where, f"{label}: {bad}", line(f), s, label)
    return count


def record_run(ctx, element, see):
    """Copies of single entries of version lists."""
    where = "VersionRecord.deepcopy"
    if not ctx.p.find_method(ctx.p.cls("VersionRecord"), "deepcopy"):
        return
    for setup in ("", "x.element.write_out(a)\n", "x.element.write_out(a)\nx.element.purge()\n"):
        run = Run(ctx, f"""x = VersionRecord('time', MetadataPath('p/q'), {element})
{see}('before', 0, x.element)
{setup}c = x.deepcopy(new_destination=b)
probes.copy(c.time_stamp, str(c.prefix_path), c is x, c.element is x.element, c.element.is_saved_on(b))
probes.forget(a)
{see}('copy', 0, c.element)
probes.restore(a)
{see}('original', 0, x.element)
""", imports="from dataladmetadatamodel.versionlist import VersionRecord\n")
        for s, v in run.paths() or ():
            label = f"{element}, {setup!r}"
            if isinstance(v, Exc):
                ctx.bad("copy", where, f"{label}: raises {v!r}", v.loc, s)
                continue
            got = probes(s, "copy")[0]
            if run.store.unknown or any(isinstance(x, T) for x in got):
                ctx.unknown("copy", where, label)
                continue
            want = seen(run.eng, s, "before")
            bad = got != (Const("time"), Const("p/q"), FALSE, FALSE, TRUE) and f"time stamp, path, shared and saved state: {got}"
            bad = bad or diff(want, seen(run.eng, s, "copy")) or diff(want, seen(run.eng, s, "original"))
            ctx.check(not bad, "copy", where, f"{label}: {bad}", None, s, label)


def prefix_run(ctx, kind):
    where = f"{kind.name}.deepcopy"
    for prefix in ("x", "new/prefix", ""):
        element = "small_datasets" if kind.name.startswith("Tree") else "lambda *a: small_record(1, *a)"
        run = Run(ctx, f"""x = {kind.create}
for v, path in (('v7', 'p/q/r'), ('v7', ''), ('v7', 'p'), ('v8', 'x/x')):
    x.set_versioned_element(v, 'time-' + path, MetadataPath(path), ({element})(v, stamp, content))
{kind.see}('before', 0, x)
c = x.deepcopy(new_destination=b, path_prefix=MetadataPath({prefix!r}))
{kind.see}('copy', 0, c)
""")
        for s, v in run.paths() or ():
            if isinstance(v, Exc):
                ctx.bad("copy-prefix", where, f"prefix {prefix!r}: raises {v!r}", v.loc, s)
                continue

            def rows(label):
                return Counter((a[2], a[3], a[4]) for a in probes(s, "version") if a[0] == Const(label))
            if any(isinstance(x, T) for r in (*rows("before"), *rows("copy")) for x in r):
                ctx.unknown("copy-prefix", where, prefix)
                continue
            want = Counter({(n, Const("/".join(x for x in (prefix, p.v) if x)), t): k
                            for (n, p, t), k in rows("before").items()})
            ctx.check(want == rows("copy"), "copy-prefix", where,
                      f"prefix {prefix!r}: {sorted(map(repr, rows('copy')))[:3]} expected {sorted(map(repr, want))[:3]}",
                      None, s, prefix)
