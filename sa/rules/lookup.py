"""Rules about the lookup and creation of root records in the top-level store (C21, C22, C23)."""
from ..model import *
from ..scenario import probes, scenario
from ..shapes import distinct, sym
from .protocol import start
from .store import line

COMMON = f"from {PKG}.common import *\nfrom {PKG}.common import get_metadata_root_record_from_top_nodes, " \
         f"get_top_nodes_and_metadata_root_record, get_top_level_metadata_objects\n"


class Content:
    """Known content of a store.

    trees: {(version, prefix): (time stamp, {dataset path: record})}
    lists: {uuid: {(version, prefix): (time stamp, record)}}
    records: {record: (uuid, version)}; all of them are names of symbols or constant texts.
    """

    def __init__(self, label, trees, lists, records, consistent=True):
        self.label, self.trees, self.lists, self.records, self.consistent = label, trees, lists, records, consistent

    def setup(self):
        out = []
        for name, (u, v) in self.records.items():
            out.append(f"{name} = MetadataRootRecord({u}, {v}, Metadata(), FileTree())")
        for i, ((v, p), (t, paths)) in enumerate(self.trees.items()):
            out.append(f"tree{i} = DatasetTree()")
            for path, name in paths.items():
                out.append(f"tree{i}.add_dataset(MetadataPath({path!r}), {name})")
            out.append(f"tvl.set_dataset_tree({v}, {t}, MetadataPath({p!r}), tree{i})")
        for i, (u, entries) in enumerate(self.lists.items()):
            out.append(f"list{i} = VersionList()")
            for (v, p), (t, name) in entries.items():
                out.append(f"list{i}.set_versioned_element({v}, {t}, MetadataPath({p!r}), {name})")
            out.append(f"us.set_version_list({u}, list{i})")
        # the objects count as saved, so that modifications can be seen
        for name in self.records:
            out.append(f"{name}.dataset_level_metadata.set_saved_on('here')")
            out.append(f"{name}.file_tree.mtree.set_saved_on('here')")
            out.append(f"{name}.set_saved_on('here')")
        for i in range(len(self.trees)):
            out.append(f"for _, node in tree{i}.mtree.get_paths_recursive(True):\n    node.set_saved_on('here')")
            out.append(f"tree{i}.mtree.set_saved_on('here')")
        out += [f"list{i}.set_saved_on('here')" for i in range(len(self.lists))]
        out += ["tvl.set_saved_on('here')", "us.set_saved_on('here')"]
        for name in self.records:
            out.append(f"probes.known({name!r}, {name})")
        return out


OBSERVE = """
probes.saved(tvl.is_saved_on('here'), us.is_saved_on('here'))
for v, (t, p, e) in tvl.versioned_elements:
    probes.tree(v, str(p), t)
    for path, rec in e.dataset_paths:
        probes.dataset(v, str(p), str(path), rec)
for u in us.uuids():
    probes.uuid(u)
    for v, (t, p, e) in us.get_version_list(u).versioned_elements:
        probes.entry(u, v, str(p), t, e)
"""

ROOT = {"r1": ("u1", "v1")}
EMPTY = Content("empty store", {}, {}, {})
ONE = Content("one dataset", {("v1", ""): ("t1", {"": "r1"})}, {"u1": {("v1", ""): ("t2", "r1")}}, ROOT)
PREFIX = Content("dataset below a prefix", {("v1", "pre/fix"): ("t1", {"": "r1"})},
                 {"u1": {("v1", "pre/fix"): ("t2", "r1")}}, ROOT)
TWO = Content("two versions of a dataset", {("v2", ""): ("t1", {"": "r2"}), ("v1", ""): ("t3", {"": "r1"})},
              {"u1": {("v2", ""): ("t2", "r2"), ("v1", ""): ("t4", "r1")}}, {"r1": ("u1", "v1"), "r2": ("u1", "v2")})
SUB = Content("dataset with a sub-dataset", {("v1", ""): ("t1", {"": "r1", "sub/ds": "r3"})},
              {"u1": {("v1", ""): ("t2", "r1")}, "u2": {("v3", ""): ("t3", "r3")}},
              {"r1": ("u1", "v1"), "r3": ("u2", "v3")})
SUBPREFIX = Content("dataset with a sub-dataset below a prefix", {("v1", "pre/fix"): ("t1", {"": "r1", "sub/ds": "r3"})},
                    {"u1": {("v1", "pre/fix"): ("t2", "r1")}, "u2": {("v3", ""): ("t3", "r3")}},
                    {"r1": ("u1", "v1"), "r3": ("u2", "v3")})
BOTH = Content("same version, two prefixes", {("v1", ""): ("t1", {"": "r1"}), ("v1", "pre/fix"): ("t3", {"": "r2"})},
               {"u1": {("v1", ""): ("t2", "r1"), ("v1", "pre/fix"): ("t4", "r2")}},
               {"r1": ("u1", "v1"), "r2": ("u1", "v1")})
NO_ROOT = Content("sub-dataset without root record", {("v1", ""): ("t1", {"sub/ds": "r3"})},
                  {"u2": {("v3", ""): ("t3", "r3")}}, {"r3": ("u2", "v3")})
ONLY_TREE = Content("dataset that is missing in the UUID set", {("v1", ""): ("t1", {"": "r1"})}, {}, ROOT, False)
ONLY_UUID = Content("dataset that is missing in the tree version list", {}, {"u1": {("v1", ""): ("t2", "r1")}}, ROOT,
                    False)
COPIES = Content("dataset with separately loaded copies", {("v1", ""): ("t1", {"": "r1"})},
                 {"u1": {("v1", ""): ("t2", "r2")}}, {"r1": ("u1", "v1"), "r2": ("u1", "v1")})
OTHER = Content("other dataset", {("v2", ""): ("t1", {"": "r1"})}, {"u3": {("v2", ""): ("t2", "r1")}},
                {"r1": ("u3", "v2")})
OLD_UUID = Content("earlier version of the dataset", {("v2", ""): ("t1", {"": "r1"})}, {"u1": {("v2", ""): ("t2", "r1")}},
                   {"r1": ("u1", "v2")})
CONTENTS = (EMPTY, ONE, PREFIX, TWO, SUB, SUBPREFIX, BOTH, NO_ROOT, ONLY_TREE, ONLY_UUID, COPIES, OTHER, OLD_UUID)

# (dataset, version, prefix, path in the dataset tree, root dataset, version of the root dataset)
REQUESTS = (
    ("u1", "v1", "", "", None, None),
    ("u1", "v1", "pre/fix", "", None, None),
    ("u2", "v3", "", "sub/ds", "u1", "v1"),
    ("u2", "v3", "pre/fix", "sub/ds", "u1", "v1"),
    ("u2", "v3", "", "sub", "u1", "v1"),
)
SYMBOLS = {"u1": "UUID", "u2": "UUID", "u3": "UUID", "v1": "str", "v2": "str", "v3": "str", "t1": "str", "t2": "str",
           "t3": "str", "t4": "str"}


def expected(content, request):
    """(record or None, what auto_create has to add)"""
    u, v, p, path, ru, rv = request
    key = (rv, p) if path else (v, p)
    tree = content.trees.get(key)
    found = tree and tree[1].get(path)
    complete = found and u in content.lists and (not path or (ru in content.lists and tree[1].get("")))
    return found, complete


def after_creation(content, request):
    """Content after the call with auto_create; new records are "new" and "root", new time stamps are None."""
    u, v, p, path, ru, rv = request
    trees = {k: (t, dict(d)) for k, (t, d) in content.trees.items()}
    lists = {k: dict(d) for k, d in content.lists.items()}

    def ensure(uuid, version, prefix, rec):
        entries = lists.setdefault(uuid, {})
        entries[version, prefix] = (entries.get((version, prefix), (None,))[0], rec)

    key = (rv, p) if path else (v, p)
    tree = trees.setdefault(key, (None, {}))[1]
    if path:
        ensure(ru, rv, p, tree.setdefault("", "root"))
    rec = tree.setdefault(path, "new")
    ensure(u, v, "" if path else p, rec)
    return trees, lists, rec


def program(content, request, create, function="get_metadata_root_record_from_top_nodes"):
    u, v, p, path, ru, rv = request
    body = ["tvl = TreeVersionList()", "us = UUIDSet()"] + content.setup()
    body.append(f"result = get_metadata_root_record_from_top_nodes(tvl, us, {u}, {v}, MetadataPath({p!r}), "
                f"MetadataPath({path!r}), {ru}, {rv}, {create})")
    body.append("probes.result(result)")
    body += OBSERVE.strip().splitlines()
    body += describe()
    return assemble(body)


def describe():
    return ["if result is not None:",
            "    probes.content(result.dataset_identifier, result.dataset_version, "
            "list(result.get_dataset_level_metadata().extractors) if result.dataset_level_metadata is not None else None, "
            "list(result.get_file_tree().get_paths_recursive()) if result.file_tree is not None else None)"]


def assemble(body):
    text = "def scenario(" + ", ".join(SYMBOLS) + ", realm):\n"
    for b in body:
        text += "".join("    " + x + "\n" for x in b.splitlines())
    return scenario(text, "model", COMMON)


def symbols(ctx, eng):
    st = start(ctx, eng)
    terms = {n: sym(st, n, t, True) for n, t in SYMBOLS.items()}
    for kind in ("UUID", "str"):
        distinct(eng, st, [terms[n] for n, t in SYMBOLS.items() if t == kind and not n.startswith("t")])
    realm = sym(st, "realm", "str", True)
    st.facts[T("is_remote", realm)] = False
    return st, terms, realm


def name_of(terms, v):
    for n, t in terms.items():
        if t == v:
            return n
    return None


class Observed:
    """What the probes of a path tell about the store."""

    def __init__(self, s, terms):
        self.problem = None
        known = {a[1]: a[0].v for a in probes(s, "known")}
        self.new = {}
        self.trees, self.lists = {}, {}

        def sym_name(v):
            n = name_of(terms, v)
            if n is None:
                self.problem = f"{v!r}"
            return n

        def text(v):
            if not isinstance(v, Const) or not isinstance(v.v, str):
                self.problem = f"{v!r}"
                return None
            return v.v

        def record(v):
            return known.get(v, v)

        for v, p, t in probes(s, "tree"):
            key = (sym_name(v), text(p))
            if key in self.trees:
                self.problem = "entry listed twice"
            self.trees[key] = (name_of(terms, t), {})
        for v, p, path, r in probes(s, "dataset"):
            self.trees.get((sym_name(v), text(p)), (0, {}))[1][text(path)] = record(r)
        for (u,) in probes(s, "uuid"):
            self.lists[sym_name(u)] = {}
        for u, v, p, t, r in probes(s, "entry"):
            self.lists.setdefault(sym_name(u), {})[sym_name(v), text(p)] = (name_of(terms, t), record(r))
        self.known = known
        r = probes(s, "result")
        self.result = r[0][0] if r else None
        self.result_name = known.get(self.result, self.result)
        self.saved = probes(s, "saved")[0] if probes(s, "saved") else (None, None)
        self.content = probes(s, "content")


def outcomes(ctx, eng, f, rule, where, label, terms, realm, st):
    """(state, Observed) of the complete paths."""
    outs = ctx.run(eng, st, f, None, [*terms.values(), realm])
    if outs is None:
        ctx.unknown(rule, where, f"{label}: not analysed")
        return
    for s, v in outs:
        if isinstance(v, Exc):
            if v.kind == "AssertionError":
                continue
            ctx.bad(rule, where, f"{label}: raises {v!r}", v.loc, s)
            continue
        o = Observed(s, terms)
        if o.problem:
            ctx.unknown(rule, where, f"{label}: {o.problem}")
            continue
        yield s, o


def show(r):
    u, v, p, path, ru, rv = r
    return f"request for dataset {u}, version {v}" + (f", prefix {p!r}" if p else "") + \
        (f" at {path!r} of dataset {ru}, version {rv}" if path else "")


WHERE = "get_metadata_root_record_from_top_nodes"


def writes(s):
    return [e for e in s.events() if e.kind == "git" and e.name in (
        "hash-object", "mktree", "update-ref", "update-ref -d", "commit-tree", "fetch")]


def check_c21(ctx):
    ctx.rule("for all stores of the table and all requests: without auto_create the existing record is returned if it "
             "exists and None otherwise; all entries, time stamps and the saved state of the store are the ones before")
    loc = line(ctx.p.function("common", WHERE))
    for content in CONTENTS:
        for request in REQUESTS:
            label = f"{content.label}, {show(request)}"
            eng = ctx.engine({}, assert_raises=False)
            st, terms, realm = symbols(ctx, eng)
            f = program(content, request, False)
            found, complete = expected(content, request)
            for s, o in outcomes(ctx, eng, f, "lookup", WHERE, label, terms, realm, st):
                bad = None
                if o.trees != content.trees or o.lists != content.lists:
                    bad = "the lookup changes the store"
                elif o.saved != (TRUE, TRUE):
                    if FALSE not in o.saved:
                        ctx.unknown("lookup", WHERE, f"{label}: {o.saved}")
                        continue
                    bad = "the lookup modifies the store (it has to be saved again)"
                elif writes(s):
                    bad = "the lookup writes"
                elif not found and o.result != NONE:
                    if isinstance(o.result, T):
                        ctx.unknown("lookup", WHERE, f"{label}: {o.result!r}")
                        continue
                    bad = f"None expected, found {o.result_name!r}"
                elif complete and o.result_name != found:
                    if isinstance(o.result, T):
                        ctx.unknown("lookup", WHERE, f"{label}: {o.result!r}")
                        continue
                    bad = f"record {found} expected, found {o.result_name!r}"
                elif found and o.result_name not in (found, NONE):
                    bad = f"record {found} or None expected, found {o.result_name!r}"
                ctx.check(not bad, "lookup", WHERE, f"{label}: {bad}", loc, s, label)


def check_c22(ctx):
    ctx.rule("for all stores of the table and all requests: with auto_create the store has exactly the entries that it had "
             "before, with their time stamps, and the missing entries for the record and its root dataset, in the tree "
             "version list and in the UUID set; both hold the same record, which is the one that is returned")
    loc = line(ctx.p.function("common", WHERE))
    for content in CONTENTS:
        for request in REQUESTS:
            label = f"{content.label}, {show(request)}"
            eng = ctx.engine({}, assert_raises=False)
            st, terms, realm = symbols(ctx, eng)
            f = program(content, request, True)
            trees, lists, rec = after_creation(content, request)
            for s, o in outcomes(ctx, eng, f, "create", WHERE, label, terms, realm, st):
                created(ctx, s, o, terms, content, request, trees, lists, rec, label, loc)
    for content in (EMPTY, SUB):
        for request in REQUESTS:
            check_top(ctx, content, PRESENT[0], True, request)


def created(ctx, s, o, terms, content, request, trees, lists, rec, label, loc):
    """Compare the store with the expected one; unknown records have to be new ones, consistently."""
    u, v, p, path, ru, rv = request
    new = {}
    bad = None

    def same(want, got):
        if want in o.known.values():
            return want == got
        return isinstance(got, O) and new.setdefault(want, got) == got and \
            all(got != x for n, x in new.items() if n != want)

    def diff(what, want, got):
        for k in want:
            if k not in got:
                return f"{what} {k} is missing"
        for k in got:
            if k not in want:
                return f"{what} {k} is invented or kept under a wrong key"
        return None

    if isinstance(o.result, T):
        ctx.unknown("create", WHERE, f"{label}: {o.result!r}")
        return
    bad = diff("version", trees, o.trees)
    for k, (t, paths) in trees.items():
        if bad:
            break
        bad = diff(f"dataset of {k[0]}:", paths, o.trees[k][1])
        if not bad and t is not None and o.trees[k][0] != t:
            bad = f"time stamp of version {k} is changed in the tree version list"
        for d, r in paths.items():
            if not bad and not same(r, o.trees[k][1][d]):
                bad = f"record at {d!r} of version {k} is not the expected one"
    bad = bad or diff("dataset", lists, o.lists)
    for uuid, entries in lists.items():
        if bad:
            break
        bad = diff(f"version of dataset {uuid}", entries, o.lists[uuid])
        for k, (t, r) in entries.items():
            if not bad and t is not None and o.lists[uuid][k][0] != t:
                bad = f"time stamp of version {k} is changed in the list of dataset {uuid}"
            if not bad and not same(r, o.lists[uuid][k][1]):
                bad = f"the list of dataset {uuid} holds another record for {k} than the dataset tree"
    if not bad and not same(rec, o.result_name):
        bad = "another record is returned"
    if not bad and rec == "new":
        if len(o.content) != 1:
            ctx.unknown("create", WHERE, f"{label}: content of the new record")
            return
        ident, version, metadata, files = o.content[0]
        if any(isinstance(x, T) and x not in terms.values() for x in (ident, version)):
            ctx.unknown("create", WHERE, f"{label}: {ident!r}, {version!r}")
            return
        if ident != terms[u] or version != terms[v]:
            bad = "the new record has another dataset identifier or version"
        elif not all(isinstance(x, O) and s.h(x).kind in ("list", "tuple") and not s.h(x).segs for x in (metadata, files)):
            bad = "the new record is not empty" if all(isinstance(x, (O, Const)) for x in (metadata, files)) else None
    changed = trees != content.trees or lists != content.lists
    if not bad and changed:
        for what, before, after, flag in (("tree version list", content.trees, trees, o.saved[0]),
                                          ("UUID set", content.lists, lists, o.saved[1])):
            if before != after and flag == TRUE:
                bad = f"the {what} counts as saved although it was changed"
    ctx.check(not bad, "create", WHERE, f"{label}: {bad}", loc, s, label)


TOP = "get_top_nodes_and_metadata_root_record"


def stored_top(stored, error=None):
    """Hook for map_in: top-level elements get the content of the objects that the scenario prepared."""
    def hook(eng, st, recv, args, kw, node):
        o = arg(args, kw, 0, "mappable_object")
        if not isinstance(o, O) or st.h(o).kind != "inst" or st.h(o).cls.name not in ("TreeVersionList", "UUIDSet"):
            return None
        name = st.h(o).cls.name
        ref = arg(args, kw, 2, "reference")
        location = st.h(ref).attrs.get("location") if isinstance(ref, O) else None
        st.emit(Ev("load", name, o, (arg(args, kw, 1, "realm"), location), eng.loc(st, node)))
        if name not in stored:
            return [(st, Exc("RuntimeError", None, eng.loc(st, node)))]
        if error:
            return [(st, Exc(error, None, eng.loc(st, node)))]
        source = [a[0 if name == "TreeVersionList" else 1] for a in probes(st, "stored")]
        if len(source) != 1 or not isinstance(source[0], O):
            return None
        for k, v in st.h(source[0]).attrs.items():
            if isinstance(v, O) and st.h(v).kind == "dict":
                st.update(o).attrs[k] = v
        return [(st, NONE)]
    return hook


def refs_process(stored):
    """Hook for subprocess.run: the root references of the stored elements exist."""
    names = {"TreeVersionList": "refs/datalad/dataset-tree-version-list", "UUIDSet": "refs/datalad/dataset-uuid-set"}
    known = {names[n] for n in stored}

    def hook(eng, st, recv, args, kw, node):
        sub, repo, rest, _ = eng.parse_argv(st, arg(args, kw, 0, "args"))
        refs = [a.v for a in rest or () if isinstance(a, Const) and str(a.v).startswith("refs/")]
        if sub not in ("rev-parse", "show-ref", "for-each-ref", "cat-file", "ls-remote") or len(refs) != 1:
            return None
        h = "1" * 40 if refs[0] in known else ""
        out = {"rev-parse": f"{h}\n", "cat-file": "", "show-ref": f"{h} {refs[0]}\n", "ls-remote": f"{h}\t{refs[0]}\n"}.get(
            sub, f"{refs[0]}\n" if Const("--format=%(refname)") in rest else f"{h} blob\t{refs[0]}\n") if h else ""
        text = any(k in kw and kw[k] not in (FALSE, NONE) for k in ("text", "universal_newlines", "encoding"))
        code = 0 if h or sub in ("for-each-ref", "ls-remote") and Const("--exit-code") not in rest else 1
        o = st.alloc(HObj("inst", cls=eng.p.cls("Reference"), attrs={
            "returncode": Const(code), "stdout": Const(out if text else out.encode()),
            "stderr": Const("" if text else b"")}), "process")
        return [(st, o)]
    return hook


PRESENT = (("TreeVersionList", "UUIDSet"), ("TreeVersionList",), ("UUIDSet",), ())


def top_content(content, stored):
    return Content(content.label, content.trees if "TreeVersionList" in stored else {},
                   content.lists if "UUIDSet" in stored else {}, content.records)


def check_c23(ctx):
    ctx.rule("for all combinations of stored top-level elements: the loader returns exactly the stored ones, read from the "
             "root reference of their class in the realm; an element that cannot be read raises")
    ctx.rule("for all combinations of stored top-level elements: the function for top nodes returns and extends the stored "
             "ones, creates a missing one only with auto_create, and returns nothing if one is missing otherwise")
    check_loader(ctx)
    for content in (ONE, SUB, EMPTY):
        for stored in PRESENT:
            for create in (True, False):
                for request in (REQUESTS[0], REQUESTS[2], ("u3", "v2", "", "", None, None)):
                    check_top(ctx, content, stored, create, request)


def check_loader(ctx):
    where = "get_top_level_metadata_objects"
    f0 = ctx.p.function("common", where)
    for stored in PRESENT:
        for kind in ("str", "=Path"):
            for error in (None, "RuntimeError", "ValueError", "KeyError") if stored else (None,):
                label = f"stored: {', '.join(stored) or 'nothing'}; realm of type {kind.strip('=')}" + (
                    f"; {error} while reading" if error else "")
                body = ["tvl = TreeVersionList()", "us = UUIDSet()"] + ONE.setup() + ["probes.stored(tvl, us)"]
                body += ["result = get_top_level_metadata_objects('git', realm)", "probes.result(result[0], result[1])"]
                body += ["for x in result:\n    probes.mapped(x is not None and (x.mapped, x.realm))"]
                f = assemble(body)
                eng = ctx.engine({".map_in": stored_top(stored, error), "ext subprocess.run": refs_process(stored)},
                                 assert_raises=False)
                st, terms, realm = symbols(ctx, eng)
                st.types[realm] = kind
                st.facts[T("str", realm)] = True
                for s, v in ctx.run(eng, st, f, None, [*terms.values(), realm]) or ():
                    loads = {e.name: e for e in s.events() if e.kind == "load"}
                    if isinstance(v, Exc):
                        if v.kind == "AssertionError":
                            continue
                        ctx.check(error == v.kind, "load-top", where, f"{label}: raises {v!r}", v.loc, s, label)
                        continue
                    if error:
                        ctx.bad("load-top", where, f"{label}: an element that is stored, but cannot be read, is regarded "
                                "as missing", line(f0), s)
                        continue
                    result = probes(s, "result")[0]
                    bad = None
                    for name, ref, x in (("TreeVersionList", "refs/datalad/dataset-tree-version-list", result[0]),
                                         ("UUIDSet", "refs/datalad/dataset-uuid-set", result[1])):
                        if isinstance(x, T):
                            bad = "?"
                            break
                        if name not in stored:
                            bad = bad or (x != NONE and f"{name} is returned, although it is not stored")
                        elif x == NONE:
                            bad = bad or f"{name} is not loaded, although it is stored"
                        elif not isinstance(x, O) or s.h(x).cls.name != name:
                            bad = bad or f"{x!r} is returned instead of a {name}"
                        elif name in loads and loads[name].args[1] != Const(ref):
                            bad = bad or f"{name} is read from {loads[name].args[1]!r}"
                        elif name in loads and plain_realm(loads[name].args[0]) != realm:
                            bad = bad or f"{name} is read from the realm {loads[name].args[0]!r}"
                    if bad == "?":
                        ctx.unknown("load-top", where, f"{label}: {result!r}")
                        continue
                    ctx.check(not bad, "load-top", where, f"{label}: {bad}", line(f0), s, label)


def plain_realm(t):
    while isinstance(t, T) and t.op in ("str", "path") and len(t.args) == 1:
        t = t.args[0]
    return t


def check_top(ctx, content, stored, create, request):
    u, v, p, path, ru, rv = request
    label = f"{content.label}, stored: {', '.join(stored) or 'nothing'}, auto_create={create}, {show(request)}"
    base = top_content(content, stored)
    body = ["tvl = TreeVersionList()", "us = UUIDSet()"] + base.setup() + ["probes.stored(tvl, us)"]
    first = (ru, rv, u, v) if path else (u, v, None, None)
    body.append(f"tvl, us, result = get_top_nodes_and_metadata_root_record('git', realm, {first[0]}, {first[1]}, "
                f"MetadataPath({p!r}), MetadataPath({path!r}), {first[2]}, {first[3]}, {create})")
    body += ["probes.result(result)", "probes.top(tvl, us)", "if tvl is None or us is None:\n    return"]
    body += OBSERVE.strip().splitlines() + describe()
    eng = ctx.engine({".map_in": stored_top(stored), "ext subprocess.run": refs_process(stored)}, assert_raises=False)
    st, terms, realm = symbols(ctx, eng)
    loc = line(ctx.p.function("common", TOP))
    trees, lists, rec = after_creation(base, request)
    found, complete = expected(base, request)
    for s, o in outcomes(ctx, eng, assemble(body), "top", TOP, label, terms, realm, st):
        if any(isinstance(x, T) for x in probes(s, "top")[0]):
            ctx.unknown("top", TOP, f"{label}: {probes(s, 'top')[0]!r}")
            continue
        if writes(s):
            ctx.bad("top", TOP, f"{label}: {writes(s)[0].name} is run", writes(s)[0].loc, s)
            continue
        if NONE in probes(s, "top")[0]:
            bad = "no top-level elements are returned" if create or len(stored) == 2 else \
                "a record, but no top-level elements are returned" if o.result != NONE else None
            ctx.check(not bad, "top", TOP, f"{label}: {bad}", loc, s, label)
            continue
        if not create:
            bad = None
            if len(stored) < 2:
                bad = "top-level elements are returned, although one of them is not stored"
            elif o.trees != base.trees or o.lists != base.lists:
                bad = "the lookup changes the store"
            elif (complete or None) and o.result_name != found:
                bad = f"record {found} expected, found {o.result_name!r}"
            elif not found and o.result != NONE:
                bad = f"None expected, found {o.result_name!r}"
            ctx.check(not bad, "top", TOP, f"{label}: {bad}", loc, s, label)
            continue
        created(ctx, s, o, terms, base, request, trees, lists, rec, label, loc)
