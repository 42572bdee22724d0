"""Rules about values and single objects, decided on client programs (C02, C26, C28, C30, C33)."""
from ..gitstore import PROBE, object_id, plain, text_of
from ..model import *
from ..scenario import probes
from ..shapes import sym
from .endtoend import STARTS, all_of, arm, expect, fail_once, fill, judge, values
from .system import KINDS, MORE, Run, diff, seen

IMPORT = (f"from {PKG}.metadatasource import MetadataSource, LocalGitMetadataSource, ImmediateMetadataSource\n"
          f"from {PKG}.mapper.gitmapper.gitbackend.subprocess import git_save_str, git_load_str\n"
          f"from {PKG}.mappableobject import ensure_mapped\n")


# -- C02 ------------------------------------------------------------------------
def headers(t, path=()):
    """Positions of the class names and versions of all headers in a content term."""
    if isinstance(t, T):
        if t.op == "seg" and t.args[0] == Const("@"):
            for p, x in inner(t.args[1], path + (1,)):
                yield p, x
        for i, x in enumerate(t.args):
            yield from headers(x, path + (i,))
    elif isinstance(t, Tup):
        for i, x in enumerate(t.items):
            yield from headers(x, path + (i,))


def inner(t, path):
    if isinstance(t, T):
        if t.op == "seg" and t.args[0] in (Const("type"), Const("version")) and isinstance(t.args[1], Const):
            yield path + (1,), t.args[0].v
        for i, x in enumerate(t.args):
            yield from inner(x, path + (i,))


def at(t, path):
    for i in path:
        t = t.items[i] if isinstance(t, Tup) else t.args[i]
    return t


def compared(st, name):
    """Whether the symbol is only compared with texts on this path."""
    x = T("sym", name)
    return all(not contains(f, x) or f.op in ("const", "eq") and x in f.args for f in st.facts if isinstance(f, T))


def replaced(t, path, value):
    if not path:
        return value
    if isinstance(t, Tup):
        return Tup(replaced(x, path[1:], value) if i == path[0] else x for i, x in enumerate(t.items))
    return T(t.op, *[replaced(x, path[1:], value) if i == path[0] else x for i, x in enumerate(t.args)])


class Tamper:
    """probes.tamper(realm): change the n-th header of all stored texts."""

    def __init__(self, n, value):
        self.n, self.value, self.what = n, value, None

    def __call__(self, eng, st, recv, args, kw, node):
        key = ("objects", plain(args[0]))
        store = dict(st.glob.get(key, {}))
        found = [(h, p, what) for h in sorted(store) if store[h][0] == "blob" and not isinstance(store[h][1], tuple)
                 for p, what in sorted(set(headers(store[h][1])))]
        if self.n < len(found):
            h, p, what = found[self.n]
            self.what = what
            old = at(store[h][1], p)
            value = None
            if self.value:
                value = Const(self.value(old.v) if callable(self.value) else self.value[what])
                value = Const(old.v + "1") if value == old else value
            else:       # any text but the present one
                value = sym(st, f"other_{what}", "str", True)
                st.facts[eng.eq_term(value, old)] = False
            store[h] = ("blob", replaced(store[h][1], p, value))
            st.glob[key] = store
        return [(st, NONE)]


# values that are tried one by one if a header is not just compared
OTHER = ({"type": "SomethingElse", "version": "1.0"}, {"type": "Meta", "version": "2.1"}, {"type": "MetadataInstance", "version": "20"},
         {"type": "VersionList", "version": "2.0.0"}, {"type": "Reference", "version": "2"},
         lambda old: old + "1", lambda old: old[:-1], lambda old: old.lower() if old.lower() != old else old + "a")
REFERENCES = ("Metadata", "Text", "MetadataRootRecord", "MTreeNode", "VersionList", "TreeVersionList", "UUIDSet")


def check_c02(ctx):
    ctx.rule("for all headers in the stored version of all kinds of objects: if the class name or the format version is another "
             "one, loading raises; references to other classes are refused; a failing load leaves the object unloaded, with "
             "its reference and saved state, and a repeated load is complete")
    count = 0
    for kind in KINDS + MORE[:1]:
        n = 0
        while n < 60:
            tamper = Tamper(n, None)
            text = fill(kind, "x = {create}\nref = x.write_out(a)\nrealm = a\nprobes.tamper(a)\ny = {load}\n"
                        "{see}('got', 0, y)\nprobes.done()")
            run = Run(ctx, text, hooks={"ext probes.tamper": tamper})
            outs = run.paths()
            if tamper.what is None:
                break
            n += 1
            if run.store.unknown or outs is None:
                ctx.unknown("foreign", kind.name, str(run.store.unknown[:1]))
                continue
            count += 1
            if any(probes(s, "done") and not compared(s, f"other_{tamper.what}") for s, v in outs):
                outs = [o for value in OTHER for o in
                        Run(ctx, text, hooks={"ext probes.tamper": Tamper(n - 1, value)}).paths() or ()]
            for s, v in outs:
                ctx.check(not probes(s, "done"), "foreign", kind.name,
                          f"data with another {tamper.what} (header {n}) are loaded", None, s, f"{tamper.what} {n}")
        for cls in REFERENCES:
            real = "MTreeNode" if kind.name[-4:] == "Tree" else kind.name
            if cls == real:
                continue
            text = fill(kind, f"x = {{create}}\nref = Reference('{cls}', x.write_out(a).location)\nrealm = a\n"
                        "y = {load}\n{see}('got', 0, y)\nprobes.done()")
            run = Run(ctx, text, imports=IMPORT)
            for s, v in run.paths() or ():
                ctx.check(not probes(s, "done"), "foreign", kind.name, f"loaded from a reference to {cls}", None, s, cls)
    for kind in KINDS:
        text = fill(kind, """x = {create}
{see}('want', 0, x)
ref = x.write_out(a)
realm = a
y = {load}
probes.arm(True)
try:
    {see}('first', 0, y)
except Exception:
    probes.raised()
probes.arm(False)
probes.state(y.is_saved_on(a))
{see}('got', 0, y)
""")
        count += judge(ctx, Run(ctx, text, fail=fail_once, hooks={"ext probes.arm": arm}), kind.name, "failing load", (
            ("want", "got", "the repeated load is not complete"),),
            expect("state", [True], "the object is not regarded as saved after a failing load"), "repeat", failing=True)
    if not count:
        raise BrokenAnchor("nothing was loaded")


# -- C34 ------------------------------------------------------------------------
class Age:
    """probes.age(realm): give all stored references the form that earlier releases wrote."""

    def __init__(self, names, fields):
        self.names, self.fields, self.count = names, fields, 0

    def __call__(self, eng, st, recv, args, kw, node):
        key = ("objects", plain(args[0]))
        st.glob[key] = {h: (kind, self.old(content) if kind == "blob" else content) for h, (kind, content) in st.glob.get(key, {}).items()}
        return [(st, NONE)]

    def old(self, t, name=None):
        if isinstance(t, Tup):
            return Tup(self.old(x, name) for x in t.items)
        if not isinstance(t, T):
            return t
        segs = {x.args[0].v: x.args[1] for x in t.args if isinstance(x, T) and x.op == "seg" and isinstance(x.args[0], Const)}
        if "class_name" in segs and "location" in segs:
            more = [T("seg", Const(k), Const(v), *next(x for x in t.args if isinstance(x, T) and x.op == "seg").args[2:])
                    for k, v in self.fields]
            if segs["class_name"] == Const("MTreeNode") and self.names and name in ("file_tree", "dataset_tree"):
                self.count += 1
                t = T(t.op, *[T("seg", x.args[0], Const({"file_tree": "FileTree", "dataset_tree": "DatasetTree"}[name]), *x.args[2:])
                              if isinstance(x, T) and x.op == "seg" and x.args[0] == Const("class_name") else x for x in t.args])
            self.count += len(more)
            return T(t.op, *t.args, *more)
        if t.op == "seg" and isinstance(t.args[0], Const):
            name = t.args[0].v
        return T(t.op, *[self.old(x, name) for x in t.args])


FIELDS = (("mapper_family", "git"), ("realm", "/somewhere/else"))


def check_c34(ctx):
    ctx.rule("objects whose stored references have the names of the tree classes or the additional fields of earlier releases are read "
             "completely, from the realm of the object, count as saved, can be copied, changed and saved")
    count = 0
    for kind in KINDS + MORE[:3]:
        for how, names, fields in (("old class names", True, ()), ("old fields", False, FIELDS), ("both", True, FIELDS)):
            age = Age(names, fields)
            text = fill(kind, """x = {create}
{see}('want', 0, x)
ref = x.write_out(a)
realm = a
probes.age(a)
y = {load}
{see}('got', 0, y)
probes.saved(y.is_saved_on(a))
z = {load}
c = z.deepcopy(new_destination=b)
{see}('copied', 0, c)
{change x}
{see}('want2', 0, x)
{change y}
probes.changed(y.is_saved_on(a))
ref = y.write_out(a)
v = {load}
{see}('got2', 0, v)
""")
            run = Run(ctx, text, hooks={"ext probes.age": age})
            n = judge(ctx, run, kind.name, f"{how}, {kind.create}", (
                ("want", "got", "the object is not read completely"), ("want", "copied", "the copy differs"),
                ("want2", "got2", "the object that was changed and saved differs")),
                all_of(expect("saved", [True], "the object does not count as saved"), expect("changed", [False], "the changed object counts as saved")),
                "old-form")
            count += n if age.count else 0
        if kind.name[-4:] == "Tree":
            text = fill(kind, f"""x = {{create}}
{{see}}('want', 0, x)
ref = Reference('{kind.name}', x.write_out(a).location)
realm = a
y = {{load}}
{{see}}('got', 0, y)
probes.saved(y.is_saved_on(a))
n = MTreeNode(type(x)().mtree.leaf_class, a, Reference('{kind.name}', x.reference.location))
probes.same(sorted(str(p) for p, e in n.get_paths_recursive()) == sorted(str(p) for p, e in x.mtree.get_paths_recursive()))
{{change y}}
{{see}}('want2', 0, y)
ref = y.write_out(a)
z = {{load}}
{{see}}('got2', 0, z)
""")
            count += judge(ctx, Run(ctx, text, imports=IMPORT), kind.name, f"reference to the class {kind.name}", (
                ("want", "got", "the object is not read completely"), ("want2", "got2", "the object that was changed and saved differs")),
                all_of(expect("saved", [True], "the object does not count as saved"), expect("same", [True], "the nodes differ")), "old-form")
    if not count:
        raise BrokenAnchor("no object with old references analysed")


# -- C26 ------------------------------------------------------------------------
CONF = ("ExtractorConfiguration('1', {})", "ExtractorConfiguration('2', {})", "ExtractorConfiguration('1', {'a': 1})",
        "ExtractorConfiguration('1', {'a': 2})", "ExtractorConfiguration('1', {'a': 1, 'b': 1})",
        "ExtractorConfiguration('1', {'a': [1, {'c': 1}]})", "ExtractorConfiguration('1', {'a': [1, {'c': 2}]})",
        "ExtractorConfiguration(' 1', {})", "ExtractorConfiguration('1.0', {})", "ExtractorConfiguration('', {})",
        "ExtractorConfiguration('1', {'A': 1})", "ExtractorConfiguration('1', {'a': '1'})", "ExtractorConfiguration('1', {'a': None})",
        "ExtractorConfiguration('1', {'a': [{'c': 1}, 1]})", "ExtractorConfiguration('1', {'a': []})")


def instance(t="1.5", a="'A'", e="'m'", c="ExtractorConfiguration('1', {})", m="{'k': [1]}"):
    return f"MetadataInstance({t}, {a}, {e}, {c}, {m})"


INST = (instance(), instance(t="2.5"), instance(t="0"), instance(a="'B'"), instance(e="'n'"), instance(c=CONF[1]),
        instance(c=CONF[2]), instance(m="{'k': [2]}"), instance(m="{'k': [1], 'l': 1}"), instance(m="{}"), instance(m="[]"),
        instance(m="None"), instance(a="'a'"), instance(e="'m '"), instance(t="None"))


def runs(*items):
    return "with_runs([" + ", ".join(f"({n!r}, {t}, {c})" for n, t, c in items) + "])"


META = ("Metadata()", runs(("a", 1, CONF[0])), runs(("b", 1, CONF[0])), runs(("a", 2, CONF[0])), runs(("a", 1, CONF[1])),
        runs(("a", 1, CONF[0]), ("a", 1, CONF[1])), runs(("a", 1, CONF[0]), ("b", 1, CONF[0])),
        runs(("a", 1, CONF[0]), ("a", 2, CONF[1])), runs(("a", 2, CONF[0]), ("a", 1, CONF[1])))
SAME = ((runs(("a", 1, CONF[0]), ("a", 2, CONF[1])), runs(("a", 2, CONF[1]), ("a", 1, CONF[0]))),
        (runs(("a", 1, CONF[0]), ("b", 2, CONF[1])), runs(("b", 2, CONF[1]), ("a", 1, CONF[0]))),
        (runs(("a", 1, CONF[0])), runs(("a", 5, CONF[0]), ("a", 1, CONF[0]))),
        (runs(("a", 1, CONF[0])), "loaded(a, " + runs(("a", 1, CONF[0])) + ")"),
        ("loaded(a, " + runs(("a", 1, CONF[2]), ("b", 2, CONF[5])) + ")", runs(("b", 2, CONF[5]), ("a", 1, CONF[2]))),
        (f"MetadataInstanceSet([{instance()}, {instance(c=CONF[1])}])", f"MetadataInstanceSet([{instance(c=CONF[1])}, {instance()}])"),
        ("LocalGitMetadataSource(Path('/x'), 'ab\\n')", "LocalGitMetadataSource(Path('/x'), 'ab')"))
GROUPS = (
    ("ExtractorConfiguration", CONF), ("MetadataInstance", INST),
    ("MetadataInstanceSet", ("MetadataInstanceSet()",) + tuple(f"MetadataInstanceSet([{i}])" for i in INST) + (
        f"MetadataInstanceSet([{INST[0]}, {INST[5]}])", f"MetadataInstanceSet([{INST[0]}, {INST[5]}, {INST[6]}])",
        f"MetadataInstanceSet([{INST[1]}, {INST[5]}])")),
    ("Metadata", META),
    ("Reference", ("Reference('A', 'x')", "Reference('A', 'y')", "Reference('A', 'X')", "Reference('A', 'x ')", "Reference('a', 'x')", "Reference('B', 'x')", "Reference('A')",
                   "Reference.get_none_reference('A')", "Reference.get_none_reference('B')", "Reference('B')")),
    ("MetadataSource", ("LocalGitMetadataSource(Path('/x'), 'ab')", "LocalGitMetadataSource(Path('/x'), 'cd')",
                        "LocalGitMetadataSource(Path('/y'), 'ab')", "ImmediateMetadataSource({'a': 1})",
                        "ImmediateMetadataSource({'a': 2})", "ImmediateMetadataSource({})",
                        "ImmediateMetadataSource({'a': 1, 'b': [1]})")),
    ("MetadataPath", ("MetadataPath('')", "MetadataPath('a')", "MetadataPath('a/b')", "MetadataPath('b')", "MetadataPath('A')", "MetadataPath(' a')",
                     "MetadataPath('a/a')", "MetadataPath('a b')", "MetadataPath('a/../b')")),
)
HASHED = tuple((x, x) for x in CONF) + (
    ("ExtractorConfiguration('1', {'a': 1, 'b': [2], 'c': {}})", "ExtractorConfiguration('1', {'c': {}, 'b': [2], 'a': 1})"),
    (CONF[5], f"ExtractorConfiguration.from_json_str({CONF[5]}.to_json_str())"))
MAKE = '''
def with_runs(items):
    m = Metadata()
    for name, t, c in items:
        m.add_extractor_run(t, name, "A", "m", c, {"k": [t]})
    return m


def loaded(realm, m):
    return Metadata(realm, m.write_out(realm))
'''


def check_c26(ctx):
    ctx.rule("for enumerated values of all classes that define equality: two values are equal exactly if they were built from "
             "the same content, in whatever order and whether they are in memory or loaded; == and != are consistent")
    count = 0
    for name, group in GROUPS:
        text = "".join(f"probes.eq({i}, {j}, {x} == {y}, {x} != {y})\n" for i, x in enumerate(group)
                       for j, y in enumerate(group))
        count += equal(ctx, name, group, text, lambda i, j: i == j)
    for x, y in SAME:
        name = x.split("(")[0].replace("with_runs", "Metadata").replace("loaded", "Metadata")
        text = f"probes.eq(0, 1, {x} == {y}, {x} != {y})\nprobes.eq(1, 0, {y} == {x}, {y} != {x})\n"
        count += equal(ctx, name, (x, y), text, lambda i, j: True)
    for i, x in enumerate(META[:5]):
        for j, y in enumerate(META[:5]):
            count += equal(ctx, "Metadata", {i: "loaded " + x, j: y}, f"probes.eq({i}, {j}, loaded(a, {x}) == {y}, {y} != loaded(a, {x}))",
                           lambda i, j: i == j)
    for x, y in HASHED:
        run = Run(ctx, f"probes.hashes(hash({x}), hash({y}))\n", imports=IMPORT + MAKE)
        for s, v in run.paths() or ():
            if isinstance(v, Exc):
                ctx.bad("hash", "ExtractorConfiguration", f"the hash value of {x} is not available: {v!r}", v.loc, s, x)
                continue
            for h1, h2 in probes(s, "hashes"):
                count += 1
                ctx.check(run.eng.decide_eq(s, h1, h2), "hash", "ExtractorConfiguration",
                          f"{x} and {y} are equal, but their hash values are {h1} and {h2}", None, s, f"{x} and {y}")
    if not count:
        raise BrokenAnchor("no comparison analysed")


def equal(ctx, name, group, text, want):
    run = Run(ctx, text, imports=IMPORT + MAKE)
    count = 0
    outs = run.paths() or ()
    results = {}
    for s, v in outs:
        if isinstance(v, Exc):
            if len(outs) == 1:
                ctx.bad("equality", name, f"{list(group)[:2]}: raises {v!r}", v.loc, s)
            continue
        for i, j, eq, ne in probes(s, "eq"):
            results.setdefault((i.v, j.v), set()).add((eq, ne))
    for (i, j), found in results.items():
        # the programs have no input: where there are several results, the comparison was not decided
        eq, ne = next(iter(found))
        if len(found) > 1 or not (isinstance(eq, Const) and isinstance(ne, Const)):
            ctx.unknown("equality", name, f"{group[i]} == {group[j]}: {sorted(found, key=repr)[:2]}")
            continue
        count += 1
        w = want(i, j)
        ctx.check(eq.v == w and ne.v == (not w), "equality", name,
                  f"{group[i]} {'is not equal to' if w else 'equals'} {group[j]} (==: {eq.v}, !=: {ne.v})", None, outs[0][0],
                  f"{group[i]} and {group[j]}")
    return count


# -- C28 ------------------------------------------------------------------------
EMPTY = (
    ("FileTree", "FileTree()"),
    ("FileTree without elements", "t = FileTree()\nt.add_metadata(MetadataPath('a/b'), new_metadata(stamp, content))\n"
     "t.mtree.remove_child_at(MetadataPath('a/b'))"),
    ("DatasetTree", "DatasetTree()"),
    ("DatasetTree without elements", "t = small_datasets('v', stamp, content)\nt.delete_subtree(MetadataPath('sub/ds'))"),
    ("MetadataRootRecord", "t = MetadataRootRecord(UUID(int=1), 'v', None, None)"),
    ("MetadataRootRecord with empty parts", "t = MetadataRootRecord(UUID(int=1), 'v', Metadata(), FileTree())"),
    ("Metadata", "t = Metadata()"),
    ("TreeVersionList", "t = TreeVersionList()\nt.set_dataset_tree('v', 't', MetadataPath('p'), DatasetTree())\n"
     "t.set_dataset_tree('w', 't', MetadataPath('p'), small_datasets('w', stamp, content))"),
    ("VersionList", "t = VersionList()\nt.set_versioned_element('v', 't', MetadataPath('p'), "
     "MetadataRootRecord(UUID(int=1), 'v', None, FileTree()))"),
    ("DatasetTree with empty records", "t = DatasetTree()\nt.add_dataset(MetadataPath(''), "
     "MetadataRootRecord(UUID(int=1), 'v', None, None))\nt.add_dataset(MetadataPath('s/t'), "
     "MetadataRootRecord(UUID(int=2), 'v', Metadata(), FileTree()))"),
    ("UUIDSet", "t = UUIDSet()\nt.set_version_list(UUID(int=1), VersionList())"),
)


def check_c28(ctx):
    ctx.rule("programs that save, load, copy and flush empty objects and objects with empty parts: the marker of empty objects "
             "is never an argument of git or an entry of a tree; empty objects are read back as empty or absent")
    count = 0
    for label, make in EMPTY:
        name = label.split(" ")[0]
        kind = next(k for k in KINDS if k.name == name)
        if "\n" not in make and not make.startswith("t = "):
            make = "t = " + make
        text = fill(kind, make + """
{see}('want', 0, t)
ref = t.write_out(a)
flush_object_references(a)
realm = a
y = {load}
{see}('got', 0, y)
c = y.deepcopy(new_destination=b)
realm = b
ref = c.reference
z = {load}
{see}('copy', 0, z)
z.write_out(b, force_write=True)
ref = z.reference
z = {load}
{see}('again', 0, z)
flush_object_references(b)
""")

        def marker(run, s):
            for e in s.events():
                if e.kind != "git":
                    continue
                if any("*None*" in repr(a) for a in e.args):
                    return f"git {e.name} is called with the marker of empty objects"
                if e.name == "mktree" and "*None*" in repr(e.extra["stdin"]):
                    return "the marker of empty objects is stored in a tree"
        count += judge(ctx, Run(ctx, text), name, label, (
            ("want", "got", "an empty object is read back as"), ("want", "copy", "the copy of an empty object is"),
            ("want", "again", "an empty object that was saved again is")), marker, "empty")
    if not count:
        raise BrokenAnchor("no empty object analysed")


# -- C30 ------------------------------------------------------------------------
def check_c30(ctx):
    ctx.rule("for all classes, load states and ways to leave the block: within ensure_mapped the content is available, after it "
             "the load state is the one before; unsaved modifications are kept")
    count = 0
    for kind in KINDS:
        for start, setup in STARTS + (("object in memory", "x = {create}"),):
            for how, body in (("end", "pass"), ("exception", "raise KeyError()"), ("return", "return_value()"),
                              ("saved modification", "{change x}\n        x.write_out(a)"), ("nested", "nested"),
                              ("modification", "{change x}"), ("modification and exception", "{change x}\n        raise KeyError()")):
                if how == "return":
                    continue
                if "read_in" in kind.change:
                    body = body.replace("{change x}", kind.change.replace("{x}", "x").replace("\n", "\n        "))
                if body == "nested":
                    body = "with ensure_mapped(x) as z:\n            probes.inner({mapped x}, z is x)\n        probes.inner({mapped x}, True)"
                text = fill(kind, setup + """
o = {create}
""" + ("{change o}\n" if "modification" in how else "") + """{see}('want', 0, o)
probes.before({mapped x}, x.is_saved_on(a))
try:
    with ensure_mapped(x) as y:
        probes.inside({mapped x}, y is x)
        """ + body + """
    probes.left()
except KeyError:
    probes.raised()
except ValueError:
    probes.refused()
probes.after({mapped x}, x.is_saved_on(a))
{see}('got', 0, x)
""")

                def state(run, s):
                    before, after = values(s, "before"), values(s, "after")
                    if before is None or after is None or values(s, "inside") is None:
                        return False
                    if values(s, "inside") != [True, True]:
                        return "the object is not loaded within the block"
                    for i in probes(s, "inner"):
                        if i[0] == FALSE or i[1] == FALSE:
                            return "a nested block unloads the object"
                    unsaved = how.startswith("modification")
                    if after[0] != (before[0] or unsaved):
                        return f"loaded before the block: {before[0]}, after it: {after[0]}"
                    saved = False if unsaved else True if how == "saved modification" else before[1]
                    if after[1] != saved:
                        return f"saved after the block: {after[1]}"
                    if "exception" in how and probes(s, "left"):
                        return "the exception is swallowed"
                    if "exception" not in how and probes(s, "raised"):
                        return "an exception is raised"
                    if how not in ("modification", "modification and exception") and probes(s, "refused"):
                        return "leaving the block raises"
                count += judge(ctx, Run(ctx, text, imports=IMPORT), kind.name, f"{start}, {how}", (
                    ("want", "got", "the content after the block differs"),), state, "block")
    count += empty_blocks(ctx)
    if not count:
        raise BrokenAnchor("no block analysed")


def empty_blocks(ctx):
    """Temporary loading of empty objects, in memory, saved, and loaded from their storage."""
    count = 0
    for label, make in EMPTY:
        name = label.split(" ")[0]
        kind = next(k for k in KINDS if k.name == name)
        make = make if "t = " in make else "t = " + make
        for start, setup in (("in memory", "x = t"), ("saved", "t.write_out(a)\nx = t"),
                             ("unloaded", "ref = t.write_out(a)\nrealm = a\nx = {load}"),
                             ("loaded", "ref = t.write_out(a)\nrealm = a\nx = {load}\nx.read_in()"),
                             ("purged", "t.write_out(a)\nt.purge()\nx = t")):
            for how in ("end", "exception"):
                text = fill(kind, make + "\n{see}('want', 0, t)\n" + setup + """
probes.before({mapped x}, x.is_saved_on(a))
try:
    with ensure_mapped(x) as y:
        probes.inside({mapped x}, y is x)
        """ + ("pass" if how == "end" else "raise KeyError()") + """
    probes.left()
except KeyError:
    probes.raised()
probes.after({mapped x}, x.is_saved_on(a))
{see}('got', 0, x)
""")

                def state(run, s):
                    before, after, inside = values(s, "before"), values(s, "after"), values(s, "inside")
                    if None in (before, after, inside):
                        return False
                    if inside != [True, True]:
                        return "the object is not loaded within the block"
                    if after != before:
                        return f"loaded and saved before the block: {before}, after it: {after}"
                    if bool(probes(s, "left")) != (how == "end"):
                        return "the exception is swallowed" if how != "end" else "an exception is raised"
                count += judge(ctx, Run(ctx, text, imports=IMPORT), kind.name, f"{label}, {start}, {how}", (
                    ("want", "got", "the content after the block differs"),), state, "block")
    return count


# -- C33 ------------------------------------------------------------------------
def content_rows(v):
    """Keys of a frozen dictionary."""
    return {repr(x.args[0]) for x in v.args[1:]} if isinstance(v, T) and v.op == "fz" and v.args[0] == "dict" else None


def check_c33(ctx):
    ctx.rule("metadata sources: writing and copying give exactly the content of the source, a copy is complete in its new "
             "repository under the returned id, failures raise; sources survive their JSON form; other classes, versions and "
             "unknown types give no source")
    count = 0
    where = "LocalGitMetadataSource"
    text = """ref = git_save_str(a, content)
s = LocalGitMetadataSource(Path(a), ref + '\\n')
probes.before(s.object_reference == ref, s.git_repository_path == Path(a))
probes.arm(True)
r = s.copy_object_to(Path(b))
s.write_object_to(FD)
probes.arm(False)
probes.copied(r == ref)
probes.forget(a)
probes.content(git_load_str(b, r))
"""
    for fail in (None, fail_once):
        run = Run(ctx, text.replace("FD", "stamp"), fail=fail, imports=IMPORT, hooks={"ext probes.arm": arm})
        for s, v in run.paths() or ():
            if run.store.unknown:
                ctx.unknown("source", where, str(run.store.unknown[:1]))
                break
            if s.glob.get("failed"):
                count += 1
                ctx.check(isinstance(v, Exc) and not probes(s, "copied"), "source", where, f"git {s.glob['failed']} fails, but nothing is raised", None, s,
                          "failing git commands")
                continue
            if isinstance(v, Exc):
                ctx.bad("source", where, f"copying raises {v!r}", v.loc, s)
                continue
            count += 1
            got = probes(s, "content")
            ctx.check(bool(got) and text_of(got[0][0]) == run.content, "source", where,
                      f"the copied content is {got}", None, s, "content of the copy")
            for name in ("before", "copied"):
                vals = values(s, name)
                ctx.check(None if vals is None else all(x is True for x in vals), "source", where, f"{name}: {vals}", None, s, name)
            shown = [e for e in s.events() if e.kind == "git" and "stdout" in (e.extra or {})]
            ctx.check(len(shown) == 1 and plain(shown[0].recv) == run.a and shown[0].extra["stdout"] == run.stamp
                      and Const(object_id("blob", run.content)) in [plain(x) for x in shown[0].args]
                      and shown[0].name == "cat-file", "source", where,
                      f"the object is not written to the file descriptor: {shown[:2]}", None, s, "writing to a descriptor")
    for name in ("HEAD:Dir/Some File.TXT", "Tag^{blob}", "refs/heads/Main:a"):
        run = Run(ctx, f"""s = LocalGitMetadataSource(Path(a), {' ' + name + chr(10)!r})
for to in (0, 1):
    try:
        s.copy_object_to(Path(b)) if to else s.write_object_to(stamp)
    except Exception:
        pass
""", imports=IMPORT)
        for s, v in run.paths() or ():
            for e in s.events():
                if e.kind == "git" and e.name in ("cat-file", "show"):
                    args = [plain(x).v for x in e.args if isinstance(plain(x), Const)]
                    ctx.check(None if len(args) != len(e.args) else name in args and plain(e.recv) == run.a, "source", where,
                              f"object {name} is requested as {args}", e.loc, s, "names of objects")
    text = """s = ImmediateMetadataSource({'a': [content]})
c = s.deepcopy()
probes.copy(c == s, c is s, c.content is s.content, c.content['a'] is s.content['a'])
for x in (s, LocalGitMetadataSource(Path('/x y/z'), 'abc'), LocalGitMetadataSource(Path('x/../y'), 'HEAD:Dir/A b'), ImmediateMetadataSource([]),
          ImmediateMetadataSource(0), ImmediateMetadataSource(''), ImmediateMetadataSource(None), ImmediateMetadataSource([None, False]),
          ImmediateMetadataSource({}), ImmediateMetadataSource({'a': {'b': None}})):
    y = MetadataSource.from_json_obj(x.to_json_obj())
    z = MetadataSource.from_json_str(x.to_json_str())
    probes.round(type(y) is type(x), y == x, type(z) is type(x), z == x)
"""
    run = Run(ctx, text, imports=IMPORT)
    outs = run.paths() or ()
    varying = {name for name in ("copy",) if len({repr(probes(s, name)) for s, v in outs}) > 1}
    for s, v in outs:
        if isinstance(v, Exc) and len(outs) > 1:
            continue
        if isinstance(v, Exc):
            ctx.bad("source", "MetadataSource", f"raises {v!r}", v.loc, s)
            continue
        count += 1
        vals = values(s, "copy")
        ctx.check(None if vals is None or "copy" in varying else vals == [True, False, False, False], "source", "ImmediateMetadataSource",
                  f"deep copy (equal, same, same content, same list): {vals}", None, s, "deep copy")
        for i, args in enumerate(probes(s, "round")):
            # results that depend on a path through the program are not known
            known = all(len(probes(o, "round")) > i and probes(o, "round")[i] == args for o, v in outs if not isinstance(v, Exc)) and not any(isinstance(x, T) for x in args)
            ctx.check(None if not known else all(x == TRUE for x in args), "source", "MetadataSource",
                      f"JSON form (type, equal, type, equal): {args}", None, s, "JSON form")
    run = Run(ctx, "s = ImmediateMetadataSource({'a': [content], 'b': None})\ns.write_object_to(stamp)\nprobes.end()\n", imports=IMPORT)
    for s, v in run.paths() or ():
        if isinstance(v, Exc):
            ctx.bad("source", "ImmediateMetadataSource", f"writing raises {v!r}", v.loc, s)
            continue
        count += 1
        out = [e for e in s.events() if e.kind == "call" and (e.recv == run.stamp or run.stamp in e.args)]
        texts = [e.args[0] if e.name == "json.dump" else e.args[0].args[0] if isinstance(e.args[0], T) and e.args[0].op == "json" else None
                 for e in out if e.args and e.name in ("json.dump", "write")]
        ctx.check(False if not out else None if len(texts) != len(out) or None in texts else
                  len(texts) == 1 and content_rows(texts[0]) == {repr(Const("a")), repr(Const("b"))},
                  "source", "ImmediateMetadataSource", f"the content is not written as JSON text: {out}", None, s, "writing")
    for make in ("LocalGitMetadataSource(Path('/x'), 'abc')", "ImmediateMetadataSource({'a': 1})"):
        for label, change in (("class", "j['@']['type'] = 'Other'"), ("version", "j['@']['version'] = '1.0'"),
                              ("no type", "del j[MetadataSource.TYPE_KEY]"), ("unknown type", "j[MetadataSource.TYPE_KEY] = 'Other'"),
                              ("no header", "del j['@']"),
                              ("no content", "for k in list(j):\n    if k not in ('@', MetadataSource.TYPE_KEY):\n        del j[k]")):
            run = Run(ctx, f"j = {make}.to_json_obj()\n{change}\nprobes.made(MetadataSource.from_json_obj(j))\n", imports=IMPORT)
            for s, v in run.paths() or ():
                made = probes(s, "made")
                count += 1
                ctx.check(isinstance(v, Exc) or bool(made) and made[0][0] == NONE, "source-refused", make.split("(")[0],
                          f"{label}: a source is read from other data", None, s, label)
    if not count:
        raise BrokenAnchor("no source analysed")
