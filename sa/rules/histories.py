"""Histories of operations on containers, compared with a model of the container (a mapping from keys to tags).

A history sets, changes and removes elements, and saves, purges, reloads, copies, unloads and reads in between.  Only the
first three change the model.  The program of a history is analysed, then every listing and every lookup in memory, after a
reload, and in a copy has to agree with the model."""
import random

from ..model import *
from ..scenario import probes
from .system import Run

HELPERS = '''
def tagged(tag):
    m = Metadata()
    m.add_extractor_run(0.5, tag, 'a', 'm', ExtractorConfiguration('1', {}), {'tag': tag})
    return m


def tag(m, t):
    m.add_extractor_run(0.5, t, 'a', 'm', ExtractorConfiguration('1', {}), {'tag': t})


def record(tag):
    f = FileTree()
    f.add_metadata(MetadataPath('f/g'), tagged(tag))
    return MetadataRootRecord(UUID(int=1), 'v', tagged(tag), f)


def datasets(tag):
    d = DatasetTree()
    d.add_dataset(MetadataPath('d/e'), record(tag))
    return d


def versions(tag):
    v = VersionList()
    v.set_versioned_element(tag, '1.50: ' + tag, MetadataPath('p'), record(tag))
    return v


def tags(stage, key, m):
    for t in m.extractors:
        probes.tag(stage, key, t)


def record_tags(stage, key, r):
    tags(stage, key, r.get_dataset_level_metadata())
    for p, m in r.get_file_tree().get_paths_recursive():
        probes.inner(stage, key, str(p))
'''


class Container:
    name = unset = unget = share = None
    replaces = False    # a change replaces the content
    removable = True
    inner = ()

    def lookup(self, i, k):
        """Look up a missing key."""
        return f"try:\n    {self.get(k)}\n    probes.found({i}, {k!r})\nexcept KeyError:\n    probes.missing({i}, {k!r})\n"

    def below(self, k, other):
        return k == other

    def nodes(self, i):
        return ""


class Files(Container):
    name, create, load = "FileTree", "FileTree()", "FileTree(None, {realm}, ref)"
    keys = ("a", "sub/b", "sub/c d", "sub/deep/e", "x/y/z")
    absent = ("q", "sub/q", "a/b", "sub/deep/q/r", "su", "sub/b/c")

    def set(self, k, t): return f"x.add_metadata(MetadataPath({k!r}), tagged({t!r}))"
    def change(self, k, t): return f"tag(x.get_metadata(MetadataPath({k!r})), {t!r})"
    def remove(self, k): return f"x.mtree.remove_child_at(MetadataPath({k!r}))"
    def get(self, k): return f"x.get_metadata(MetadataPath({k!r}))"
    def share(self, k, o, t): return f"x.add_metadata(MetadataPath({o!r}), {self.get(k)})"
    def unget(self, k, realm): return f"x.unget_metadata({self.get(k)}, {realm})"
    def list(self, i): return f"for p, m in x.get_paths_recursive():\n    probes.listed({i}, str(p))\n"
    def see(self, i, k): return f"tags({i}, {k!r}, {self.get(k)})\n"

    def lookup(self, i, k):
        return f"if {self.get(k)} is None:\n    probes.missing({i}, {k!r})\nelse:\n    probes.found({i}, {k!r})\n"

    def nodes(self, i):
        return (f"for p, m in x.get_paths_recursive(True):\n    probes.node({i}, str(p), isinstance(m, Metadata))\n")


class Datasets(Container):
    name, create, load = "DatasetTree", "DatasetTree()", "DatasetTree(None, {realm}, ref)"
    keys = ("", "sub", "sub/ds", "sub/ds/deep", " o/p ")
    absent = ("q", " o", "o/p", "sub/q", "sub/ds/deep/q", "s")
    inner = ("f/g",)

    def set(self, k, t): return f"x.add_dataset(MetadataPath({k!r}), record({t!r}))"
    def change(self, k, t): return f"tag({self.get(k)}.get_dataset_level_metadata(), {t!r})"
    def remove(self, k): return f"x.delete_subtree(MetadataPath({k!r}))" if k else None
    def below(self, k, other): return other == k or other.startswith(k + "/")
    def get(self, k): return f"x.get_metadata_root_record(MetadataPath({k!r}))"
    def share(self, k, o, t): return f"x.add_dataset(MetadataPath({o!r}), {self.get(k)})"
    def unget(self, k, realm): return f"r = {self.get(k)}\nr.write_out({realm})\nr.purge()"
    def list(self, i): return f"for p, r in x.dataset_paths:\n    probes.listed({i}, str(p))\n"
    def see(self, i, k): return f"probes.contained({i}, {k!r}, MetadataPath({k!r}) in x)\nrecord_tags({i}, {k!r}, {self.get(k)})\n"

    def lookup(self, i, k):
        return (f"probes.contained({i}, {k!r}, MetadataPath({k!r}) in x)\n"
                f"if {self.get(k)} is None:\n    probes.missing({i}, {k!r})\nelse:\n    probes.found({i}, {k!r})\n")


class Versions(Container):
    name, create, load = "VersionList", "VersionList()", "VersionList(None, {realm}, ref)"
    keys = (("v1", ""), ("v1", "p"), ("v2", "p"), ("v2 ", " p/q "), ("v3", ""))
    absent = (("v1", "q"), ("v2", ""), ("v4", "p"), ("v3", "p"), ("v2", "p/q"), ("v2 ", "p/q"))
    removable = False
    inner = ("f/g",)
    make, setter, getter, ungetter = "record", "set_versioned_element", "get_versioned_element", "unget_versioned_element"
    metadata = ".get_dataset_level_metadata()"

    def set(self, k, t): return f"x.{self.setter}({k[0]!r}, '1.50: {t}', MetadataPath({k[1]!r}), {self.make}({t!r}))"
    def change(self, k, t): return f"tag({self.get(k)}[2]{self.metadata}, {t!r})"
    def get(self, k): return f"x.{self.getter}({k[0]!r}, MetadataPath({k[1]!r}))"
    def share(self, k, o, t): return f"x.{self.setter}({o[0]!r}, '1.50: {t}', MetadataPath({o[1]!r}), {self.get(k)}[2])"
    def unget(self, k, realm): return f"x.{self.ungetter}({k[0]!r}, MetadataPath({k[1]!r}), {realm})"

    def list(self, i):
        return (f"for v, (t, p, e) in x.versioned_elements:\n    probes.listed({i}, (v, str(p)))\n    probes.time({i}, (v, str(p)), t)\n"
                f"for v, p in x.versions_and_prefix_paths():\n    probes.again({i}, (v, str(p)))\n")

    def see(self, i, k):
        return (f"t, p, e = {self.get(k)}\nprobes.time({i}, {k!r}, t)\nprobes.prefix({i}, {k!r}, str(p))\n{self.content(i, k)}"
                f"for t, p, e in x.{self.getter}s({k[0]!r}):\n    probes.of_version({i}, {k[0]!r}, str(p), t)\n")

    def content(self, i, k): return f"record_tags({i}, {k!r}, e)\n"


class TreeVersions(Versions):
    name, create, load = "TreeVersionList", "TreeVersionList()", "TreeVersionList(None, {realm}, ref)"
    make, setter, getter, ungetter = "datasets", "set_dataset_tree", "get_dataset_tree", "unget_dataset_tree"
    metadata = ".get_metadata_root_record(MetadataPath('d/e')).get_dataset_level_metadata()"

    def content(self, i, k):
        return f"for q, r in e.dataset_paths:\n    probes.dataset({i}, {k!r}, str(q))\n    record_tags({i}, {k!r}, r)\n"


class Uuids(Container):
    name, create, load = "UUIDSet", "UUIDSet()", "UUIDSet(None, {realm}, ref)"
    keys, absent = (1, 2, 3), (4,)
    removable = False

    def set(self, k, t): return f"x.set_version_list(UUID(int={k}), versions({t!r}))"
    def change(self, k, t): return f"{self.get(k)}.set_versioned_element({t!r}, '1.50: {t}', MetadataPath('p'), record({t!r}))"
    def get(self, k): return f"x.get_version_list(UUID(int={k}))"
    def share(self, k, o, t): return f"x.set_version_list(UUID(int={o}), {self.get(k)})"
    def unget(self, k, realm): return f"x.unget_version_list(UUID(int={k}))"
    def list(self, i): return "".join(f"probes.counted({i}, {k}, list(x.uuids()).count(UUID(int={k})))\n" for k in self.keys + self.absent)
    def see(self, i, k): return f"for v in {self.get(k)}.versions():\n    probes.tag({i}, {k}, v)\n"


class Runs(Container):
    """Runs of a metadata object, by extractor and configuration."""
    name, create, load = "Metadata", "Metadata()", "Metadata({realm}, ref)"
    keys = (("core", "1", 1), ("core", "1", "x"), ("core", "2", 1), ("annex", "1", 1), ("annex", "", None))
    absent = (("core", "3", 1), ("annex", "1", 2), ("nope", "1", 1), ("annex", "", "x"))
    removable = False
    replaces = True

    def conf(self, k): return f"ExtractorConfiguration({k[1]!r}, {{'n': {k[2]!r}, 'list': [{k[2]!r}]}})"
    def set(self, k, t): return f"x.add_extractor_run({t[1:]}, {k[0]!r}, 'author {t}', 'm', {self.conf(k)}, {{'tag': {t!r}}})"
    change = set
    def get(self, k): return f"x.extractor_runs_for_extractor({k[0]!r}).get_instance_for_configuration({self.conf(k)})"

    def list(self, i):
        key = "(name, {0}.version, {0}.parameter['n'])"
        return (f"for name, s in x.extractor_runs:\n    for m in s:\n        probes.listed({i}, {key.format('m.configuration')})\n"
                f"    for c in s.configurations:\n        probes.again({i}, {key.format('c')})\n")

    def see(self, i, k):
        return (f"probes.counted({i}, {k!r}, list(x.extractors).count({k[0]!r}))\nm = {self.get(k)}\nprobes.tag({i}, {k!r}, m.metadata_content['tag'])\n"
                f"probes.time({i}, {k!r}, '1.50: t' + str(m.time_stamp))\nprobes.prefix({i}, (0, m.author_name[7:]), m.metadata_content['tag'])\n"
                f"s = x.extractor_runs_for_extractor({k[0]!r})\nfor j, c in enumerate(s.configurations):\n    if c == {self.conf(k)}:\n"
                f"        probes.contained({i}, {k!r}, s.get_instance_for_configuration_index(j) == m)\n"
                f"probes.contained({i}, {k!r}, m in s.instances.values())\n")

    def lookup(self, i, k):
        return f"try:\n    {self.get(k)}\n    probes.found({i}, {k!r})\nexcept (LookupError, ValueError):\n    probes.missing({i}, {k!r})\n"


CONTAINERS = (Files(), Datasets(), Versions(), TreeVersions(), Uuids(), Runs())
SHORT = (
    # two keys, saved, one is replaced
    (("set", 0), ("set", 1), ("save",), ("set", 0), ("reload",), ("change", 1)),
    # changed after a purge, unloaded with changes
    (("set", 1), ("set", 2), ("purge",), ("change", 2), ("unget", 2), ("set", 0), ("get", 2)),
    # everything, then removed again
    (("set", 0), ("set", 1), ("set", 2), ("set", -1), ("save",), ("reload",), ("remove", 1), ("copy",), ("set", 1)),
    # changes of a copy
    (("set", 1), ("set", -1), ("copy",), ("change", -1), ("save",), ("set", 0), ("purge",), ("copy",)),
    # replaced twice
    (("set", 2), ("reload",), ("set", 2), ("set", 2), ("change", 2), ("list",), ("unget", 2), ("block",)),
)
SHARED = (
    (("set", 0), ("set", 1), ("share", 0, 2), ("save",)),
    (("set", 0), ("save",), ("share", 0, 2), ("list",), ("set", 1)),
    (("set", 0), ("set", 1), ("reload",), ("share", 1, 2), ("reload",), ("change", 1), ("share", 0, -1), ("copy",), ("change", 2)),
)
OPS = ("set", "set", "set", "change", "change", "remove", "save", "reload", "purge", "copy", "unget", "get", "list", "block")


def history(c, number):
    rng = random.Random(f"{c.name} {number}")
    return tuple((op, rng.randrange(len(c.keys))) for op in (rng.choice(OPS) for _ in range(rng.randrange(5, 10))))


class Program:
    """Text of a history and the expected content."""

    def __init__(self, c, ops):
        self.c, self.model, self.realm, self.n = c, {}, "a", 0
        self.stored, self.lines, self.label = set(), [f"x = {c.create}"], []
        for op, *rest in ops:
            if op == "share" and c.share:
                self.share(*[c.keys[i] for i in rest])
                self.label.append(f"share {[c.keys[i] for i in rest]}")
                continue
            k = c.keys[rest[0] % len(c.keys) if rest[0] >= 0 else rest[0]] if rest else None
            if op in ("change", "get", "unget", "remove") and k not in self.model:
                continue
            if op == "unget" and c.unget is None:
                continue
            if op == "remove" and not (c.removable and c.remove(k)):
                continue
            getattr(self, op)(k)
            self.label.append(f"{op} {k}" if op in ("set", "change", "get", "unget", "remove") else op)

    def add(self, text): self.lines.extend(text.splitlines())

    def tag(self):
        self.n += 1
        return f"t{self.n}"

    def set(self, k):
        if self.c.removable and k in self.model:
            # elements of trees are not replaced
            if any(o != k and self.c.below(k, o) for o in self.model) or not self.c.remove(k):
                return self.change(k)
            self.remove(k)
        t = self.tag()
        self.stored.discard(k)
        self.model[k] = (t, {t})
        self.add(self.c.set(k, t))

    def share(self, k, other):
        """The element that was set for k is set for another key, too."""
        if k in self.model and other not in self.model:
            self.stored.discard(other)
            self.model[other] = self.model[k]
            self.add(self.c.share(k, other, self.model[k][0]))

    def change(self, k):
        t = self.tag()
        self.model[k] = (t, {t}) if self.c.replaces else (self.model[k][0], self.model[k][1] | {t})
        self.add(self.c.change(k, t))

    def remove(self, k):
        self.model = {o: v for o, v in self.model.items() if not self.c.below(k, o)}
        self.add(self.c.remove(k))

    def save(self, k):
        self.stored = set(self.model)
        self.add(f"ref = x.write_out({self.realm})")

    def reload(self, k):
        self.save(k)
        self.add("x = " + self.c.load.replace("{realm}", self.realm))

    def purge(self, k):
        self.save(k)
        self.add("x.purge()")

    def copy(self, k):
        self.realm = "b" if self.realm == "a" else "a"
        self.stored = set(self.model)
        self.add(f"x = x.deepcopy(new_destination={self.realm})")

    def unget(self, k):
        if isinstance(self.c, Uuids) and k not in self.stored:
            self.save(k)      # version lists are saved where they were saved before
        self.add(self.c.unget(k, self.realm))

    def get(self, k): self.add(self.c.get(k))
    def list(self, k): self.add(self.c.list(9))
    def block(self, k): self.add("with ensure_mapped(x) as y:\n    pass")

    def text(self, lookups):
        c = self.c
        absent = tuple(k for k in c.keys if k not in self.model and not any(c.below(k, o) for o in self.model)) + c.absent

        def stage(i):
            self.add(c.list(i))
            if i:
                self.add(c.nodes(i))
            if lookups:
                for k in self.model:
                    self.add(c.see(i, k))
                for k in absent:
                    self.add(c.lookup(i, k))
                self.add(c.list(i + 4))
        stage(0)
        self.save(None)
        if lookups:
            for k in self.model:
                self.add(c.get(k))
            self.add(f"probes.saved(x.is_saved_on({self.realm}))")
        self.reload(None)
        stage(1)
        if lookups:
            self.add(f"probes.saved(x.is_saved_on({self.realm}))")
        self.copy(None)
        stage(2)
        self.absent = absent
        return "\n".join(self.lines)


def rows(s, name):
    """Argument lists of a probe as Python values, None if some are not known."""
    res = []
    for args in probes(s, name):
        row = tuple(value(x) for x in args)
        if ... in row:
            return None
        res.append(row)
    return res


def value(x):
    if isinstance(x, Const):
        return x.v
    if isinstance(x, Tup):
        v = tuple(value(i) for i in x.items)
        return ... if ... in v else v
    return ...


STAGES = ("in memory", "after a reload", "in a copy")


def agree(p, s, lookups):
    """None: agrees, False: not known, text: difference."""
    c, model = p.c, p.model
    got = {n: rows(s, n) for n in ("listed", "again", "node", "tag", "inner", "dataset", "time", "prefix", "of_version", "missing", "found", "contained",
                                   "saved", "counted")}
    unknown = [n for n, v in got.items() if v is None]
    keys = sorted(model, key=repr)
    for i, where in enumerate(STAGES):
        for j in (i, i + 4) if lookups else (i,):
            for n in ("listed", "again"):
                if got[n] is None or n == "again" and not isinstance(c, (Versions, Runs)) or isinstance(c, Uuids):
                    continue
                found = sorted((r[1] for r in got[n] if r[0] == j), key=repr)
                if found != keys:
                    return f"{where}, the listing is {found} instead of {keys}"
            for r in got["counted"] or ():
                if r[0] == j and r[2] != (r[1] in model):
                    return f"{where}, identifier {r[1]} is listed {r[2]} times"
        if got["node"] is not None and i and isinstance(c, Files):
            want = {(k, True) for k in model} | {("/".join(k.split("/")[:n]), False) for k in model for n in range(len(k.split("/")))} | {("", False)}
            found = sorted(r[1:] for r in got["node"] if r[0] == i)
            if found != sorted(want):
                return f"{where}, the listing with intermediate nodes is {found} instead of {sorted(want)}"
        if got["time"] is not None:
            for r in got["time"]:
                if r[0] in (i, i + 4) and r[1] in model and r[2] != "1.50: " + model[r[1]][0]:
                    return f"{where}, the time stamp of {r[1]} is {r[2]} instead of {'1.50: ' + model[r[1]][0]}"
        if not lookups:
            continue
        for k, (last, tags) in model.items():
            if got["tag"] is not None:
                found = sorted(r[2] for r in got["tag"] if r[:2] == (i, k))
                if found != sorted(tags):
                    return f"{where}, the element for {k!r} has the content {found} instead of {sorted(tags)}"
            if got["inner"] is not None and c.inner:
                found = [r[2] for r in got["inner"] if r[:2] == (i, k)]
                if found != ["f/g"]:
                    return f"{where}, the file tree of the element for {k!r} lists {found} instead of ['f/g']"
            if got["dataset"] is not None and isinstance(c, TreeVersions):
                found = [r[2] for r in got["dataset"] if r[:2] == (i, k)]
                if found != ["d/e"]:
                    return f"{where}, the dataset tree for {k!r} lists {found} instead of ['d/e']"
        for r in got["prefix"] or ():
            if r[0] == i and r[2] != r[1][1]:
                return f"{where}, the prefix path of {r[1]} is {r[2]!r}"
        if got["of_version"] is not None and isinstance(c, Versions):
            for v in {k[0] for k in model}:
                mine = {(k[1], "1.50: " + model[k][0]) for k in model if k[0] == v}
                found = sorted(r[2:] for r in got["of_version"] if r[:2] == (i, v))
                if found != sorted(list(mine) * len(mine)):
                    return f"{where}, the elements of version {v} are {found} instead of {len(mine)} times {sorted(mine)}"
        for r in got["found"] or ():
            if r[0] == i:
                return f"{where}, something is found for {r[1]!r}, which was never set or is removed"
        if got["missing"] is not None and got["found"] is not None and len([r for r in got["missing"] if r[0] == i]) != len(p.absent):
            return False
        for r in got["contained"] or ():
            if r[0] == i and r[2] != (r[1] in model):
                return f"{where}, {r[1]!r} is {'' if r[2] else 'not '}contained"
    for r in got["saved"] or ():
        if r[0] is False:
            return "an object counts as modified after lookups and listings"
    return False if unknown else None


UNLOADED = tuple((("set", 0), ("set", 1), *before, ("change", 1), ("unget", 1), *after)
                 for before in ((("save",),), (("reload",),), (("purge",),), (("copy",),), (("save",), ("unget", 1)))
                 for after in ((), (("change", 0), ("purge",), ("change", 1), ("unget", 0))))


def check(ctx, rule, lookups, histories=None, containers=CONTAINERS):
    ctx.rule("histories of containers (set, change, remove, save, purge, reload, copy, unload): " + (
        "lookups give what was set last for the key, and nothing for other keys" if lookups else
        "listings contain the keys of the elements that are set, each once"))
    count = 0
    more = 20 if ctx.tier == "thorough" else 5
    for c in containers:
        for ops in histories or SHORT + SHARED * bool(c.share) + tuple(history(c, n) for n in range(more)):
            p = Program(c, ops)
            run = Run(ctx, p.text(lookups), imports=f"from {PKG}.mappableobject import ensure_mapped\n" + HELPERS)
            outs = run.paths()
            label = ", ".join(p.label)
            if run.store.unknown or not outs:
                ctx.unknown(rule, c.name, f"{label}: {run.store.unknown[:1] or 'limit'}")
                continue
            count += 1
            bad = set()
            for s, v in outs:
                bad.add(f"raises {v!r}" if isinstance(v, Exc) else agree(p, s, lookups))
            # programs without inputs have one result
            if len(bad) > 1 or False in bad:
                ctx.unknown(rule, c.name, f"{label}: {len(bad)} results")
                continue
            bad = bad.pop()
            ctx.check(bad is None, rule, c.name, f"{label}: {bad}", None, outs[0][0], label)
    if not count:
        raise BrokenAnchor("no history analysed")


def more_c31(ctx):
    check(ctx, "history", True)


def more_c32(ctx):
    check(ctx, "history", False)


def more_c09(ctx):
    """Elements that are saved and unloaded by their container."""
    check(ctx, "unloading", True, UNLOADED)
