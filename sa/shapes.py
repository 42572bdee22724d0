"""Abstract instances of the model classes with explicitly enumerated content.

Loops over the content are unrolled by the engine.  All keys and all scalar
values are symbolic, keys of one container are pairwise different
(tree entries have constant names).
"""
from .values import ClsV, Const, FALSE, HObj, NONE, O, T, TRUE

KEYS = {"str", "UUID", "=MetadataPath"}


def sym(st, name, type_=None, truthy=None):
    t = T("sym", name)
    if type_:
        st.types[t] = type_
    if truthy is not None:
        st.facts[t] = truthy
    return t


def distinct(eng, st, terms):
    for i, a in enumerate(terms):
        for b in terms[i + 1:]:
            st.facts[eng.eq_term(a, b)] = False


def explicit_dict(st, entries, label="dict"):
    return st.alloc(HObj("dict", segs=tuple((k, v, (), False) for k, v in entries)), label)


def explicit_list(st, values, label="list"):
    return st.alloc(HObj("list", segs=tuple((v, (), False) for v in values)), label)


def explicit_set(st, values, label="set"):
    return st.alloc(HObj("set", segs=tuple((v, (), False) for v in values)), label)


def proxy(ctx, st, cls, label, mapped=None):
    """A file tree or dataset tree, with its tree node."""
    p = ctx.p
    leaf = "Metadata" if cls == "FileTree" else "MetadataRootRecord"
    attrs = dict(leaf_class=ClsV(p.cls(leaf)), leaf_class_name=Const(leaf))
    if mapped is not None:
        attrs["mapped"] = mapped
    node = ctx.obj(st, "MTreeNode", label + ".mtree", **attrs)
    return ctx.obj(st, cls, label, mtree=node)


def mappable(ctx, st, cls, label, mapped=None):
    p = ctx.p
    if p.is_subclass(p.cls(cls), "MTreeProxy"):
        return proxy(ctx, st, cls, label, mapped)
    attrs = {} if mapped is None else {"mapped": mapped}
    return ctx.obj(st, cls, label, **attrs)


class Shape:
    def __init__(self, obj, children, keys, container=None, label=""):
        self.obj = obj
        self.children = children      # sub-objects (heap references)
        self.keys = keys              # child -> key term(s)
        self.container = container    # attribute that holds the content
        self.label = label
        self.extra = {}


def instance_set(ctx, eng, st, label, n=2):
    """Metadata instances of one extractor with n configurations."""
    p = ctx.p
    confs, insts = [], []
    for i in range(n):
        c = ctx.obj(st, "ExtractorConfiguration", f"{label}.conf{i}")
        m = ctx.obj(st, "MetadataInstance", f"{label}.inst{i}", configuration=c)
        confs.append(c)
        insts.append(m)
    for i, a in enumerate(confs):
        for b in confs[i + 1:]:
            st.facts[eng.eq_term(T("attr", a, "version"), T("attr", b, "version"))] = False
            st.facts[eng.eq_term(a, b)] = False
    return ctx.obj(
        st, "MetadataInstanceSet", label, opaque=False,
        parameter_set=explicit_list(st, confs),
        _instances=explicit_dict(st, [(Const(i), m) for i, m in enumerate(insts)]))


NAMES = ("sub", "a b.txt", 'q"\\\u00fc')


def shapes(ctx, eng, st, cls, leaf=None, mapped=TRUE, names=NAMES):
    """Yield (state, Shape) for a class; content is a pair of entries at least."""
    p = ctx.p
    name = cls.name
    if p.is_subclass(cls, "MTreeNode"):
        for leaf_name in ([leaf] if leaf else ["Metadata", "MetadataRootRecord"]):
            s = st.copy()
            o = ctx.obj(s, cls, "node", mapped=mapped,
                        leaf_class=ClsV(p.cls(leaf_name)), leaf_class_name=Const(leaf_name))
            kids = [
                ctx.obj(s, cls, "subtree", leaf_class=ClsV(p.cls(leaf_name)), leaf_class_name=Const(leaf_name)),
                ctx.obj(s, leaf_name, "leaf"),
                ctx.obj(s, leaf_name, "leaf2")]
            keys = [Const(n) for n in names]
            s.update(o).attrs["child_nodes"] = explicit_dict(s, list(zip(keys, kids)))
            sh = Shape(o, kids, dict(zip(kids, keys)), "child_nodes", f"{name}({leaf_name})")
            yield s, sh
    elif p.is_subclass(cls, "UUIDSet"):
        s = st.copy()
        o = ctx.obj(s, cls, "uuidset", mapped=mapped)
        kids = [ctx.obj(s, "VersionList", f"versions{i}") for i in range(2)]
        keys = [sym(s, f"uuid{i}", "UUID", True) for i in range(2)]
        distinct(eng, s, keys)
        s.update(o).attrs["uuid_set"] = explicit_dict(s, list(zip(keys, kids)))
        yield s, Shape(o, kids, dict(zip(kids, keys)), "uuid_set", name)
    elif p.is_subclass(cls, "VersionList"):
        kinds = [("DatasetTree",) * 3] if p.is_subclass(cls, "TreeVersionList") else \
            [("MetadataRootRecord",) * 3, ("MetadataRootRecord", "DatasetTree", "DatasetTree")]
        for kind in kinds:
            s = st.copy()
            o = ctx.obj(s, cls, "versionlist", mapped=mapped)
            kids = [mappable(ctx, s, k, f"element{i}") for i, k in enumerate(kind)]
            versions = [sym(s, f"version{i}", "str", True) for i in range(2)]
            paths = [sym(s, f"prefix{i}", "=MetadataPath") for i in range(3)]
            distinct(eng, s, versions)
            distinct(eng, s, paths)
            stamps = [sym(s, f"time{i}", "str", True) for i in range(3)]
            recs = [
                ctx.obj(s, "VersionRecord", f"record{i}", opaque=False,
                        time_stamp=stamps[i], prefix_path=paths[i], element=kids[i])
                for i in range(3)]
            d = explicit_dict(s, [
                (versions[0], explicit_dict(s, [(paths[0], recs[0]), (paths[1], recs[1])])),
                (versions[1], explicit_dict(s, [(paths[2], recs[2])]))])
            s.update(o).attrs["version_set"] = d
            sh = Shape(o, kids, {k: (versions[i // 2], paths[i]) for i, k in enumerate(kids)}, "version_set", name)
            sh.extra = {"stamps": dict(zip(kids, stamps)), "records": dict(zip(kids, recs))}
            yield s, sh
    elif p.is_subclass(cls, "MetadataRootRecord"):
        for with_md in (True, False):
            for with_ft in (True, False):
                s = st.copy()
                kids = []
                attrs = {}
                attrs["dataset_level_metadata"] = NONE
                attrs["_file_tree"] = NONE
                if with_md:
                    attrs["dataset_level_metadata"] = ctx.obj(s, "Metadata", "metadata")
                    kids.append(attrs["dataset_level_metadata"])
                if with_ft:
                    attrs["_file_tree"] = mappable(ctx, s, "FileTree", "filetree")
                    kids.append(attrs["_file_tree"])
                o = ctx.obj(s, cls, "record", mapped=mapped, **attrs)
                yield s, Shape(o, kids, {}, None, name)
    elif p.is_subclass(cls, "Metadata"):
        s = st.copy()
        o = ctx.obj(s, cls, "metadata", mapped=mapped)
        keys = [sym(s, f"extractor{i}", "str", True) for i in range(2)]
        distinct(eng, s, keys)
        sets = [instance_set(ctx, eng, s, f"set{i}") for i in range(2)]
        s.update(o).attrs["instance_sets"] = explicit_dict(s, list(zip(keys, sets)))
        sh = Shape(o, [], {}, "instance_sets", name)
        sh.extra = {"sets": sets, "keys": keys}
        yield s, sh
    else:
        s = st.copy()
        o = ctx.obj(s, cls, mapped=mapped)
        yield s, Shape(o, [], {}, None, name)
