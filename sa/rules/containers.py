"""Rules about the content of trees, version lists, UUID sets and metadata (C24, C27, C31, C32).

The methods are run on containers with known structure (constant names, symbolic
entries); their effect is compared with the one of a map from path to entry.
"""
from ..callers import path
from ..model import *
from ..shapes import explicit_dict, explicit_list, explicit_set, instance_set, shapes, sym

NODE = "(node)"
RECORD = ".datalad_metadata_root_record"
SPEC = {"sub": {"x": 1, "deep": {"y": 1}}, "a b.txt": 1, 'q"\\\u00fc': 1, "subdir": {"x": 1},
        "empty": {}}
DSPEC = {RECORD: 1, "sub": {RECORD: 1, "deep": {RECORD: 1}}, "only": {"x": {RECORD: 1}}, "subdir": {RECORD: 1}}
PATHS = ("", "new", "sub", "sub/x", "sub/new", "sub/deep/y", "sub/deep", "sub/deep/new", "n1/n2/n3", "a b.txt",
         "a b.txt/x", 'q"\\\u00fc', "su", "subdir/x", "subdir/deep", "deep", "deep/y", "x", "sub/x/y/z", "sub/n1/n2", "empty", "empty/x")
DPATHS = ("", "new", "sub", "sub/deep", "sub/new", "n1/n2", "only", "only/x", "only/x/y", "deep", "x", "subdir/deep")


def build(ctx, st, spec, leaf, label="tree"):
    p = ctx.p
    kids = []
    for name, sub in spec.items():
        if isinstance(sub, dict):
            kids.append((Const(name), build(ctx, st, sub, leaf, f"{label}/{name}")))
        else:
            kids.append((Const(name), ctx.obj(st, leaf, f"{label}/{name}", mapped=TRUE,
                                              saved_on=explicit_set(st, []))))
    return ctx.obj(st, "MTreeNode", label, leaf_class=ClsV(p.cls(leaf)), leaf_class_name=Const(leaf),
                   mapped=TRUE, saved_on=explicit_set(st, []), child_nodes=explicit_dict(st, kids))


def entries(ctx, st, node, prefix="", nodes=True):
    """path -> leaf object or NODE; None if it is not known."""
    h = st.h(node) if isinstance(node, O) else None
    if h is None or h.kind != "inst" or not ctx.p.is_subclass(h.cls, "MTreeNode"):
        return None
    d = h.attrs.get("child_nodes")
    if not isinstance(d, O) or st.h(d).kind != "dict":
        return None
    res = {}
    for k, v, tag, splat in st.h(d).segs:
        if tag or splat or not isinstance(k, Const) or not isinstance(v, O):
            return None
        name = prefix + k.v
        if ctx.p.is_subclass(st.h(v).cls, "MTreeNode"):
            sub = entries(ctx, st, v, name + "/", nodes)
            if sub is None:
                return None
            if nodes:
                res[name] = NODE
            res.update(sub)
        else:
            res[name] = v
    return res


def node_at(ctx, st, node, text):
    for name in [x for x in text.split("/") if x]:
        d = st.h(node).attrs["child_nodes"]
        node = next(v for k, v, _, _ in st.h(d).segs if k == Const(name))
    return node


def parents(text):
    parts = [x for x in text.split("/") if x]
    return ["/".join(parts[:i]) for i in range(1, len(parts))]


def line(f):
    return f"{f.module.path}:{f.node.lineno}"


def difference(before, after):
    out = []
    for k in sorted({*before, *after}):
        if before.get(k) != after.get(k):
            out.append(f"{k!r}: {before.get(k, 'missing')!r} expected, found {after.get(k, 'missing')!r}")
    return "; ".join(out[:4])


class TreeCalls:
    """Calls of one tree API on a known tree."""

    def __init__(self, ctx, eng, rule, spec, leaf, cls):
        self.ctx, self.eng, self.rule = ctx, eng, rule
        self.cls = ctx.p.cls(cls)
        self.st = ctx.state()
        self.node = build(ctx, self.st, spec, leaf)
        self.before = entries(ctx, self.st, self.node)
        self.obj = self.node
        if cls != "MTreeNode":
            self.obj = ctx.obj(self.st, cls, cls, mtree=self.node)
        self.count = 0

    def call(self, method, args, text, judge, kwargs=None, prepare=None):
        ctx = self.ctx
        f = ctx.p.find_method(self.cls, method)
        if f is None:
            raise BrokenAnchor(f"{self.cls.name}.{method}")
        where = f"{self.cls.name}.{method}"
        st = self.st.copy()
        a = args(st) if callable(args) else list(args)
        outs = ctx.run(self.eng, st, f, self.obj, a, kwargs)
        if outs is None:
            ctx.unknown(self.rule, where, f"{text!r}: not analysed")
            return
        for s, v in outs:
            self.count += 1
            after = entries(ctx, s, self.node)
            if after is None:
                ctx.unknown(self.rule, where, f"{text!r}: the tree is not known afterwards")
                continue
            problem = judge(s, v, after, a)
            if problem == "?":
                ctx.unknown(self.rule, where, f"{text!r}: {v!r}")
            elif problem:
                ctx.bad(self.rule, where, f"path {text!r}: {problem}", v.loc if isinstance(v, Exc) else line(f), s)
            else:
                ctx.ok(self.rule, where, f"path {text!r}")


def unknown_result(v):
    return isinstance(v, T)


def judge_lookup(calls, want):
    def judge(s, v, after, a):
        if after != calls.before:
            return "a lookup changes the tree: " + difference(calls.before, after)
        if isinstance(v, Exc):
            return f"lookup raises {v!r}" if want is not Exc else None
        if want is Exc:
            return f"lookup of an element of another kind returns {v!r}"
        if unknown_result(v):
            return "?"
        return None if v == want else f"returns {v!r}, not {want!r}"
    return judge


def judge_add(calls, text, new, before=None):
    """new: {relative path: object or NODE} that are expected below text."""
    before = calls.before if before is None else before
    blocked = text in before or text == "" or any(before.get(q, NODE) != NODE for q in parents(text))

    def judge(s, v, after, a):
        if blocked:
            if not isinstance(v, Exc):
                if after == before:
                    return "an element that cannot be added is ignored"
                return "an existing element is replaced or converted: " + difference(before, after)
            return None if after == before else "fails, but changes the tree: " + difference(before, after)
        if isinstance(v, Exc):
            return f"raises {v!r}"
        want = dict(before)
        for q in parents(text):
            want.setdefault(q, NODE)
        for rel, o in new(a).items():
            want[text + rel] = o
        return None if after == want else difference(want, after)
    return judge


def check_trees(ctx, rule, adding, lookups):
    p = ctx.p
    eng = ctx.engine({}, assert_raises=False)
    count = 0

    def leaf(st, cls):
        return ctx.obj(st, cls, "added", mapped=TRUE, saved_on=explicit_set(st, []))

    c = TreeCalls(ctx, eng, rule, SPEC, "Metadata", "MTreeNode")
    ft = TreeCalls(ctx, eng, rule, SPEC, "Metadata", "FileTree")
    ds = TreeCalls(ctx, eng, rule, DSPEC, "MetadataRootRecord", "DatasetTree")
    for text in PATHS:
        entry = c.before.get(text, NONE)
        target = node_at(ctx, c.st, c.node, text) if entry == NODE or text == "" else entry
        if lookups:
            c.call("get_object_at_path", lambda st: [path(st, text)], text, judge_lookup(c, target))
            if "/" not in text and text:
                c.call("get_child", [Const(text)], text, judge_lookup(c, target))
                c.call("contains_child", [Const(text)], text, judge_lookup(c, Const(target != NONE)))
            e = ft.before.get(text, NONE)
            isnode = e == NODE or text == ""
            ft.call("get_metadata", lambda st: [path(st, text)], text, judge_lookup(ft, Exc if isnode else e))
            ft.call("__contains__", lambda st: [path(st, text)], text, judge_lookup(ft, Const(isnode or e != NONE)))
        if adding:
            c.call("add_child_at", lambda st: [leaf(st, "Metadata"), path(st, text)], text,
                   judge_add(c, text, lambda a: {"": a[0]}))
            ft.call("add_metadata", lambda st: [path(st, text), leaf(st, "Metadata")], text,
                    judge_add(ft, text, lambda a: {"": a[1]}))
            if "/" not in text and text:
                c.call("add_child", lambda st: [Const(text), leaf(st, "Metadata")], text,
                       judge_add(c, text, lambda a: {"": a[1]}))
            # removal
            exists = text in c.before

            def removed(s, v, after, a):
                if not exists:
                    if isinstance(v, Exc):
                        return None if after == c.before else "fails, but changes the tree: " + difference(
                            c.before, after)
                    return None if after == c.before else "removes something else: " + difference(c.before, after)
                if isinstance(v, Exc):
                    return f"raises {v!r}"
                want = {k: o for k, o in c.before.items() if k != text and not k.startswith(text + "/")}
                return None if after == want else difference(want, after)
            c.call("remove_child_at", lambda st: [path(st, text)], text, removed)
            if "/" not in text and text:
                c.call("remove_child", [Const(text)], text, removed)
    for text in DPATHS:
        sub = text + "/" if text else ""
        record = ds.before.get(sub + RECORD, NONE)
        if lookups:
            ds.call("get_metadata_root_record", lambda st: [path(st, text)], text, judge_lookup(ds, record))
            ds.call("__contains__", lambda st: [path(st, text)], text, judge_lookup(ds, Const(record != NONE)))
        if adding:
            ds.call("add_dataset", lambda st: [path(st, text), leaf(st, "MetadataRootRecord")], text,
                    judge_add(ds, sub + RECORD, lambda a: {"": a[1]}))

            def subtree(st):
                n = build(ctx, st, {RECORD: 1, "m": {RECORD: 1}}, "MetadataRootRecord", "added")
                return [ctx.obj(st, "DatasetTree", "added", mtree=n), path(st, text)]

            def joined(s, v, after, a):
                n = s.h(a[0]).attrs["mtree"]
                new = {"": NODE}
                new.update({"/" + k: o for k, o in (entries(ctx, s, n) or {}).items()})
                return judge_add(ds, text, lambda _: new)(s, v, after, a)
            ds.call("add_subtree", subtree, text, joined)

            def deleted(s, v, after, a):
                if text not in ds.before:
                    return None if after == ds.before else "changes the tree: " + difference(ds.before, after)
                if isinstance(v, Exc):
                    return f"raises {v!r}"
                want = {k: o for k, o in ds.before.items() if k != text and not k.startswith(sub)}
                return None if after == want else difference(want, after)
            ds.call("delete_subtree", lambda st: [path(st, text)], text, deleted)
    count += c.count + ft.count + ds.count
    if count < 40:
        raise BrokenAnchor("tree operations not analysed")


def values_of(st, v):
    """Elements of an explicit collection, None if it is not explicit."""
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, O) and st.h(v).kind in ("list", "set", "dict"):
        segs = st.h(v).segs
        if any(s[-1] or s[-2] for s in segs):
            return None
        return [s[0] for s in segs]
    return None


def pair_of(st, v):
    if isinstance(v, O) and st.h(v).kind == "inst":
        return None
    return values_of(st, v)


def judge_listing(ctx, rule, where, f, s, v, want, what="entry"):
    """The result holds exactly the wanted tuples, each once."""
    if isinstance(v, Exc):
        ctx.bad(rule, where, f"raises {v!r}", v.loc, s)
        return
    got = values_of(s, v)
    if got is None:
        ctx.unknown(rule, where, f"result {v!r}")
        return
    rows = []
    for g in got:
        r = pair_of(s, g)
        if r is None:
            r = [g]
        flat = []
        for x in r:
            y = pair_of(s, x)
            flat.extend(y if y is not None else [x])
        rows.append(tuple(flat))
    missing = [w for w in want if w not in rows]
    extra = [r for r in rows if r not in want]
    if any(isinstance(x, T) and x.op not in ("sym", "new", "attr", "div") for r in extra for x in r):
        ctx.unknown(rule, where, f"result {extra!r}")
    elif missing or extra:
        ctx.bad(rule, where, f"{what} missing: {missing[:3]!r}, unexpected: {extra[:3]!r}", line(f), s)
    elif len(rows) != len(want):
        ctx.bad(rule, where, f"{what} returned more than once", line(f), s)
    else:
        ctx.ok(rule, where, f"{len(want)} entries")


def family(p, name):
    """A concrete class and its concrete subclasses."""
    return [p.cls(name), *p.concrete_subclasses(name)]


def method(ctx, cls, name):
    f = ctx.p.find_method(cls, name)
    if f is None:
        raise BrokenAnchor(f"{cls.name}.{name}")
    return f


def check_c32(ctx):
    ctx.rule("traversals of trees, version lists and UUID sets yield every entry exactly once, with its full path or "
             "version and prefix path")
    p = ctx.p
    eng = ctx.engine({".read_in": read_in_self, ".ensure_mapped": ret(FALSE)}, assert_raises=False)
    for cls, spec, leaf in (("MTreeNode", SPEC, "Metadata"), ("FileTree", SPEC, "Metadata"),
                            ("DatasetTree", DSPEC, "MetadataRootRecord")):
        for shown in (None, FALSE, TRUE):
            c = TreeCalls(ctx, eng, "traversal", spec, leaf, cls)
            f = method(ctx, c.cls, "get_paths_recursive")
            outs = ctx.run(eng, c.st, f, c.obj, [] if shown is None else [shown])
            if outs is None:
                ctx.unknown("traversal", f"{cls}.get_paths_recursive", "not analysed")
            want = [(path(c.st, k), o if o != NODE else node_at(ctx, c.st, c.node, k)) for k, o in c.before.items()
                    if shown == TRUE or o != NODE]
            if shown == TRUE:
                want.append((path(c.st, ""), c.node))
            for s, v in outs or ():
                judge_listing(ctx, "traversal", f"{cls}.get_paths_recursive", f, s, v, want)
    for f in [method(ctx, p.cls("DatasetTree"), "dataset_paths")]:
        c = TreeCalls(ctx, eng, "traversal", DSPEC, "MetadataRootRecord", "DatasetTree")
        want = [(path(c.st, k[:-len(RECORD)].rstrip("/")), o) for k, o in c.before.items() if k.endswith(RECORD)]
        for s, v in ctx.run(eng, c.st, f, c.obj, []) or ():
            judge_listing(ctx, "traversal", "DatasetTree.dataset_paths", f, s, v, want, "dataset")
        spec = {"sub": {RECORD: 1}, "noise": 1, "x": {"other": 1}}
        c = TreeCalls(ctx, eng, "traversal", spec, "MetadataRootRecord", "DatasetTree")
        want = [(path(c.st, "sub"), c.before["sub/" + RECORD])]
        for s, v in ctx.run(eng, c.st, f, c.obj, []) or ():
            judge_listing(ctx, "traversal", "DatasetTree.dataset_paths", f, s, v, want, "dataset")
    st0 = ctx.state()
    done = 0
    for cls in [c for c in family(p, "VersionList")]:
        for s0, sh in shapes(ctx, eng, st0, cls):
            keys = sh.keys
            stamps = sh.extra["stamps"]
            all_ = [(keys[k][0], keys[k][1], k) for k in sh.children]
            listings = {
                "versions": [(v,) for v, q, k in all_],
                "versions_and_prefix_paths": [(v, q) for v, q, k in all_],
                "versioned_elements": [(v, stamps[k], q, k) for v, q, k in all_]}
            for name, want in listings.items():
                f = method(ctx, cls, name)
                for s, v in ctx.run(eng, s0.copy(), f, sh.obj, []) or ():
                    done += 1
                    judge_listing(ctx, "traversal", f"{cls.name}.{name}", f, s, v, want, "record")
            names = ["get_versioned_elements"]
            if p.find_method(cls, "get_dataset_trees"):
                names.append("get_dataset_trees")
            for name in names:
                f = method(ctx, cls, name)
                for version in dict.fromkeys(v for v, q, k in all_):
                    want = [(stamps[k], q, k) for v, q, k in all_ if v == version]
                    for s, v in ctx.run(eng, s0.copy(), f, sh.obj, [version]) or ():
                        done += 1
                        judge_listing(ctx, "traversal", f"{cls.name}.{name}", f, s, v, want, "record")
            f = method(ctx, cls, "__len__")
            for s, v in ctx.run(eng, s0.copy(), f, sh.obj, []) or ():
                if isinstance(v, Const):
                    ctx.check(v.v == len(all_), "traversal", f"{cls.name}.__len__",
                              f"{v!r} for {len(all_)} records", line(f), s)
                else:
                    ctx.unknown("traversal", f"{cls.name}.__len__", repr(v))
    for cls in family(p, "UUIDSet"):
        for s0, sh in shapes(ctx, eng, st0, cls):
            f = method(ctx, cls, "uuids")
            for s, v in ctx.run(eng, s0.copy(), f, sh.obj, []) or ():
                done += 1
                judge_listing(ctx, "traversal", f"{cls.name}.uuids", f, s, v, [(sh.keys[k],) for k in sh.children],
                              "identifier")
    for cls in family(p, "Metadata"):
        for s0, sh in shapes(ctx, eng, st0, cls):
            names, sets = sh.extra["keys"], sh.extra["sets"]
            for name, want in (("extractors", [(n,) for n in names]),
                               ("extractor_runs", list(zip(names, sets)))):
                f = method(ctx, cls, name)
                for s, v in ctx.run(eng, s0.copy(), f, sh.obj, []) or ():
                    done += 1
                    judge_listing(ctx, "traversal", f"{cls.name}.{name}", f, s, v, want, "extractor")
    if done < 5:
        raise BrokenAnchor("traversals not analysed")


def read_in_self(eng, st, recv, args, kw, node):
    return [(st, recv)]


def check_c24(ctx):
    ctx.rule("adding an element to a tree changes the tree by exactly this element and the missing nodes above it; it "
             "raises, without a change, if an element with this path exists or a leaf is in the way; removing an "
             "element removes exactly the element with that path")
    check_trees(ctx, "tree-change", True, False)
    check_updater(ctx)


# -- object reference trees -------------------------------------------------------
def check_updater(ctx):
    from .updater import check_add_paths
    check_add_paths(ctx)


def records(st, obj):
    """(version, prefix path) -> (time stamp, prefix path, element)."""
    d = st.h(obj).attrs.get("version_set")
    if not isinstance(d, O):
        return None
    res = []
    for k, v, tag, sp in st.h(d).segs:
        if tag or sp or not isinstance(v, O) or st.h(v).kind != "dict":
            return None
        for q, r, tag2, sp2 in st.h(v).segs:
            if tag2 or sp2 or not isinstance(r, O):
                return None
            a = st.h(r).attrs
            if not all(isinstance(a.get(n), (T, O, Const)) for n in ("time_stamp", "prefix_path", "element")):
                return None
            res.append((k, q, a["time_stamp"], a["prefix_path"], a["element"]))
    return res


def check_c31(ctx):
    ctx.rule("what is stored under a path, version, identifier or extractor name is found under it, with its time stamp "
             "and prefix path, all other entries stay as they are, and lookups never change anything")
    p = ctx.p
    check_trees(ctx, "tree-lookup", False, True)
    eng = ctx.engine({".read_in": read_in_self, ".ensure_mapped": ret(FALSE),
                      ".write_out": child_writer(ctx, None, False), ".purge": ret(NONE)}, assert_raises=False)
    st0 = ctx.state()
    done = 0
    for cls in family(p, "VersionList"):
        tree = p.is_subclass(cls, "TreeVersionList")
        for s0, sh in shapes(ctx, eng, st0, cls):
            before = records(s0, sh.obj)
            if before is None:
                raise BrokenAnchor("version list content")
            new_version, new_path = sym(s0, "new_version", "str", True), sym(s0, "new_prefix", "=MetadataPath", True)
            stamp = sym(s0, "new_time", "str", True)
            versions = list(dict.fromkeys(b[0] for b in before))
            for x in versions:
                s0.facts[eng.eq_term(new_version, x)] = False
            for b in before:
                s0.facts[b[1]] = True
                s0.facts[eng.eq_term(new_path, b[1])] = False
            targets = [(new_version, new_path), (versions[0], new_path), (versions[0], before[0][1]),
                       (new_version, before[0][1]), (versions[1], before[0][1])]
            setters = ["set_versioned_element"] + (["set_dataset_tree"] if tree else [])
            for name in setters:
                f = method(ctx, cls, name)
                for version, prefix in targets:
                    s = s0.copy()
                    from ..shapes import mappable
                    element = mappable(ctx, s, "DatasetTree" if tree else "MetadataRootRecord", "new_element", TRUE)
                    for s2, v in ctx.run(eng, s, f, sh.obj, [version, stamp, prefix, element]) or ():
                        done += 1
                        where = f"{cls.name}.{name}"
                        if isinstance(v, Exc):
                            ctx.bad("store", where, f"raises {v!r}", v.loc, s2)
                            continue
                        after = records(s2, sh.obj)
                        if after is None:
                            ctx.unknown("store", where, "content is not known")
                            continue
                        want = [b for b in before if (b[0], b[1]) != (version, prefix)]
                        want.append((version, prefix, stamp, prefix, element))
                        ctx.check(sorted(map(repr, after)) == sorted(map(repr, want)), "store", where,
                                  f"records afterwards: {after!r}", line(f), s2, f"{version!r}, {prefix!r}")
            getters = ["get_versioned_element"] + (["get_dataset_tree"] if tree else [])
            for name in getters:
                f = method(ctx, cls, name)
                for b in before:
                    for s2, v in ctx.run(eng, s0.copy(), f, sh.obj, [b[0], b[1]]) or ():
                        done += 1
                        where = f"{cls.name}.{name}"
                        if isinstance(v, Exc):
                            ctx.bad("find", where, f"raises {v!r} for an existing record", v.loc, s2)
                        elif records(s2, sh.obj) != before:
                            ctx.bad("find", where, "a lookup changes the records", line(f), s2)
                        else:
                            r = values_of(s2, v)
                            if r is None:
                                ctx.unknown("find", where, repr(v))
                            else:
                                ctx.check(tuple(r) == (b[2], b[3], b[4]), "find", where,
                                          f"returns {r!r}, not {b[2:]!r}", line(f), s2)
                for version, prefix in targets:
                    if (version, prefix) in [(b[0], b[1]) for b in before]:
                        continue
                    for s2, v in ctx.run(eng, s0.copy(), f, sh.obj, [version, prefix]) or ():
                        done += 1
                        where = f"{cls.name}.{name}"
                        if records(s2, sh.obj) != before:
                            ctx.bad("find", where, "a lookup changes the records", line(f), s2)
                        elif isinstance(v, Exc) or v == NONE:
                            ctx.ok("find", where, "missing record")
                        elif any(x in sh.children for x in (values_of(s2, v) or [v])):
                            ctx.bad("find", where, f"returns the record of another version or path: {v!r}",
                                    line(f), s2)
                        else:
                            ctx.unknown("find", where, repr(v))
    for cls in family(p, "UUIDSet"):
        for s0, sh in shapes(ctx, eng, st0, cls):
            new = sym(s0, "new_uuid", "UUID", True)
            for k in sh.children:
                s0.facts[eng.eq_term(new, sh.keys[k])] = False
            for key in [new] + [sh.keys[k] for k in sh.children]:
                f = method(ctx, cls, "set_version_list")
                s = s0.copy()
                vl = ctx.obj(s, "VersionList", "new_list")
                for s2, v in ctx.run(eng, s, f, sh.obj, [key, vl]) or ():
                    done += 1
                    where = f"{cls.name}.set_version_list"
                    d = s2.h(sh.obj).attrs["uuid_set"]
                    if isinstance(v, Exc):
                        ctx.bad("store", where, f"raises {v!r}", v.loc, s2)
                        continue
                    if not isinstance(d, O):
                        ctx.unknown("store", where, repr(d))
                        continue
                    after = {x[0]: x[1] for x in s2.h(d).segs}
                    want = {sh.keys[k]: k for k in sh.children}
                    want[key] = vl
                    ctx.check(after == want, "store", where, f"content afterwards: {after!r}", line(f), s2)
                f = method(ctx, cls, "get_version_list")
                for s2, v in ctx.run(eng, s0.copy(), f, sh.obj, [key]) or ():
                    done += 1
                    where = f"{cls.name}.get_version_list"
                    want = {sh.keys[k]: k for k in sh.children}
                    d = s2.h(sh.obj).attrs["uuid_set"]
                    after = {x[0]: x[1] for x in s2.h(d).segs} if isinstance(d, O) else want
                    if after != want:
                        ctx.bad("find", where, "a lookup changes the set", line(f), s2)
                    elif key == new:
                        if v in sh.children:
                            ctx.bad("find", where, f"returns the list of another identifier: {v!r}", line(f), s2)
                        else:
                            ctx.ok("find", where, "missing identifier")
                    elif isinstance(v, (O, Exc)):
                        ctx.check(v == want[key], "find", where, f"returns {v!r}, not {want[key]!r}", line(f), s2)
                    else:
                        ctx.unknown("find", where, repr(v))
    for cls in family(p, "Metadata"):
        for s0, sh in shapes(ctx, eng, st0, cls):
            f = method(ctx, cls, "extractor_runs_for_extractor")
            for key, want in zip(sh.extra["keys"], sh.extra["sets"]):
                for s2, v in ctx.run(eng, s0.copy(), f, sh.obj, [key]) or ():
                    done += 1
                    ctx.check(v == want if isinstance(v, (O, Exc)) else None, "find",
                              f"{cls.name}.extractor_runs_for_extractor", f"returns {v!r}, not {want!r}", line(f), s2)
    cls = p.cls("MetadataRootRecord")
    for s0, sh in shapes(ctx, eng, st0, cls):
        for setter, getter, kind in (("set_file_tree", "get_file_tree", "FileTree"),
                                     ("set_dataset_level_metadata", "get_dataset_level_metadata", "Metadata")):
            f, g = method(ctx, cls, setter), method(ctx, cls, getter)
            other = "get_dataset_level_metadata" if kind == "FileTree" else "get_file_tree"
            h = method(ctx, cls, other)
            for value in (kind, None):
                s = s0.copy()
                from ..shapes import mappable
                x = mappable(ctx, s, kind, "new_part", TRUE) if value else NONE
                old = [v for _, v in ctx.run(eng, s.copy(), h, sh.obj, []) or ()]
                for s2, v in ctx.run(eng, s, f, sh.obj, [x]) or ():
                    if isinstance(v, Exc):
                        ctx.bad("store", f"{cls.name}.{setter}", f"raises {v!r}", v.loc, s2)
                        continue
                    for s3, w in ctx.run(eng, s2, g, sh.obj, []) or ():
                        done += 1
                        ctx.check(w == x if not isinstance(w, T) else None, "store", f"{cls.name}.{setter}",
                                  f"afterwards, {getter} returns {w!r}, not {x!r}", line(f), s3)
                        for s4, w2 in ctx.run(eng, s3, h, sh.obj, []) or ():
                            ctx.check(w2 in old if old else None, "store", f"{cls.name}.{setter}",
                                      f"changes the result of {other} to {w2!r}", line(f), s4)
    if done < 30:
        raise BrokenAnchor("lookups not analysed")


# -- extractor runs ---------------------------------------------------------------
FIELDS = ("time_stamp", "author_name", "author_email", "configuration", "metadata_content")


def runs(st, metadata):
    """extractor name -> [(configuration, instance)] in order; None if it is not known."""
    d = st.h(metadata).attrs.get("instance_sets")
    if not isinstance(d, O):
        return None
    res = {}
    for k, v, tag, sp in st.h(d).segs:
        if tag or sp or not isinstance(v, O):
            return None
        a = st.h(v).attrs
        ps, ins = a.get("parameter_set"), a.get("_instances")
        if not isinstance(ps, O) or not isinstance(ins, O):
            return None
        confs = [x[0] for x in st.h(ps).segs]
        rows = []
        for x in st.h(ins).segs:
            if not isinstance(x[0], Const) or not isinstance(x[0].v, int) or x[2] or x[3]:
                return None
            if not 0 <= x[0].v < len(confs):
                rows.append(("no configuration", x[1]))
            else:
                rows.append((confs[x[0].v], x[1]))
        if len(rows) != len(confs):
            rows.append(("configurations", len(confs)))
        res[k] = rows
    return res


def check_c27(ctx):
    ctx.rule("adding an extractor run stores exactly the given values under the extractor name and configuration; an "
             "older run with the same configuration is replaced, all others are kept; a missing time stamp is the "
             "current time")
    p = ctx.p
    eng = ctx.engine({".read_in": read_in_self, ".ensure_mapped": ret(FALSE)}, assert_raises=False)
    st0 = ctx.state()
    done = 0
    cls = p.cls("Metadata")
    f = method(ctx, cls, "add_extractor_run")
    given = {}
    for s0, sh in shapes(ctx, eng, st0, cls):
        before = runs(s0, sh.obj)
        if before is None:
            raise BrokenAnchor("extractor runs")
        name_new = sym(s0, "new_extractor", "str", True)
        for k in sh.extra["keys"]:
            s0.facts[eng.eq_term(name_new, k)] = False
        author, mail = sym(s0, "author", "str"), sym(s0, "mail", "str")
        body = sym(s0, "body", "dict")
        stamp = sym(s0, "stamp", "float")
        s0.facts[eng.eq_term(stamp, NONE)] = False
        for name in [name_new, *sh.extra["keys"]]:
            old = before.get(name, [])
            for same in [None] + list(range(len(old))):
                for time_ in (stamp, NONE, Const(0)):
                    s = s0.copy()
                    conf = ctx.obj(s, "ExtractorConfiguration", "new_conf",
                                   version=sym(s, "new_conf_version", "str"), parameter=sym(s, "new_conf_parameter"))
                    for i, (c, _) in enumerate(old):
                        cv, cp = T("attr", c, "version"), T("attr", c, "parameter")
                        nv, np_ = T("sym", "new_conf_version"), T("sym", "new_conf_parameter")
                        if i == same:
                            s.facts[eng.eq_term(cv, nv)] = s.facts[eng.eq_term(cp, np_)] = True
                        else:
                            # equal version, different parameters
                            s.facts[eng.eq_term(cv, nv)] = False if same is not None else True
                            s.facts[eng.eq_term(cp, np_)] = False
                    values = [time_, name, author, mail, conf, body]
                    for s2, v in ctx.run(eng, s, f, sh.obj, values) or ():
                        done += 1
                        judge_run(ctx, eng, f, s2, v, sh.obj, before, name, same, values)
    # through the file tree
    for existing in (True, False):
        s = ctx.state()
        node = build(ctx, s, SPEC, "Metadata")
        ft = ctx.obj(s, "FileTree", "filetree", mtree=node)
        g = method(ctx, p.cls("FileTree"), "add_extractor_run")
        before = entries(ctx, s, node)
        text = "sub/deep/y" if existing else "sub/new/z"
        calls = []

        def hook(e, st, recv, args, kw, node_):
            names = [a.arg for a in f.node.args.args[1:]]
            got = dict(zip(names, args))
            got.update(kw)
            st.emit(Ev("addrun", None, recv, tuple(got.get(n) for n in names), e.loc(st, node_)))
            return [(st, NONE)]

        e2 = ctx.engine({"Metadata.add_extractor_run": hook, ".read_in": read_in_self, ".ensure_mapped": ret(FALSE)},
                        assert_raises=False)
        conf = ctx.obj(s, "ExtractorConfiguration", "conf")
        values = [T("sym", n) for n in ("stamp", "name", "author", "mail")] + [conf, T("sym", "body")]
        outs = ctx.run(e2, s, g, ft, [path(s, text), *values])
        for s2, v in outs or ():
            done += 1
            where = "FileTree.add_extractor_run"
            if isinstance(v, Exc):
                ctx.bad("run-in-tree", where, f"raises {v!r} for {text!r}", v.loc, s2)
                continue
            after = entries(ctx, s2, node)
            evs = [e for e in s2.events() if e.kind == "addrun"]
            if after is None or len(evs) != 1:
                ctx.check(False if after is not None else None, "run-in-tree", where,
                          f"{len(evs)} runs are added for {text!r}", line(g), s2)
                continue
            target = after.get(text)
            others = {k: o for k, o in after.items() if k != text}
            want = {k: o for k, o in before.items() if k != text}
            if not existing:
                want["sub/new"] = NODE
            ctx.check(target == evs[0].recv and others == want and (not existing or target == before[text]),
                      "run-in-tree", where, f"the run of {text!r} is added to {evs[0].recv!r}, the tree holds "
                      f"{target!r}", line(g), s2)
            ctx.check(tuple(evs[0].args) == tuple(values), "run-in-tree", where,
                      f"arguments are not passed on: {evs[0].args!r}", line(g), s2)
    if done < 10:
        raise BrokenAnchor("extractor runs not analysed")


def judge_run(ctx, eng, f, s2, v, obj, before, name, same, values):
    where = "Metadata.add_extractor_run"
    if isinstance(v, Exc):
        ctx.bad("run", where, f"raises {v!r}", v.loc, s2)
        return
    after = runs(s2, obj)
    if after is None:
        ctx.unknown("run", where, "content is not known")
        return
    for k, rows in before.items():
        if k != name and after.get(k) != rows:
            ctx.bad("run", where, f"runs of another extractor are changed: {k!r}", line(f), s2)
            return
    extra = [k for k in after if k != name and k not in before]
    if extra:
        ctx.bad("run", where, f"runs are stored under {extra!r}, not under {name!r}", line(f), s2)
        return
    rows, old = after.get(name), before.get(name, [])
    if rows is None:
        ctx.bad("run", where, "the run is not stored", line(f), s2)
        return
    kept = [r for i, r in enumerate(old) if i != same]
    missing = [r for r in kept if r not in rows]
    if missing:
        ctx.bad("run", where, f"runs with another configuration are lost or changed: {missing!r}", line(f), s2)
        return
    new = [r for r in rows if r not in kept]
    if len(new) != 1:
        ctx.bad("run", where, f"{len(new)} new runs, one expected (the same configuration is "
                f"{'present' if same is not None else 'not present'})", line(f), s2)
        return
    conf, inst = new[0]
    if not isinstance(inst, O):
        ctx.unknown("run", where, repr(inst))
        return
    a = s2.h(inst).attrs
    stamp, _, author, mail, given, body = values
    got = [a.get(n) for n in FIELDS]
    for n, x, w in zip(FIELDS, got, (stamp, author, mail, given, body)):
        if n == "time_stamp" and w == NONE:
            now = isinstance(x, T) and "time" in repr(x)
            ctx.check(True if now else False if x == NONE else None, "run", where,
                      "no time stamp is stored for a run without time stamp", line(f), s2)
        elif isinstance(x, T) and x.op == "copy" or x is None:
            ctx.unknown("run", where, f"{n} is {x!r}")
        elif x != w and contains(x, w) and not isinstance(w, Const):
            ctx.unknown("run", where, f"{n} is {x!r}")
        else:
            ctx.check(x == w, "run", where, f"{n} is stored as {x!r}, given was {w!r}", line(f), s2)
    same_conf = conf == given or (same is not None and conf == old[same][0])
    ctx.check(True if same_conf else False, "run", where,
              f"the run is stored under configuration {conf!r}, not under {given!r}", line(f), s2)
