"""Tree updates on constant trees: the written trees are reconstructed and compared (part of C24 and C16)."""
import hashlib

from ..model import *
from ..shapes import explicit_list

ROOT = {"aaa": {"x": "B", "bbb": {"y": "B", "z": "T"}}, "ccc": {"v": "B"}, "plain": "B", "linked": "T"}
CASES = (
    # (label, [(path, kind)], allowed)
    ("nothing", [], True),
    ("new file", [("new", "B")], True),
    ("new directory entry", [("new", "T")], True),
    ("new nested file", [("n1/n2/n3", "B")], True),
    ("two files below one new directory", [("n1/n2/p", "B"), ("n1/n2/q", "B")], True),
    ("two files below different directories", [("n1/p", "B"), ("n2/q", "T")], True),
    ("file in an existing directory", [("aaa/new", "B")], True),
    ("file below an existing directory", [("aaa/bbb/new", "T")], True),
    ("files on three levels", [("aaa/bbb/p", "B"), ("aaa/q", "B"), ("r", "B"), ("ccc/s/t", "B")], True),
    ("existing file", [("plain", "B")], True),
    ("existing nested file", [("aaa/bbb/y", "B"), ("aaa/x", "B")], True),
    ("existing linked tree", [("linked", "T")], True),
    ("names that are prefixes of each other", [("aaaa/x", "B"), ("aa/x", "B"), ("a", "B")], True),
    ("tree over a file", [("plain", "T")], False),
    ("file over a directory", [("aaa", "B")], False),
    ("nested file over a directory", [("aaa/bbb", "B")], False),
    ("file below a file", [("plain/x", "B")], False),
    ("file below a nested file", [("aaa/x/y", "B")], False),
    ("same file twice", [("new", "B"), ("new", "B")], False),
    ("same name as file and directory", [("new", "B"), ("new/x", "B")], False),
    ("same nested name as file and directory", [("ccc/new/x", "B"), ("ccc/new", "B")], False),
)


PATHS = (("new", "B"), ("n1", "T"), ("n1/p", "B"), ("n1/q", "T"), ("plain", "B"), ("plain", "T"), ("plain/x", "B"), ("plain/y", "T"),
         ("plain/d/y", "B"), ("aaa/new", "B"), ("aaa/x/y", "B"), ("aaa/x/z", "B"), ("aaa/bbb/y", "B"), ("aaa/bbb/new", "B"),
         ("aaa/bbb/z", "B"), ("aaa/bbb", "B"), ("aaa", "B"), ("ccc/v", "T"), ("ccc/w/x", "B"), ("linked", "T"))


def pairs():
    """All pairs of paths, and whether they can be added."""
    old = flatten_spec(ROOT)
    dirs = {"/".join(k.split("/")[:i]) for k in old for i in range(1, len(k.split("/")))}

    def fits(path, kind, other):
        above = {"/".join(path.split("/")[:i]) for i in range(1, len(path.split("/")))}
        return path not in dirs and old.get(path, (kind,))[0] == kind and not above & {*old, other} and path != other
    for i, (p, k) in enumerate(PATHS):
        for q, m in PATHS[i + 1:]:
            yield f"{p} ({k}), {q} ({m})", [(p, k), (q, m)], fits(p, k, q) and fits(q, m, p)


def digest(text):
    return hashlib.sha1(text.encode()).hexdigest()


def flatten_spec(spec, prefix=""):
    res = {}
    for k, v in spec.items():
        if isinstance(v, dict):
            res.update(flatten_spec(v, prefix + k + "/"))
        else:
            res[prefix + k] = (v, digest("old" + prefix + k))
    return res


def store_spec(spec, store, prefix=""):
    """Object id of the stored tree; its entries are put into store."""
    rows = []
    for k, v in spec.items():
        if isinstance(v, dict):
            rows.append(("040000", "tree", store_spec(v, store, prefix + k + "/"), k))
        elif v == "T":
            rows.append(("040000", "tree", digest("old" + prefix + k), k))
        else:
            rows.append(("100644", "blob", digest("old" + prefix + k), k))
    h = digest(f"tree {prefix} {rows!r}")
    store[h] = tuple(rows)
    return h


def flatten(store, h, prefix="", seen=()):
    res = {}
    if h in seen:
        return {prefix: ("cycle", h)}
    names = [r[3] for r in store[h]]
    for mode, kind, sub, name in store[h]:
        path = prefix + name
        if names.count(name) > 1:
            res[path] = ("written twice", sub)
        elif kind == "tree" and sub in store:
            res.update(flatten(store, sub, path + "/", (*seen, h)))
        else:
            expected = {"tree": "040000", "blob": "100644"}.get(kind)
            res[path] = ({"tree": "T", "blob": "B"}.get(kind, kind) if mode == expected else f"{mode} {kind}", sub)
    return res


def const_rows(st, v):
    """List of constant tuples from a list value."""
    if isinstance(v, Tup):
        items = v.items
    elif isinstance(v, O) and st.h(v).kind in ("list", "set"):
        if any(s[-1] or s[-2] for s in st.h(v).segs):
            return None
        items = [s[0] for s in st.h(v).segs]
    else:
        return None
    rows = []
    for x in items:
        if isinstance(x, O) and st.h(x).kind == "list" and not any(s[-1] or s[-2] for s in st.h(x).segs):
            x = Tup(s[0] for s in st.h(x).segs)
        if not isinstance(x, Tup) or len(x.items) != 4 or not all(isinstance(c, Const) for c in x.items):
            return None
        rows.append(tuple(c.v for c in x.items))
    return rows


def hooks(store):
    """Backend functions that read from and write to constant trees."""
    def read(eng, st, recv, args, kw, node):
        h = arg(args, kw, 1, "object_reference")
        if not isinstance(h, Const):
            return None
        if h.v not in store:
            return [(st, Exc("RuntimeError", None, eng.loc(st, node)))]
        return [(st, explicit_list(st, [Const(f"{m} {k} {i}\t{n}") for m, k, i, n in store[h.v]]))]

    def read_any(eng, st, recv, args, kw, node):
        """cat-file also reads blobs, the existing blobs are empty."""
        h = arg(args, kw, 1, "object_reference")
        if isinstance(h, Const) and h.v not in store and any(row[1] == "blob" and row[2] == h.v for rows in store.values() for row in rows):
            return [(st, explicit_list(st, []))]
        return read(eng, st, recv, args, kw, node)

    def save(eng, st, recv, args, kw, node):
        rows = const_rows(st, arg(args, kw, 1, "entry_set"))
        if rows is None:
            st.emit(Ev("treewrite", None, None, (), eng.loc(st, node)))
            return None
        h = digest("new" + repr(rows))
        st.emit(Ev("treewrite", h, None, tuple(Tup(Const(x) for x in r) for r in rows), eng.loc(st, node)))
        return [(st, Const(h))]

    return {"git_read_tree_node": read_any, "git_ls_tree": read, "git_save_tree_node": save, "git_save_tree": save}


def with_written(store, st):
    """The store with the trees that a path writes; None if an unknown tree was written."""
    res = dict(store)
    for e in st.events():
        if e.kind == "treewrite":
            if e.name is None:
                return None
            res[e.name] = tuple(tuple(c.v for c in r.items) for r in e.args)
    return res


def entry_type(ctx, kind):
    cls = ctx.p.cls("EntryType")
    return cls, "File" if kind == "B" else "Directory"


def check_add_paths(ctx, rule="tree-update"):
    p = ctx.p
    f = p.function("mapper.gitmapper.treeupdater", "add_paths")
    info = p.cls("PathInfo")
    store = {}
    root = store_spec(ROOT, store)
    eng = ctx.engine(hooks(store), assert_raises=False)
    done = 0
    get_dir = p.function("mapper.gitmapper.treeupdater", "_get_dir")
    if f is None or get_dir is None:
        ctx.unknown(rule, "add_paths", "not present")
        return
    old = flatten_spec(ROOT)
    for label, added, allowed in (*CASES, *pairs()):
        st = ctx.state()
        outs = ctx.run(eng, st, get_dir, None, [Const("/realm"), Const(root)])
        if not outs or len(outs) != 1 or isinstance(outs[0][1], Exc):
            ctx.unknown(rule, "add_paths", "tree entries cannot be created")
            return
        st, entries = outs[0]
        infos, want = [], dict(old)
        for i, (text, kind) in enumerate(added):
            h = digest(f"added{i}" + text)
            ecls, member = entry_type(ctx, kind)
            values = eng.class_attr(st, ecls, member, ClsV(ecls))
            made = eng.instantiate(st, info, [explicit_list(st, [Const(x) for x in text.split("/")]), Const(h),
                                              values[0][1]], {}, None)
            made = [(s, v) for s, v in made if not isinstance(v, Exc)]
            if len(made) != 1:
                ctx.unknown(rule, "add_paths", "path information cannot be created")
                return
            st, v = made[0]
            infos.append(v)
            want[text] = (kind, h)
        base = st.nev
        outs = ctx.run(eng, st, f, None, [Const("/realm"), explicit_list(st, infos), entries])
        if outs is None:
            ctx.unknown(rule, "add_paths", f"{label}: not analysed")
            continue
        for s, v in outs:
            done += 1
            where = "add_paths"
            line = f"{f.module.path}:{f.node.lineno}"
            if isinstance(v, Exc):
                ctx.check(not allowed, rule, where, f"{label}: raises {v!r}", v.loc, s, label)
                continue
            written = with_written(store, s)
            if written is None or not isinstance(v, Const) or v.v not in written:
                ctx.unknown(rule, where, f"{label}: result {v!r}")
                continue
            found = flatten(written, v.v)
            if not allowed:
                ctx.bad(rule, where, f"{label}: no error, the resulting tree holds {sorted(found)!r}", line, s)
                continue
            diff = [f"{k!r}: {want.get(k)!r} expected, found {found.get(k)!r}" for k in sorted({*want, *found})
                    if want.get(k) != found.get(k)]
            ctx.check(not diff, rule, where, f"{label}: " + "; ".join(diff[:3]), line, s, label)
    if not done:
        ctx.unknown(rule, "add_paths", "not analysed")
