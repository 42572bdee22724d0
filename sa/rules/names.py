"""Rules about names of tree elements and metadata paths."""
import pathlib
import re

from ..model import *
from ..shapes import explicit_list
from .protocol import start
from .state import D
from .store import git_events, line

NAMES = (
    "plain", "with blank", " leading", "trailing ", "tab\there", "new\nline", "carriage\rreturn", "crlf\r\n",
    'quo"te', '"quoted"', '"', "back\\slash", "back\\\\slashes", "\\", "escape\\n", "escape\\t\\\"", "octal\\303\\244",
    "tab\t\"and quote", "line\n\\n", "\ttab first", "\nline first", "line last\n", "tab last\t",
    "ünïcode", "日本", "emoji 😀", "c\u0327ombining", "bell\x07", "escape\x1b[0m", "delete\x7f", "vertical\x0btab",
    "form\x0cfeed", "unit\x1fsep", "next\x85line", "line\u2028sep", "para\u2029graph", "nbsp\xa0", "zero\u200bwidth",
    "-option", "--", "'single'", "$(x)", "`x`", "#comment", "%s", "{}", "a:b", "a*b?", "~", "100644 blob x", "\x01",
    "mixed \"\t\\\n ü", ".hidden", "..x", "x.", "tree", "0", "None",
)
QUOTE = {7: "\\a", 8: "\\b", 9: "\\t", 10: "\\n", 11: "\\v", 12: "\\f", 13: "\\r", 34: '\\"', 92: "\\\\"}
UNQUOTE = {"a": 7, "b": 8, "t": 9, "n": 10, "v": 11, "f": 12, "r": 13, '"': 34, "\\": 92}


def git_quote(data):
    """The way git prints a path (core.quotepath is true)."""
    res = ""
    for c in data:
        res += QUOTE.get(c) or (f"\\{c:03o}" if c < 32 or c >= 127 else chr(c))
    return '"' + res + '"' if res != data.decode("latin-1") else res


def git_unquote(data):
    """The way git reads a quoted path; None if git would reject it."""
    res, i = bytearray(), 1
    while i < len(data):
        c = data[i:i + 1]
        if c == b'"':
            return bytes(res) if i == len(data) - 1 else None
        if c != b"\\":
            res += c
            i += 1
            continue
        rest = data[i + 1:i + 4].decode("latin-1")
        if re.match("[0-3][0-7][0-7]", rest):
            res.append(int(rest, 8))
            i += 4
        elif rest[:1] in UNQUOTE and rest:
            res.append(UNQUOTE[rest[0]])
            i += 2
        else:
            return None
    return None


def git_mktree(spec, nul=False):
    """Names in the tree that git mktree creates from its input; an error message if it rejects the input."""
    names = []
    for entry in spec.split(b"\0" if nul else b"\n"):
        if not entry:
            continue
        m = re.fullmatch(rb"(\d+) (blob|tree|commit) ([0-9a-f]{40})\t(.*)", entry, re.S)
        if m is None:
            return f"git mktree rejects {entry!r}"
        name = m.group(4)
        if name.startswith(b'"') and not nul:
            name = git_unquote(name)
            if name is None:
                return f"git mktree rejects {entry!r}"
        if b"/" in name:
            return f"git mktree rejects {entry!r}"
        names.append((m.group(1).decode(), m.group(2).decode(), m.group(3).decode(), name))
    return names


def const_bytes(v):
    while isinstance(v, T) and v.op == "encode" and len(v.args) == 1:
        v = v.args[0]
    if isinstance(v, Const):
        return v.v.encode() if isinstance(v.v, str) else v.v
    return None


def h40(n):
    return f"{n:040x}"


def check_c04(ctx):
    ctx.rule("for every name: the input of git mktree that is created for an element of this name gives a tree with this "
             "name, and what git prints for this tree is read as this name (git's quoting is modelled)")
    write_names(ctx)
    read_names(ctx)


def write_names(ctx):
    p = ctx.p
    node = p.cls("MTreeNode")
    leaf = p.cls("Metadata")
    count = 0
    groups = [(n,) for n in NAMES] + [NAMES]
    for names in groups:
        def written(eng, st, recv, args, kw, n):
            return [(st, st.h(recv).attrs["reference"])] if isinstance(recv, O) and "reference" in st.h(recv).attrs else None

        eng = ctx.engine({".write_out": written}, assert_raises=False)
        st = start(ctx, eng)
        rows = []
        for i, name in enumerate(names):
            ref = ctx.obj(st, "Reference", "stored", opaque=False, class_name=Const("Metadata"), location=Const(h40(i)))
            child = ctx.obj(st, leaf, f"child{i}", reference=ref)
            rows.append((Const(name), child, (), False))
        for s, o in eng.instantiate(st, node, [ClsV(leaf)], {}, None):
            if not isinstance(o, O):
                continue
            box = s.h(o).attrs.get("child_nodes")
            if not isinstance(box, O) or s.h(box).kind != "dict":
                ctx.unknown("written-name", "MTreeNode", "child_nodes")
                continue
            s.update(box).segs = tuple(rows)
            for s1, m in ctx.mapper(eng, s, "MTreeNode") or ():
                if not isinstance(m, O):
                    continue
                f = p.find_method(s1.h(m).cls, "map_out")
                for s2, v in ctx.run(eng, s1, f, m, [o, D, FALSE]) or ():
                    where = f"{s1.h(m).cls.name}.map_out_impl"
                    if isinstance(v, Exc):
                        if v.kind != "AssertionError":
                            ctx.bad("written-name", where, f"an element named {names[0]!r} cannot be saved: {v!r}",
                                    v.loc, s2)
                        continue
                    for e in git_events(s2):
                        if e.name != "mktree":
                            continue
                        spec = const_bytes(e.extra.get("stdin"))
                        if spec is None:
                            ctx.unknown("written-name", where, f"input of git mktree for {names[0]!r}")
                            continue
                        count += 1
                        got = git_mktree(spec, Const("-z") in e.args)
                        if isinstance(got, str):
                            ctx.bad("written-name", where, f"element named {names[0]!r}: {got}" if len(names) == 1
                                    else got, e.loc, s2)
                            continue
                        have = {(h, n) for _, _, h, n in got}
                        want = {(h40(i), n.encode()) for i, n in enumerate(names)}
                        diff = sorted(want - have)
                        ctx.check(not diff and len(got) == len(want), "written-name", where,
                                  f"an element named {diff[0][1].decode() if diff else names[0]!r} is stored as "
                                  f"{sorted(n for h, n in have - want)[:1]!r}", e.loc, s2, repr(names[0]))
    if not count:
        ctx.unknown("written-name", "MTreeNode", "no tree written")


def process_result(ctx, outputs):
    """Hook for subprocess.run: constant output of commands that list trees."""
    def hook(eng, st, recv, args, kw, node):
        argv = arg(args, kw, 0, "args")
        sub, repo, rest, is_list = eng.parse_argv(st, argv)
        if sub not in ("cat-file", "ls-tree", "show", "rev-parse"):
            return None
        words = [x.args[0] if isinstance(x, T) and x.op == "fz" else x for x in
                 (argv.items if isinstance(argv, Tup) else [g[0] for g in st.h(argv).segs] if isinstance(argv, O) else [])]
        data = None if Const("-c") in words else outputs(sub, [a.v if isinstance(a, Const) else None for a in rest])
        st.emit(Ev("git", sub, repo, tuple(rest), eng.loc(st, node), extra={"stdin": None}))
        if data is None:
            return None
        text = any(k in kw and kw[k] not in (FALSE, NONE) for k in ("text", "universal_newlines", "encoding"))
        value = Const(data.decode() if text else data)
        empty = Const("" if text else b"")
        return [(st, ctx.obj(st, "Reference", "process", opaque=False, returncode=Const(0), stdout=value, stderr=empty))]
    return hook


def listing(rows, args):
    """Output of git ls-tree and git cat-file -p."""
    if "-z" in args:
        return b"".join(b"%s %s %s\t%s\0" % (m, t, h, n) for m, t, h, n in rows)
    return b"".join(b"%s %s %s\t%s\n" % (m, t, h, git_quote(n).encode()) for m, t, h, n in rows)


def read_names(ctx):
    p = ctx.p
    node = p.cls("MTreeNode")
    leaf = p.cls("Metadata")
    count = 0
    for names in [(n,) for n in NAMES] + [NAMES]:
        rows = [(b"100644", b"blob", h40(i).encode(), n.encode()) if i % 2 == 0 else
                (b"040000", b"tree", h40(i).encode(), n.encode()) for i, n in enumerate(names)]
        eng = ctx.engine({"ext subprocess.run": process_result(ctx, lambda sub, args: listing(rows, args))},
                         assert_raises=False)
        st = start(ctx, eng)
        ref = ctx.obj(st, "Reference", "stored", opaque=False, class_name=Const("MTreeNode"), location=Const(h40(99)))
        for s, o in eng.instantiate(st, node, [ClsV(leaf), D, ref], {}, None):
            if not isinstance(o, O):
                continue
            for s1, m in ctx.mapper(eng, s, "MTreeNode") or ():
                if not isinstance(m, O):
                    continue
                f = p.find_method(s1.h(m).cls, "map_in")
                for s2, v in ctx.run(eng, s1, f, m, [o, D, ref]) or ():
                    where = f"{s1.h(m).cls.name}.map_in_impl"
                    shown = repr(names[0])
                    if isinstance(v, Exc):
                        if v.kind != "AssertionError":
                            ctx.bad("read-name", where, f"a tree with an element named {shown} cannot be read: {v!r}",
                                    v.loc, s2)
                        continue
                    box = s2.h(o).attrs.get("child_nodes")
                    segs = s2.h(box).segs if isinstance(box, O) and s2.h(box).kind == "dict" else None
                    if segs is None or not all(isinstance(g[0], Const) for g in segs) or any(g[-1] or g[-2] for g in segs):
                        ctx.unknown("read-name", where, f"names that are read for {shown}")
                        continue
                    count += 1
                    have = [g[0].v for g in segs]
                    diff = [n for n in names if n not in have]
                    ctx.check(sorted(have) == sorted(names), "read-name", where,
                              f"an element named {(diff or names)[0]!r} is read as {[h for h in have if h not in names][:1]!r}",
                              line(f), s2, shown)
                    for g in segs:
                        c = g[1]
                        r = s2.h(c).attrs.get("reference") if isinstance(c, O) else None
                        loc = s2.h(r).attrs.get("location") if isinstance(r, O) else None
                        if g[0].v in names and isinstance(loc, Const):
                            i = names.index(g[0].v)
                            tree = p.is_subclass(s2.h(c).cls, "MTreeNode")
                            ctx.check(loc.v == h40(i) and tree == (i % 2 == 1), "read-entry", where,
                                      f"the element {g[0].v!r} has the id or the kind of another one", line(f), s2)
    if not count:
        ctx.unknown("read-name", "MTreeNode", "no tree read")


# -- C05 ------------------------------------------------------------------------
PATHS = ((), ("",), ("a",), ("a/b",), ("/",), ("/a",), ("/a/b",), ("//a",), ("///a/b",), ("a", "b"), ("a", "/b"),
         ("/a", "b"), ("/a", "/b/c"), ("", "a"), ("a/", "b"), ("a//b",), ("./a",), ("/./a",), (".",), ("/.",),
         ("a b/c",), ("a\nb",), ("-x",), ("/-x",), ("ü/ö",), ("/ü",), ("a", "", "b"), ("/", "a"), ("a", "/"), ("x/a/",),
         (" a",), ("a ",), ("/ a/b ",), ("..",), ("../a",), ("/../a",), ("a/../b",), ("a", ".."), ("a\\b",))


def check_c05(ctx):
    ctx.rule("for every list of arguments the path that is created is not absolute and has the parts of the path that the "
             "arguments specify, without its root; the text of the empty path is empty, its length is 0")
    p = ctx.p
    cls = p.cls("MetadataPath")
    make = cls.methods.get("__init__") or cls.methods.get("__new__")
    if make is None:
        raise BrokenAnchor("MetadataPath has no constructor")
    where = "MetadataPath"
    new = make.name == "__new__"
    for args in PATHS:
        eng = ctx.engine({}, assert_raises=False)
        st = start(ctx, eng)
        o = ctx.obj(st, cls)
        values = [Const(a) for a in args]
        outs = ctx.run(eng, st, make, ClsV(cls) if new else o, values)
        # paths are accepted as well
        if args:
            s2 = start(ctx, eng)
            o2 = ctx.obj(s2, cls)
            outs = (outs or []) + (ctx.run(eng, s2, make, ClsV(cls) if new else o2,
                                           [T("purepath", Const(str(pathlib.PurePosixPath(a)))) for a in args]) or [])
        full = pathlib.PurePosixPath(*args)
        want = full.parts[1:] if full.is_absolute() else full.parts
        for s, v in outs or ():
            if isinstance(v, Exc):
                ctx.bad("relative", where, f"{args!r}: raises {v!r}", v.loc, s)
                continue
            calls = [e for e in s.events() if e.kind == "super" and e.name == make.name]
            given = [pure(x) for e in calls for x in e.args if not isinstance(x, ClsV)]
            if len(calls) != 1 or None in given:
                ctx.unknown("relative", where, f"{args!r}: {[e.args for e in calls]!r}")
                continue
            got = pathlib.PurePosixPath(*given)
            if got.is_absolute():
                ctx.bad("relative", where, f"MetadataPath{args!r} is the absolute path {str(got)!r}", calls[0].loc, s)
            else:
                ctx.check(got.parts == want, "parts", where, f"MetadataPath{args!r} is {str(got)!r}, the given path has "
                          f"the parts {want!r}", calls[0].loc, s, repr(args))
    for text in (".", "a", "a/b", "ü", ".a", "..", "../a", ".a/b", "a.", "a/..", " ", "a /b ", "...", "a\\b"):
        parts = pathlib.PurePosixPath(text).parts
        texts = lambda eng, st, recv, args, kw, node: [(st, Const(text))]
        eng = ctx.engine({"ext pathlib.PurePosixPath.__str__": texts, "ext pathlib.PurePath.__str__": texts},
                         assert_raises=False)
        for name, want in (("__str__", "" if text == "." else text), ("__len__", len(parts))):
            f = cls.methods.get(name)
            if f is None:
                continue
            st = start(ctx, eng)
            o = ctx.obj(st, cls)
            st.update(o).attrs["parts"] = Tup(Const(x) for x in parts)
            for s, v in ctx.run(eng, st, f, o, []) or ():
                if isinstance(v, Const):
                    ctx.check(v.v == want, "text", f"MetadataPath.{name}", f"{v.v!r} for the path {text!r}", line(f), s)
                elif isinstance(v, Exc):
                    ctx.bad("text", f"MetadataPath.{name}", f"raises {v!r}", v.loc, s)
                else:
                    ctx.unknown("text", f"MetadataPath.{name}", f"{v!r}")


def pure(x):
    if isinstance(x, T) and x.op == "purepath":
        x = x.args[0]
    return x.v if isinstance(x, Const) and isinstance(x.v, str) else None
