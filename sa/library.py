"""Models of the functions that the analysed package uses from outside.

The models are abstract: git is described by the effect of its commands
(`hash-object -w --stdin` yields the name of an object with the given content,
`show NAME` yields that content ..), containers by the values that were put
into them, strings by concatenation.
"""
import pathlib
import ast
import builtins
import codecs
import hashlib
import posixpath
import re
import shlex
import urllib.parse

from .values import (
    BM, ClsV, Const, Ev, Exc, ExtV, FALSE, FnV, HObj, ModV, NONE, O, T, TRUE,
    Tup,
)

EXCEPTIONS = {
    n for n in dir(builtins)
    if isinstance(getattr(builtins, n), type)
    and issubclass(getattr(builtins, n), BaseException)}

READ_ONLY_GIT = {
    "show", "cat-file", "ls-tree", "rev-parse", "show-ref", "for-each-ref",
    "log", "status", "diff", "rev-list", "--version", "version",
}

LIST_MUT = {"append", "extend", "insert", "add", "update", "clear", "remove",
            "discard", "pop", "popitem", "setdefault", "sort", "reverse",
            "appendleft", "popleft", "difference_update",
            "intersection_update"}

LOG_METHODS = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log"}

DIGESTS = ("hashlib.sha256", "hashlib.sha1", "hashlib.md5", "hashlib.sha512", "hashlib.sha224", "hashlib.sha384")
STR_TYPES = ("str", "bytes")


def codec_of(args, kwargs):
    """Name of the codec in the arguments of encode or decode, None if it is not known."""
    v = args[0] if args else kwargs.get("encoding", Const("utf-8"))
    if not isinstance(v, Const) or not isinstance(v.v, str):
        return None
    try:
        return codecs.lookup(v.v).name
    except LookupError:
        return None


def recoded(text, codec):
    """Result of a conversion of a text of a caller.  All texts survive UTF-8, other codecs lose or change characters;
    the texts that the package itself makes (JSON, object ids) are ASCII."""
    if codec in ("ascii", "iso8859-1", "cp1252", "iso8859-15", "cp437", "latin-1") \
            and isinstance(text, T) and text.op in ("sym", "newlines"):
        return T("recoded", text, codec)
    return text


def is_str(eng, st, v):
    return eng.typeof(st, v) in STR_TYPES


def const_value(v):
    if isinstance(v, tuple):
        return Tup(const_value(x) for x in v)
    if v is None or isinstance(v, (str, bytes, int, float, bool)):
        return Const(v)
    raise TypeError(v)


# pure functions that are folded if all arguments are constants
PURE = {
    "codecs.escape_decode": codecs.escape_decode,
    "codecs.escape_encode": codecs.escape_encode,
    "codecs.decode": codecs.decode,
    "codecs.encode": codecs.encode,
    "ast.literal_eval": ast.literal_eval,
    "re.escape": re.escape,
    "re.sub": re.sub,
    "shlex.quote": shlex.quote,
    "urllib.parse.quote": urllib.parse.quote,
    "urllib.parse.unquote": urllib.parse.unquote,
    "posixpath.join": posixpath.join,
    "os.path.join": posixpath.join,
    "os.fsencode": lambda x: x.encode(errors="surrogateescape") if isinstance(x, str) else x,
    "os.fsdecode": lambda x: x.decode(errors="surrogateescape") if isinstance(x, bytes) else x,
}

ESCAPES = {"a": 7, "b": 8, "t": 9, "n": 10, "v": 11, "f": 12, "r": 13, '"': 34, "\\": 92}


def git_unquote(text):
    """Name that git mktree reads from an entry (bytes)."""
    if not text.startswith('"'):
        return text.encode(errors="surrogateescape")
    out = bytearray()
    i = 1
    while i < len(text) and text[i] != '"':
        c = text[i]
        if c != "\\":
            out += c.encode(errors="surrogateescape")
            i += 1
            continue
        i += 1
        if i < len(text) and text[i] in ESCAPES:
            out.append(ESCAPES[text[i]])
            i += 1
        elif text[i:i + 3].isdigit() and len(text[i:i + 3]) == 3:
            out.append(int(text[i:i + 3], 8) & 255)
            i += 3
        else:
            return b""      # invalid quoting
    if i != len(text) - 1:
        return b""
    return bytes(out)


def git_quote(name):
    """How git lists a name (core.quotepath is true)."""
    back = {v: k for k, v in ESCAPES.items()}
    if all(32 <= b < 127 and b not in (34, 92) for b in name):
        return name.decode()
    return '"' + "".join(
        "\\" + back[b] if b in back else chr(b) if 32 <= b < 127 else f"\\{b:03o}"
        for b in name) + '"'


def plain_value(v):
    """(value,) of a constant or a tuple of constants, None otherwise."""
    if isinstance(v, Const):
        return (v.v,)
    if isinstance(v, Tup):
        xs = [plain_value(x) for x in v.items]
        return None if None in xs else (tuple(x[0] for x in xs),)
    return None


class Library:

    # ------------------------------------------------------------------
    # external functions
    # ------------------------------------------------------------------
    def call_ext(self, st, name, args, kwargs, node):
        hk = self.hooks.get("ext " + name)
        if hk is not None:
            r = hk(self, st, None, list(args), dict(kwargs), node)
            if r is not None:
                return r
        if name.startswith("builtins."):
            short = name[9:]
            if short in EXCEPTIONS:
                return [(st, T("exc", short, *[self.freeze_shallow(st, a) for a in args]))]
            m = getattr(self, "x_" + short, None)
            if m is not None:
                r = m(st, args, kwargs, node)
                if r is not None:
                    return r
            return self.opaque_call(st, name, None, args, kwargs, node)
        short = name.split(".")[-1]
        if name in ("typing.cast",) and len(args) == 2:
            return [(st, args[1])]
        if name.startswith("typing.") or name.startswith("collections.abc."):
            return [(st, T("call", name))]
        if name.startswith("logging.") or ".log." in name:
            return [(st, T("logger"))]
        if name in PURE and args and all(isinstance(a, Const) for a in args) and not kwargs:
            try:
                return [(st, const_value(PURE[name](*[a.v for a in args])))]
            except Exception as e:
                return [(st, Exc(type(e).__name__, None, self.loc(st, node)))]
        if name == "json.dumps":
            self_v = args[0]
            if isinstance(self_v, O) and st.heap[self_v].kind == "inst":
                return [(st, T("json", self_v))]
            return [(st, T("json", self.freeze(st, self_v)))]
        if name == "json.loads":
            v = args[0]
            if isinstance(v, T) and v.op == "encode":
                v = v.args[0]
            while isinstance(v, T) and v.op == "mcall" and v.args[1] in ("strip", "lstrip", "rstrip") \
                    and len(v.args) == 2:
                v = v.args[0]       # JSON texts are not surrounded by white space
            if isinstance(v, T) and v.op == "json":
                return [(st, self.thaw(st, v.args[0], True))]
            return [(st, T("jsonval", v))]
        if name == "json.dump":
            st.emit(Ev("call", "json.dump", None, (self.freeze(st, args[0]), *args[1:]), self.loc(st, node)))
            return [(st, NONE)]
        if name in ("collections.defaultdict",):
            ref = st.alloc(HObj("dict"), "defaultdict")
            st.update(ref).default = args[0] if args else None
            return [(st, ref)]
        if name in ("collections.OrderedDict",):
            return self.x_dict(st, args, kwargs, node)
        if name in ("collections.deque",):
            return self.x_list(st, args, kwargs, node)
        if name == "functools.partial":
            return [(st, T("partial", args[0], Tup(args[1:]), Tup(
                Tup((Const(k), v)) for k, v in sorted(kwargs.items()))))]
        if name == "operator.attrgetter":
            return [(st, T("getter", "attr", *args))]
        if name == "operator.itemgetter":
            return [(st, T("getter", "item", *args))]
        if name == "operator.methodcaller":
            return [(st, T("getter", "method", *args))]
        if name in ("itertools.chain", "itertools.chain.from_iterable"):
            if name.endswith("from_iterable"):
                out = st.alloc(HObj("list"), "list")

                def body(s, e):
                    h = s.update(out)
                    tag = tuple(s.loops[h.depth:])
                    h.segs = h.segs + tuple(
                        (x, tag + tuple(tg), sp) for x, tg, sp in self.splat_segs(s, e))
                    return [(s, None)]
                return [(s, ctl[1] if ctl else out) for s, ctl in self.iterate(st, args[0], body, node)]
            segs = []
            for a in args:
                segs.extend(self.splat_segs(st, a))
            return [(st, st.alloc(HObj("list", segs=tuple(segs)), "list"))]
        if name == "copy.deepcopy":
            st.emit(Ev("call", "copy.deepcopy", None, tuple(args), self.loc(st, node)))
            return [(st, T("deepcopy", self.freeze_shallow(st, args[0])))]
        if name == "copy.copy":
            v = args[0]
            if isinstance(v, O) and st.heap[v].kind != "inst":
                h = st.heap[v]
                return [(st, st.alloc(HObj(h.kind, segs=h.segs), h.kind))]
            return [(st, T("copy", v))]
        if name == "uuid.UUID":
            v = args[0] if args else NONE
            if not args and set(kwargs) == {"int"} and isinstance(kwargs["int"], Const):
                import uuid
                return [(st, Const(uuid.UUID(int=kwargs["int"].v)))]
            if isinstance(v, T) and v.op == "str":
                return [(st, v.args[0])]
            if isinstance(v, T) and v.op == "jsonkey" and isinstance(v.args[0], T) and v.args[0].op == "str":
                return [(st, v.args[0].args[0])]
            if isinstance(v, Const) and v.v is None:
                return [(st, Exc("TypeError", None, self.loc(st, node)))]
            if isinstance(v, Const) and isinstance(v.v, str):
                import uuid
                try:
                    return [(st, Const(uuid.UUID(v.v)))]
                except ValueError:
                    return [(st, Exc("ValueError", None, self.loc(st, node)))]
            return [(st, T("call", "uuid.UUID", v))]
        if name in ("time.time", "time.monotonic", "time.perf_counter", "uuid.uuid4"):
            st.n += 1
            return [(st, T("call", name, Const(st.n)))]
        if name.startswith("subprocess."):
            return self.x_subprocess(st, short, args, kwargs, node)
        if name == "shlex.split":
            v = args[0]
            if isinstance(v, Const):
                import shlex
                return [(st, st.alloc(HObj("list", segs=tuple(
                    (Const(x), (), False) for x in shlex.split(v.v))), "list"))]
            return [(st, T("call", name, v))]
        if name in ("os.fspath", "os.path.normpath", "os.path.abspath"):
            return [(st, T("str", args[0]) if self.typeof(st, args[0]) != "str" else args[0])]
        if name in ("os.path.join",):
            return [(st, T("div", *args))]
        if name in ("dataclasses.replace",):
            return [(st, T("call", name, *args))]
        if name.startswith("builtins.dict.") and args:
            return self.call_bm(st, args[0], short, args[1:], kwargs, node)
        if name.startswith("builtins.str.") and args:
            return self.call_bm(st, args[0], short, args[1:], kwargs, node)
        if name in ("pathlib.PurePath", "pathlib.PurePosixPath") and not kwargs:
            from .engine import pure_texts
            texts = pure_texts(args)
            if texts is not None:
                return [(st, T("purepath", Const(str(pathlib.PurePosixPath(*texts)))))]
        if name in ("pathlib.Path", "pathlib.PurePath", "pathlib.PurePosixPath", "pathlib.PosixPath"):
            if len(args) == 1 and isinstance(args[0], T):
                x = args[0]
                if x.op == "str" or x.op == "mcall" and x.args[1] == "as_posix":
                    if self.typeof(st, x.args[0]) == "Path" or isinstance(x.args[0], T) and x.args[0].op == "path":
                        return [(st, x.args[0])]
            return [(st, T("path", *[self.freeze_shallow(st, a) for a in args]))]
        if name == "contextlib.ExitStack":
            return [(st, T("exitstack", Const(st.n)))]
        if name == "os.getpid":
            return [(st, T("call", name))]
        return self.opaque_call(st, name, None, args, kwargs, node)

    # builtins -----------------------------------------------------------
    def x_len(self, st, args, kwargs, node):
        v = self.opened(st, args[0])
        if isinstance(v, Const):
            try:
                return [(st, Const(len(v.v)))]
            except TypeError:
                st.emit(Ev("nonederef", "len", v, (), self.loc(st, node)))
                return [(st, Exc("TypeError", None, self.loc(st, node)))]
        if isinstance(v, Tup):
            return [(st, Const(len(v.items)))]
        if isinstance(v, O):
            h = st.heap[v]
            if h.kind == "inst":
                m = self.p.find_method(h.cls, "__len__")
                if m:
                    return self.call(st, FnV(m, m.module, v, None, m.cls, m.name), [], {}, node)
                return [(st, T("len", v))]
            if h.kind in ("list", "dict") and not any(s[-1] or s[-2] for s in h.segs):
                if h.kind == "list" or len(h.segs) < 2:
                    return [(st, Const(len(h.segs)))]
            if not h.segs:
                return [(st, Const(0))]
            values = self.distinct_values(st, v)
            if values is not None:
                return [(st, Const(len(values)))]
            return [(st, T("len", self.freeze(st, v)))]
        text = self.path_text(v)
        if text is not None:
            return [(st, Const(len([x for x in text.split("/") if x])))]
        return [(st, T("len", v))]

    def isinstance_names(self, st, c):
        if isinstance(c, Tup):
            out = []
            for x in c.items:
                out.extend(self.isinstance_names(st, x))
            return out
        if isinstance(c, O) and st.heap[c].kind == "list":
            return [n for s in st.heap[c].segs for n in self.isinstance_names(st, s[0])]
        if isinstance(c, ClsV):
            return [c.cls.name]
        if isinstance(c, ExtV):
            return [c.name.split(".")[-1]]
        return [repr(c)]

    def isinstance_decide(self, st, v, name):
        if isinstance(v, Const):
            tn = type(v.v).__name__
            if name == "object":
                return True
            if tn == "bool" and name == "int":
                return True
            return tn == name
        if isinstance(v, Tup):
            return name in ("tuple", "Iterable", "Sequence")
        if isinstance(v, (FnV, BM)):
            return name in ("Callable",)
        if isinstance(v, ClsV):
            return name == "type"
        t = self.typeof(st, v)
        if t is None:
            if isinstance(v, T) and st.facts.get(self.eq_term(v, NONE)) is True:
                return name == "NoneType"
            return st.facts.get(T("isinstance", v, name))
        c, exact = self.type_class(t)
        if c is not None:
            if self.p.is_subclass(c, name) or name == "object":
                return True
            other = self.p.classes.get(name)
            if exact:
                return False
            f = st.facts.get(T("isinstance", v, name))
            if f is not None:
                return f
            if other is not None and (self.p.is_subclass(other, c.name)):
                return None
            return False
        if name == t or (name == "PurePath" and t == "Path") or (name == "PurePosixPath" and t == "Path"):
            return True
        if t == "bool" and name == "int":
            return True
        if name in ("Iterable", "Mapping", "Sequence", "Collection", "Hashable"):
            return None
        return False

    def x_isinstance(self, st, args, kwargs, node):
        v, c = args
        names = self.isinstance_names(st, c)
        und = []
        for n in names:
            d = self.isinstance_decide(st, v, n)
            if d is True:
                return [(st, TRUE)]
            if d is None:
                und.append(n)
        if not und:
            return [(st, FALSE)]
        if len(und) == 1:
            term = T("isinstance", v, und[0])
            if und[0] == "NoneType":
                term = self.eq_term(v, NONE)
            return [(s, Const(b)) for s, b in self.branch(st, term)]
        term = T("isinstance", v, "|".join(sorted(und)))
        res = self.branch(st, term)
        for s, b in res:
            others = [n for n in und if n != "NoneType"]
            if b and len(others) == 1 and v not in s.types:
                s.types[v] = "?" + ("<" + others[0] if others[0] in self.p.classes else others[0])
            if not b:
                for n in und:
                    s.facts[T("isinstance", v, n)] = False
        return [(s, Const(b)) for s, b in res]

    def x_issubclass(self, st, args, kwargs, node):
        a = args[0]
        if isinstance(a, ClsV):
            names = self.isinstance_names(st, args[1])
            return [(st, Const(any(self.p.is_subclass(a.cls, n) for n in names)))]
        return [(s, Const(b)) for s, b in self.branch(st, T("issubclass", *args))]

    def x_type(self, st, args, kwargs, node):
        v = args[0]
        if isinstance(v, Const):
            return [(st, ExtV("builtins." + type(v.v).__name__))]
        if isinstance(v, O):
            h = st.heap[v]
            if h.kind == "inst":
                return [(st, ClsV(h.cls))]
            return [(st, ExtV("builtins." + h.kind))]
        if isinstance(v, Tup):
            return [(st, ExtV("builtins.tuple"))]
        t = self.typeof(st, v)
        c, exact = self.type_class(t)
        if c is not None and exact:
            return [(st, ClsV(c))]
        if t in ("str", "int", "bool", "bytes", "dict", "list", "set", "tuple", "float"):
            return [(st, ExtV("builtins." + t))]
        return [(st, T("type", v))]

    def x_str(self, st, args, kwargs, node):
        if not args:
            return [(st, Const(""))]
        v = args[0]
        if len(args) > 1 or "encoding" in kwargs:
            return self.call_bm(st, v, "decode", [], {}, node)
        return [(st, self.to_str(st, v))]

    def x_repr(self, st, args, kwargs, node):
        return [(st, T("call", "builtins.repr", self.freeze_shallow(st, args[0])))]

    def x_int(self, st, args, kwargs, node):
        v = args[0] if args else Const(0)
        if isinstance(v, Const):
            try:
                return [(st, Const(int(v.v)))]
            except (TypeError, ValueError) as e:
                return [(st, Exc(type(e).__name__, None, self.loc(st, node)))]
        if isinstance(v, T) and v.op in ("jsonkey", "str"):
            return [(st, v.args[0])]
        return [(st, T("int", v))]

    def x_float(self, st, args, kwargs, node):
        v = args[0] if args else Const(0.0)
        if isinstance(v, Const):
            try:
                return [(st, Const(float(v.v)))]
            except (TypeError, ValueError) as e:
                return [(st, Exc(type(e).__name__, None, self.loc(st, node)))]
        return [(st, T("float", v))]

    def x_bool(self, st, args, kwargs, node):
        if not args:
            return [(st, FALSE)]
        return [(s, b if isinstance(b, Exc) else Const(b)) for s, b in self.truth(st, args[0])]

    def x_hash(self, st, args, kwargs, node):
        """__hash__ has to return an integer."""
        def no_number(x):
            return isinstance(x, (O, Tup, ClsV)) or isinstance(x, Const) and not isinstance(x.v, int)
        return [(s, Exc("TypeError", None, self.loc(s, node)) if no_number(x) else x)
                for s, x in self.hash_of(st, args, kwargs, node)]

    def hash_of(self, st, args, kwargs, node):
        v = args[0]
        if isinstance(v, O) and st.heap[v].kind == "inst":
            m = self.p.find_method(st.heap[v].cls, "__hash__")
            if m:
                return self.call(st, FnV(m, m.module, v, None, m.cls, m.name), [], {}, node)
            if self.p.find_method(st.heap[v].cls, "__eq__"):
                return [(st, Exc("TypeError", None, self.loc(st, node)))]
        if isinstance(v, T) and v.op == "new" and v.args[0] in self.p.classes and self.explicit(st, v):
            m = self.p.find_method(self.p.classes[v.args[0]], "__hash__")
            if m:
                return self.call(st, FnV(m, m.module, self.thaw(st, v.args[1]), None, m.cls, m.name), [], {}, node)
            return [(st, Exc("TypeError", None, self.loc(st, node)))]
        if isinstance(v, Tup):
            outs = [(st, ())]
            for x in v.items:
                outs = [(s2, r if isinstance(r, Exc) else done + (r,)) for s, done in outs
                        for s2, r in ([(s, done)] if isinstance(done, Exc) else self.x_hash(s, [x], kwargs, node))]
            return [(s, x if isinstance(x, Exc) else T("hash", Tup(x))) for s, x in outs]
        if isinstance(v, O) and st.heap[v].kind in ("list", "dict") or isinstance(v, T) and v.op == "fz" \
                and v.args[0] in ("list", "dict"):
            return [(st, Exc("TypeError", None, self.loc(st, node)))]
        if isinstance(v, O) and st.heap[v].kind == "set":
            values = self.distinct_values(st, v)
            if values is not None:
                outs = self.x_hash(st, [Tup(values)], kwargs, node)
                return [(s, x if isinstance(x, Exc) else T("hash", "set", *sorted(x.args[0].items, key=repr))) for s, x in outs]
        return [(st, T("hash", self.freeze(st, v)))]

    def x_callable(self, st, args, kwargs, node):
        if isinstance(args[0], (FnV, ClsV, BM)):
            return [(st, TRUE)]
        return [(s, Const(b)) for s, b in self.branch(st, T("callable", args[0]))]

    def x_id(self, st, args, kwargs, node):
        return [(st, T("id", args[0]))]

    def x_print(self, st, args, kwargs, node):
        if "file" in kwargs:
            st.emit(Ev("call", "print", kwargs["file"], tuple(self.freeze(st, a) for a in args), self.loc(st, node)))
        return [(st, NONE)]

    def _collect(self, st, kind, v, node):
        v = self.opened(st, v)
        if isinstance(v, O) and st.heap[v].kind in ("list", "set", "dict"):
            return [(st, st.alloc(HObj(kind, segs=tuple(self.splat_segs(st, v))), kind))]
        if isinstance(v, (Tup, Const)):
            return [(st, st.alloc(HObj(kind, segs=tuple(self.splat_segs(st, v))), kind))]
        if isinstance(v, (O, ClsV)) or (isinstance(v, T) and (
                v.op in ("enumerate", "zip") or self.type_class(self.typeof(st, v))[0] is not None)):
            ref = st.alloc(HObj(kind), kind)

            def body(s, e):
                h = s.update(ref)
                h.segs = h.segs + ((e, tuple(s.loops[h.depth:]), False),)
                return [(s, None)]
            return [(s, ctl[1] if ctl else ref) for s, ctl in self.iterate(st, v, body, node)]
        return [(st, st.alloc(HObj(kind, segs=((v, (), True),)), kind))]

    def x_list(self, st, args, kwargs, node):
        if not args:
            return [(st, st.alloc(HObj("list"), "list"))]
        return self._collect(st, "list", args[0], node)

    def x_set(self, st, args, kwargs, node):
        if not args:
            return [(st, st.alloc(HObj("set"), "set"))]
        res = []
        for s, v in self._collect(st, "set", args[0], node):
            values = None if isinstance(v, Exc) else self.distinct_values(s, v)
            if values is not None:
                s.update(v).segs = tuple((x, (), False) for x in values)
            res.append((s, v))
        return res

    def x_frozenset(self, st, args, kwargs, node):
        return self.x_set(st, args, kwargs, node)

    def x_tuple(self, st, args, kwargs, node):
        if not args:
            return [(st, Tup(()))]
        v = args[0]
        if isinstance(v, Tup):
            return [(st, v)]
        res = []
        for s, r in self._collect(st, "list", v, node):
            if isinstance(r, Exc):
                res.append((s, r))
            elif all(not x[1] and not x[2] for x in s.heap[r].segs):
                res.append((s, Tup(x[0] for x in s.heap[r].segs)))
            elif len(s.heap[r].segs) == 1 and s.heap[r].segs[0][2]:
                res.append((s, T("tuple", s.heap[r].segs[0][0])))
            else:
                res.append((s, r))
        return res

    def x_dict(self, st, args, kwargs, node):
        segs = []
        if args:
            v = args[0]
            if isinstance(v, O) and st.heap[v].kind == "dict":
                segs = list(st.heap[v].segs)
            elif isinstance(v, O) and st.heap[v].kind in ("list", "set") or isinstance(v, Tup):
                for x, tag, sp in self.splat_segs(st, v):
                    if isinstance(x, Tup) and len(x.items) == 2 and not sp:
                        segs = self.dict_put(st, segs, (x.items[0], x.items[1], tag, False))
                    elif isinstance(x, O) and st.heap[x].kind == "list" and len(st.heap[x].segs) == 2 and not sp:
                        ss = st.heap[x].segs
                        segs = self.dict_put(st, segs, (ss[0][0], ss[1][0], tag, False))
                    else:
                        segs.append((x, x, tag, True) if sp else (
                            T("item", x, Const(0)), T("item", x, Const(1)), tag, False))
            elif isinstance(v, Const):
                if v.v is None:
                    return [(st, Exc("TypeError", None, self.loc(st, node)))]
            else:
                w = v
                if isinstance(w, T) and w.op == "items":
                    w = w.args[0]
                segs = [(w, w, (), True)]
        for k, v in kwargs.items():
            if k == "**":
                segs.append((v, v, (), True))
            else:
                segs = self.dict_put(st, segs, (Const(k), v, (), False))
        return [(st, st.alloc(HObj("dict", segs=tuple(segs)), "dict"))]

    def x_sorted(self, st, args, kwargs, node):
        v = args[0]
        if isinstance(v, O) and st.heap[v].kind != "inst":
            res = self._collect(st, "list", v, node)
            out = []
            for s, r in res:
                if isinstance(r, Exc):
                    out.append((s, r))
                else:
                    out.extend((s2, r) for s2 in self.sort_list(s, r, kwargs, node))
            return out
        if isinstance(v, T):
            return [(st, T("sorted", v))]
        return self._collect(st, "list", v, node)

    def sort_list(self, st, ref, kwargs, node):
        """Put a list in an order that a sort may produce: the exact one for constants, both directions otherwise."""
        segs = st.heap[ref].segs
        if len(segs) < 2 or any(s[1] or s[2] for s in segs):
            return [st]
        key = kwargs.get("key", NONE)
        keys = []
        for x, _, _ in segs:
            k = x
            if key != NONE:
                probe = self.call(st.copy(), key, [x], {}, node)
                k = probe[0][1] if len(probe) == 1 else None
            keys.append(plain_value(k))
        reverse = kwargs.get("reverse", FALSE)
        if None not in keys and isinstance(reverse, Const):
            try:
                order = sorted(range(len(segs)), key=lambda i: keys[i][0], reverse=bool(reverse.v))
                st.update(ref).segs = tuple(segs[i] for i in order)
                return [st]
            except TypeError:
                pass
        out = []
        for s, same in self.branch(st, T("order", self.freeze(st, ref), key if isinstance(key, T) else NONE)):
            if not same:
                s.update(ref).segs = tuple(reversed(segs))
            out.append(s)
        return out

    def x_reversed(self, st, args, kwargs, node):
        v = args[0]
        if isinstance(v, T):
            return [(st, T("reversed", v))]
        res = self._collect(st, "list", v, node)
        for s, r in res:
            if not isinstance(r, Exc):
                h = s.update(r)
                h.segs = tuple(reversed(h.segs))
        return res

    def x_iter(self, st, args, kwargs, node):
        v = args[0]
        if isinstance(v, O) and st.heap[v].kind == "inst":
            return self._collect(st, "list", v, node)
        return [(st, v)]

    def x_next(self, st, args, kwargs, node):
        v = args[0]
        if isinstance(v, O) and st.heap[v].kind in ("list", "set"):
            segs = st.heap[v].segs
            res = []
            cur = st
            for x, tag, sp in segs:
                if sp:
                    for s, b in self.truth(cur.copy(), x):
                        if b is True:
                            res.append((s, T("elem", x)))
                        elif b is False:
                            cur = s
                            break
                    else:
                        return res
                    continue
                if tag and len(args) > 1:
                    # the element might be filtered out
                    pass
                res.append((cur, x))
                return res
            if len(args) > 1:
                res.append((cur, args[1]))
            else:
                res.append((cur, Exc("StopIteration", None, self.loc(cur, node))))
            return res
        if isinstance(v, T) and len(args) > 1:
            s2 = st.copy()
            return [(st, T("elem", v)), (s2, args[1])]
        return [(st, T("next", v))]

    def x_map(self, st, args, kwargs, node):
        f, its = args[0], args[1:]
        if len(its) != 1:
            return [(st, T("map", *args))]
        ref = st.alloc(HObj("list"), "map")

        def body(s, e):
            out = []
            for s2, v in self.call(s, f, [e], {}, node):
                if isinstance(v, Exc):
                    out.append((s2, ("raise", v)))
                    continue
                h = s2.update(ref)
                h.segs = h.segs + ((v, tuple(s2.loops[h.depth:]), False),)
                out.append((s2, None))
            return out
        return [(s, ctl[1] if ctl else ref) for s, ctl in self.iterate(st, its[0], body, node)]

    def x_filter(self, st, args, kwargs, node):
        f, it = args
        ref = st.alloc(HObj("list"), "filter")

        def body(s, e):
            out = []
            vals = [(s, e)] if f == NONE else self.call(s, f, [e], {}, node)
            for s2, v in vals:
                if isinstance(v, Exc):
                    out.append((s2, ("raise", v)))
                    continue
                for s3, b in self.truth(s2, v):
                    if isinstance(b, Exc):
                        out.append((s3, ("raise", b)))
                        continue
                    if b:
                        h = s3.update(ref)
                        h.segs = h.segs + ((e, tuple(s3.loops[h.depth:]), False),)
                    out.append((s3, None))
            return out
        return [(s, ctl[1] if ctl else ref) for s, ctl in self.iterate(st, it, body, node)]

    def _quant(self, st, v, node, is_all):
        segs = None
        if isinstance(v, O) and st.heap[v].kind in ("list", "set"):
            segs = st.heap[v].segs
        elif isinstance(v, Tup):
            segs = [(x, (), False) for x in v.items]
        if segs is None:
            return [(s, Const(b)) for s, b in self.branch(st, T("all" if is_all else "any", v))]
        res = []
        cur = [st]
        for x, tag, sp in segs:
            nxt = []
            for s in cur:
                if sp:
                    outs = self.branch(s, T("all" if is_all else "any", x))
                else:
                    outs = self.truth(s, x)
                for s2, b in outs:
                    if isinstance(b, Exc):
                        res.append((s2, b))
                    elif b is True and not is_all:
                        res.append((s2, TRUE))
                    elif b is False and is_all:
                        res.append((s2, FALSE))
                    else:
                        if b is False and tag and not is_all:
                            s3 = s2.copy()
                            s3.emit(Ev("other", "any", None, (v,), self.loc(s3, node)))
                            res.append((s3, TRUE))
                        nxt.append(s2)
            cur = nxt
        return res + [(s, Const(is_all)) for s in cur]

    def x_all(self, st, args, kwargs, node):
        return self._quant(st, args[0], node, True)

    def x_any(self, st, args, kwargs, node):
        return self._quant(st, args[0], node, False)

    def x_sum(self, st, args, kwargs, node):
        items = self.plain_items(st, args[0])
        if items is not None and len(args) == 1 and not kwargs and all(
                isinstance(x, Const) and isinstance(x.v, int) for x in items):
            return [(st, Const(sum(x.v for x in items)))]
        return [(st, T("sum", self.freeze_shallow(st, args[0])))]

    @staticmethod
    def plain_items(st, v):
        """Elements of a completely known list or tuple, or None."""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, O) and st.heap[v].kind == "list" and all(not s[1] and not s[2] for s in st.heap[v].segs):
            return [s[0] for s in st.heap[v].segs]
        return None

    def x_min(self, st, args, kwargs, node):
        return self._fold(st, "min", args)

    def x_max(self, st, args, kwargs, node):
        return self._fold(st, "max", args)

    def _fold(self, st, op, args):
        if all(isinstance(a, Const) for a in args) and len(args) > 1:
            return [(st, Const(getattr(builtins, op)(*[a.v for a in args])))]
        return [(st, T(op, *[self.freeze_shallow(st, a) for a in args]))]

    def x_abs(self, st, args, kwargs, node):
        return [(st, T("abs", args[0]))]

    def x_round(self, st, args, kwargs, node):
        return [(st, T("round", args[0]))]

    def x_range(self, st, args, kwargs, node):
        if all(isinstance(a, Const) for a in args):
            r = range(*[a.v for a in args])
            if len(r) <= 16:
                return [(st, st.alloc(HObj("list", segs=tuple(
                    (Const(i), (), False) for i in r)), "range"))]
        return [(st, T("range", *args))]

    def x_enumerate(self, st, args, kwargs, node):
        v = args[0]
        start = args[1] if len(args) > 1 else kwargs.get("start", Const(0))
        if isinstance(v, O) and st.heap[v].kind in ("list",):
            segs = st.heap[v].segs
            plain = all(not x[1] and not x[2] for x in segs)
            if plain and isinstance(start, Const):
                return [(st, st.alloc(HObj("list", segs=tuple(
                    (Tup((Const(i + start.v), x[0])), (), False)
                    for i, x in enumerate(segs))), "enumerate"))]
            if not any(x[2] for x in segs):
                return [(st, st.alloc(HObj("list", segs=tuple(
                    (Tup((T("index", self.freeze(st, v)), x[0])), x[1], False)
                    for x in segs)), "enumerate"))]
        if isinstance(v, Tup):
            return [(st, st.alloc(HObj("list", segs=tuple(
                (Tup((Const(i), x)), (), False) for i, x in enumerate(v.items))), "enumerate"))]
        return [(st, T("enumerate", self.freeze_shallow(st, v)))]

    def x_zip(self, st, args, kwargs, node):
        lists = []
        for a in args:
            if isinstance(a, Tup):
                lists.append([(x, (), False) for x in a.items])
            elif isinstance(a, O) and st.heap[a].kind == "list":
                lists.append(list(st.heap[a].segs))
            else:
                lists.append(None)
        known = [x for x in lists if x is not None]
        if known and all(x is not None for x in lists) and \
                all(not s[1] and not s[2] for x in lists for s in x):
            return [(st, st.alloc(HObj("list", segs=tuple(
                (Tup(y[0] for y in row), (), False) for row in zip(*lists))), "zip"))]
        if known and not any(s[2] for x in known for s in x) and len({len(x) for x in known}) == 1:
            segs = []
            for i in range(len(known[0])):
                tags = [x[i][1] for x in known]
                row = []
                for a, x in zip(args, lists):
                    row.append(x[i][0] if x is not None else T("elem", a, *([Const(i)] if not tags[0] else [])))
                segs.append((Tup(row), tags[0], False))
            return [(st, st.alloc(HObj("list", segs=tuple(segs)), "zip"))]
        return [(st, T("zip", *[self.freeze_shallow(st, a) for a in args]))]

    def x_getattr(self, st, args, kwargs, node):
        if not isinstance(args[1], Const):
            return [(st, T("getattr", *args))]
        res = []
        for s, v in self.get_attr(st, args[0], args[1].v, node):
            if isinstance(v, Exc) and len(args) > 2:
                res.append((s, args[2]))
            else:
                res.append((s, v))
        return res

    def x_hasattr(self, st, args, kwargs, node):
        if not isinstance(args[1], Const):
            return [(st, T("hasattr", *args))]
        if isinstance(args[0], T):
            return [(s, Const(b)) for s, b in self.branch(st, T("hasattr", *args))]
        return [(s, Const(not isinstance(v, Exc))) for s, v in self.get_attr(st, args[0], args[1].v, node)]

    def x_setattr(self, st, args, kwargs, node):
        if not isinstance(args[1], Const):
            st.emit(Ev("setattr", "?", args[0], (args[2],), self.loc(st, node)))
            return [(st, NONE)]
        return self.set_attr(st, args[0], args[1].v, args[2], node)

    def x_vars(self, st, args, kwargs, node):
        return [(st, T("vars", args[0]))]

    def x_super(self, st, args, kwargs, node):
        return [(st, T("super", NONE))]

    def x_bytearray(self, st, args, kwargs, node):
        if args and (len(args) > 1 or kwargs):
            return self.call_bm(st, args[0], "encode", list(args[1:]), dict(kwargs), node)
        if args and self.typeof(st, args[0]) == "str":
            return [(st, Exc("TypeError", None, self.loc(st, node)))]
        if args and isinstance(args[0], Const) and type(args[0].v) is int and 0 <= args[0].v < 10000:
            return [(st, Const(bytes(args[0].v)))]
        return [(st, args[0] if args else Const(b""))]

    x_bytes = x_bytearray

    def x_object(self, st, args, kwargs, node):
        st.n += 1
        return [(st, T("object", Const(st.n)))]

    # processes ----------------------------------------------------------
    def x_subprocess(self, st, name, args, kwargs, node):
        argv = args[0] if args else kwargs.get("args", NONE)
        shell = kwargs.get("shell", FALSE)
        stdin = kwargs.get("input", kwargs.get("stdin", NONE))
        cwd = kwargs.get("cwd", NONE)
        check = kwargs.get("check", FALSE)
        text = any(k in kwargs and kwargs[k] not in (FALSE, NONE)
                   for k in ("text", "universal_newlines", "encoding"))
        if name not in ("run", "check_output", "check_call", "call", "Popen", "getoutput", "getstatusoutput"):
            return self.opaque_call(st, "subprocess." + name, None, args, kwargs, node)
        sub, repo, rest, is_list = self.parse_argv(st, argv)
        if repo is None and cwd != NONE:
            repo = T("cwd", cwd)
        if sub is None:
            st.emit(Ev("proc", name, None, (self.freeze(st, argv), stdin), self.loc(st, node),
                       extra={"shell": shell, "check": check, "list": is_list,
                              "kwargs": tuple(kwargs), "text": text}))
            st.n += 1
            run = T("run", "?", NONE, self.freeze(st, argv), stdin, Const(st.n))
        else:
            extra_id = ()
            if sub not in READ_ONLY_GIT or any(isinstance(a, Const) and isinstance(a.v, str)
                                               and a.v.startswith("refs/") for a in rest):
                if sub not in ("hash-object", "mktree"):
                    st.n += 1
                    extra_id = (Const(st.n),)
            run = T("run", sub, repo if repo is not None else NONE, Tup(rest), stdin, *extra_id)
            st.emit(Ev("git", sub, repo, tuple(rest), self.loc(st, node),
                       extra={"stdin": stdin, "shell": shell, "check": check, "list": is_list,
                              "kwargs": tuple(kwargs), "run": run, "text": text,
                              "stdout": kwargs.get("stdout", NONE)}))
        if text:
            st.facts[T("textmode", run)] = True
        rc = T("attr", run, "returncode")
        fail = self.git_may_fail(sub, st) if self.git_may_fail else False
        zero = self.eq_term(rc, Const(0))
        known = st.facts.get(zero)
        outs = []
        if not fail or known is True:
            self.assume(st, zero, True)
            st.facts[rc] = False
            outs.append((st, True))
        elif known is False:
            outs.append((st, False))
        else:
            s2 = st.copy()
            self.assume(st, zero, True)
            st.facts[rc] = False
            self.assume(s2, zero, False)
            s2.facts[rc] = True
            s2.emit(Ev("gitfail", sub, repo, tuple(rest), self.loc(s2, node), extra=run))
            outs = [(st, True), (s2, False)]
        res = []
        checked = name in ("check_output", "check_call") or check == TRUE
        for s, ok in outs:
            if not ok and checked:
                res.append((s, Exc("CalledProcessError", None, self.loc(s, node))))
            elif name == "check_output":
                v = T("stdout", run)
                if text:
                    res.extend(self.call_bm(s, v, "decode", [], {}, node))
                else:
                    res.append((s, v))
            elif name in ("call", "check_call"):
                res.append((s, rc if name == "call" else Const(0)))
            elif name == "getoutput":
                res.append((s, T("decode", T("stdout", run))))
            else:
                res.append((s, run))
        return res

    def parse_argv(self, st, argv):
        """(sub-command, repository, arguments, is a list)"""
        is_list = False
        vals = None
        if isinstance(argv, Tup):
            vals, is_list = list(argv.items), True
        elif isinstance(argv, O) and st.heap[argv].kind == "list":
            is_list = True
            vals = [x[0] if not x[2] else T("star", x[0]) for x in st.heap[argv].segs]
        elif isinstance(argv, T) and argv.op in ("call",) and argv.args[0] == "shlex.split":
            is_list = True
        elif isinstance(argv, T) and argv.op == "fz":
            is_list = True
            vals = [s.args[0] for s in argv.args[1:]]
        if not vals or vals[0] != Const("git"):
            return None, None, (), is_list
        i, repo = 1, None
        while i < len(vals):
            v = vals[i]
            if isinstance(v, Const) and isinstance(v.v, str) and v.v.startswith("-"):
                if v.v in ("--git-dir", "-C", "--work-tree", "-c"):
                    if v.v in ("--git-dir", "-C") and i + 1 < len(vals):
                        repo = self.strip_git_dir(st, vals[i + 1], v.v == "-C")
                    i += 2
                    continue
                i += 1
                continue
            if isinstance(v, T) and v.op == "concat" and isinstance(v.args[0], Const) \
                    and isinstance(v.args[0].v, str) and v.args[0].v.startswith("--git-dir="):
                head = v.args[0].v[len("--git-dir="):]
                from .engine import concat
                repo = self.strip_git_dir(st, concat(([Const(head)] if head else []) + list(v.args[1:])), False)
                i += 1
                continue
            break
        if i >= len(vals):
            return None, None, (), is_list
        sub = vals[i]
        if not (isinstance(sub, Const) and isinstance(sub.v, str)):
            return "?", repo, tuple(vals[i:]), is_list
        return sub.v, repo, tuple(vals[i + 1:]), is_list

    def strip_git_dir(self, st, v, plain):
        def norm(x):
            while isinstance(x, T) and x.op in ("str", "path") and len(x.args) == 1:
                x = x.args[0]
            return x
        if isinstance(v, T) and v.op == "mcall" and v.args[1] == "as_posix":
            v = v.args[0]
        v = norm(v)
        if plain:
            return v
        if isinstance(v, T) and v.op == "div" and v.args[-1] == Const(".git"):
            return norm(v.args[0])
        if isinstance(v, T) and v.op == "concat" and isinstance(v.args[-1], Const) \
                and v.args[-1].v.endswith("/.git"):
            from .engine import concat
            rest = v.args[-1].v[:-5]
            return norm(concat(list(v.args[:-1]) + ([Const(rest)] if rest else [])))
        return T("gitdir", v)

    def git_text(self, st, run):
        """Text that a git command prints."""
        sub = run.args[0]
        stdin = run.args[3]
        args = run.args[2].items if isinstance(run.args[2], Tup) else ()
        if isinstance(stdin, T) and stdin.op == "encode":
            stdin = stdin.args[0]
        if isinstance(stdin, Const) and isinstance(stdin.v, bytes):
            stdin = Const(stdin.v.decode(errors="replace"))
        if sub == "hash-object" and Const("--stdin-paths") not in args:
            return T("outline", T("objid", "blob", stdin))
        if sub == "mktree":
            return T("outline", T("objid", "tree", stdin))
        if sub == "show" or (sub == "cat-file" and args[:1] in (
                (Const("blob"),), (Const("-p"),))):
            x = args[-1]
            if isinstance(x, T) and x.op == "objid" and x.args[0] == "blob":
                return x.args[1]
            if sub == "show" or args[:1] == (Const("blob"),):
                return T("blobtext", run.args[1], x)
        return T("decode", T("stdout", run))

    def tree_lines(self, st, run):
        """Lines that git prints for a tree that was written on this path."""
        sub = run.args[0]
        args = run.args[2].items if isinstance(run.args[2], Tup) else ()
        if not (sub == "ls-tree" or (sub == "cat-file" and args[:1] == (Const("-p"),))):
            return None
        x = args[-1] if args else None
        if not (isinstance(x, T) and x.op == "objid" and x.args[0] == "tree"):
            return None
        text = x.args[1]
        parts = list(text.args) if isinstance(text, T) and text.op == "concat" else [text]
        segs = []
        cur = []        # parts of the line that is currently assembled

        def end_line(ps, tag):
            seg = self.tree_line(st, ps)
            if seg is None:
                return False
            segs.append((seg, tag, False))
            return True

        for p in parts:
            if isinstance(p, Const):
                if not isinstance(p.v, str):
                    return None
                pieces = p.v.split("\n")
                for n, piece in enumerate(pieces):
                    if piece:
                        cur.append(Const(piece))
                    if n + 1 < len(pieces) and cur:
                        if not end_line(cur, ()):
                            return None
                        cur = []
                continue
            if isinstance(p, T) and p.op == "join" and isinstance(p.args[1], T) and p.args[1].op == "fz" and not cur:
                if p.args[0] not in (Const("\n"), Const("")):
                    return None
                for s in p.args[1].args[1:]:
                    line, tag, sp = s.args[0], s.args[1].items, s.args[2].v
                    if sp or not (isinstance(line, T) and line.op == "concat"):
                        return None
                    ps = list(line.args)
                    while ps and isinstance(ps[-1], Const) and ps[-1].v.endswith("\n"):
                        t = ps[-1].v[:-1]
                        ps = ps[:-1] + ([Const(t)] if t else [])
                    if not end_line(ps, tag):
                        return None
                continue
            cur.append(p)
        if cur and not end_line(cur, ()):
            return None
        return st.alloc(HObj("list", segs=tuple(segs)), "lines")

    def tree_line(self, st, ps):
        """A line of a tree listing, made from the parts of the line given to mktree."""
        from .engine import concat
        idx = [i for i, q in enumerate(ps) if isinstance(q, Const) and "\t" in q.v]
        if not idx:
            return None
        i = idx[0]
        h, t = ps[i].v.split("\t", 1)
        name = concat(([Const(t)] if t else []) + list(ps[i + 1:]))
        plain = isinstance(name, T) and name.op == "str" and self.typeof(st, name.args[0]) in ("UUID", "int")
        if isinstance(name, Const):
            shown = Const(git_quote(git_unquote(name.v)))
        else:
            shown = name if plain else T("gitname", name)
        return concat(list(ps[:i]) + [Const(h + "\t"), shown])

    # ------------------------------------------------------------------
    # bound methods
    # ------------------------------------------------------------------
    def call_bm(self, st, recv, name, args, kwargs, node):
        if isinstance(recv, Const):
            return self.bm_const(st, recv, name, args, kwargs, node)
        if isinstance(recv, Tup):
            if name == "index" or name == "count":
                return [(st, T("mcall", recv, name, *args))]
            return self.opaque_call(st, name, recv, args, kwargs, node)
        if isinstance(recv, O):
            h = st.heap[recv]
            if h.kind == "list":
                return self.bm_list(st, recv, name, args, kwargs, node)
            if h.kind == "set":
                return self.bm_list(st, recv, name, args, kwargs, node)
            if h.kind == "dict":
                return self.bm_dict(st, recv, name, args, kwargs, node)
            return self.opaque_call(st, name, recv, args, kwargs, node)
        if isinstance(recv, T):
            return self.bm_term(st, recv, name, args, kwargs, node)
        return self.opaque_call(st, name, recv, args, kwargs, node)

    def bm_const(self, st, recv, name, args, kwargs, node):
        v = recv.v
        if v is None:
            st.emit(Ev("nonederef", name, recv, (), self.loc(st, node)))
            return [(st, Exc("AttributeError", None, self.loc(st, node)))]
        if name == "join":
            return [(st, self.join(st, recv, args[0]))]
        if name == "format" and isinstance(v, str):
            return [(st, self.fmt(st, v, args, kwargs))]
        plain = [plain_value(a) for a in args]
        plain_kw = {k: plain_value(a) for k, a in kwargs.items()}
        if None not in plain and None not in plain_kw.values() and not isinstance(v, (bool, float)):
            try:
                r = getattr(v, name)(*[a[0] for a in plain], **{k: a[0] for k, a in plain_kw.items()})
            except Exception as e:
                return [(st, Exc(type(e).__name__, None, self.loc(st, node)))]
            if isinstance(r, list):
                return [(st, st.alloc(HObj("list", segs=tuple(
                    (Const(x), (), False) for x in r)), "list"))]
            if isinstance(r, tuple):
                return [(st, Tup(Const(x) for x in r))]
            if r is None or isinstance(r, (str, bytes, int, float, bool)):
                return [(st, Const(r))]
        if name in ("encode", "decode"):
            try:
                return [(st, Const(getattr(v, name)()))]
            except Exception as e:
                return [(st, Exc(type(e).__name__, None, self.loc(st, node)))]
        return [(st, T("mcall", recv, name, *[self.freeze_shallow(st, a) for a in args]))]

    def fmt(self, st, template, args, kwargs):
        import string
        from .engine import concat
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(template):
                if lit:
                    parts.append(Const(lit))
                if field is None:
                    continue
                if spec or conv:
                    return T("fmt", Const(template), *args)
                if field == "":
                    parts.append(self.to_str(st, args[auto]))
                    auto += 1
                elif field.isdigit():
                    parts.append(self.to_str(st, args[int(field)]))
                elif field in kwargs:
                    parts.append(self.to_str(st, kwargs[field]))
                else:
                    return T("fmt", Const(template), *args)
        except (ValueError, IndexError):
            return T("fmt", Const(template), *args)
        return concat(parts)

    def join(self, st, sep, v):
        from .engine import concat
        if isinstance(v, O) and st.heap[v].kind in ("list", "set"):
            segs = st.heap[v].segs
            if st.heap[v].kind == "list" and all(not s[1] and not s[2] for s in segs):
                parts = []
                for i, s in enumerate(segs):
                    if i:
                        parts.append(sep)
                    parts.append(s[0])
                return concat(parts)
            return T("join", sep, self.freeze(st, v))
        if isinstance(v, Tup):
            parts = []
            for i, s in enumerate(v.items):
                if i:
                    parts.append(sep)
                parts.append(s)
            return concat(parts)
        return T("join", sep, self.freeze_shallow(st, v))

    def _mut(self, st, name, recv, args, node):
        label = st.heap[recv].label if isinstance(recv, O) else None
        st.emit(Ev("mut", name, recv, args, self.loc(st, node), extra=label))

    def bm_list(self, st, recv, name, args, kwargs, node):
        h = st.heap[recv]
        tag = tuple(st.loops[h.depth:])
        if name in LIST_MUT:
            self._mut(st, name, recv, args, node)
        if name in ("append", "add", "appendleft"):
            nh = st.update(recv)
            if h.kind == "set" and any(not s[1] and not s[2] and s[0] == args[0] for s in h.segs):
                return [(st, NONE)]
            seg = ((args[0], tag, False),)
            nh.segs = seg + h.segs if name == "appendleft" else h.segs + seg
            return [(st, NONE)]
        if name == "insert":
            nh = st.update(recv)
            if args[0] == Const(0):
                nh.segs = ((args[1], tag, False),) + h.segs
            else:
                nh.segs = h.segs + ((args[1], tag, False),)
            return [(st, NONE)]
        if name in ("extend", "update", "union"):
            segs = []
            for a in args:
                if isinstance(a, O) and st.heap[a].kind == "inst" or isinstance(a, T) and a.op in ("zip", "enumerate"):
                    for s, r in self._collect(st, "list", a, node):
                        if isinstance(r, O):
                            segs.extend(s.heap[r].segs)
                            st = s
                else:
                    segs.extend(self.splat_segs(st, a))
            segs = tuple((x, tag + tuple(tg), sp) for x, tg, sp in segs)
            if name == "union":
                return [(st, st.alloc(HObj(h.kind, segs=h.segs + segs), h.kind))]
            st.update(recv).segs = h.segs + segs
            return [(st, NONE)]
        if name == "clear":
            st.update(recv).segs = ()
            return [(st, NONE)]
        if name in ("pop", "popleft"):
            plain = all(not s[1] and not s[2] for s in h.segs)
            if not h.segs:
                return [(st, Exc("IndexError", None, self.loc(st, node)))]
            if plain and h.kind == "list" and (not args or isinstance(args[0], Const)):
                i = args[0].v if args else (0 if name == "popleft" else -1)
                segs = list(h.segs)
                try:
                    v = segs.pop(i)
                except IndexError:
                    return [(st, Exc("IndexError", None, self.loc(st, node)))]
                st.update(recv).segs = tuple(segs)
                return [(st, v[0])]
            return [(st, T("popped", self.freeze(st, recv)))]
        if name in ("remove", "discard"):
            segs = [s for s in h.segs if s[2] or s[1] or self.decide_eq(st, s[0], args[0]) is not True]
            st.update(recv).segs = tuple(segs)
            return [(st, NONE)]
        if name == "copy":
            return [(st, st.alloc(HObj(h.kind, segs=h.segs), h.kind))]
        if name == "reverse":
            st.update(recv).segs = tuple(reversed(h.segs))
            return [(st, NONE)]
        if name == "sort":
            return [(s, NONE) for s in self.sort_list(st, recv, kwargs, node)]
        if name == "index":
            plain = all(not s[1] and not s[2] for s in h.segs)
            if plain and len(h.segs) <= 8:
                res, cur = [], [st]
                for i, s in enumerate(h.segs):
                    nxt = []
                    for s1 in cur:
                        for s2, c in self.compare(s1, s[0], args[0]):
                            if isinstance(c, Exc):
                                res.append((s2, c))
                                continue
                            for s3, b in self.truth(s2, c):
                                if b is True:
                                    res.append((s3, Const(i)))
                                elif b is False:
                                    nxt.append(s3)
                                else:
                                    res.append((s3, b))
                    cur = nxt
                return res + [(s1, Exc("ValueError", None, self.loc(s1, node))) for s1 in cur]
            return [(st, T("indexof", args[0], recv))]
        if name == "count":
            if all(not s[1] and not s[2] for s in h.segs):
                ds = [self.decide_eq(st, s[0], args[0]) for s in h.segs]
                if all(d is not None for d in ds):
                    return [(st, Const(sum(ds)))]
            return [(st, T("count", self.freeze(st, recv), args[0]))]
        if name in ("difference", "intersection", "issubset", "issuperset", "isdisjoint",
                    "symmetric_difference", "union"):
            if len(args) == 1:
                r = self.set_operation(st, name, recv, args[0])
                if r is not None:
                    if isinstance(r, bool):
                        return [(st, Const(r))]
                    return [(st, st.alloc(HObj("set", segs=tuple((x, (), False) for x in r)), "set"))]
            return [(st, T("setop", name, self.freeze(st, recv), *[self.freeze_shallow(st, a) for a in args]))]
        if name == "__contains__":
            return self.contains(st, args[0], recv, node)
        if name == "__len__":
            return self.x_len(st, [recv], {}, node)
        if name == "__iter__":
            return [(st, recv)]
        return self.opaque_call(st, name, recv, args, kwargs, node)

    def bm_dict(self, st, recv, name, args, kwargs, node):
        h = st.heap[recv]
        if name in ("items", "values", "keys"):
            return [(st, self.dict_view(st, recv, name))]
        if name == "get":
            dflt = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            return self.dict_get(st, recv, args[0], dflt, node)
        if name == "copy":
            return [(st, st.alloc(HObj("dict", segs=h.segs), "dict"))]
        if name == "setdefault":
            dflt = args[1] if len(args) > 1 else NONE
            res = []
            for s, b in self.contains(st, args[0], recv, node):
                if b == TRUE:
                    res.extend(self.dict_get(s, recv, args[0], None, node))
                elif isinstance(b, Exc):
                    res.append((s, b))
                else:
                    for s2, r in self.set_item(s, recv, args[0], dflt, node):
                        res.append((s2, dflt))
            return res
        if name == "update":
            self._mut(st, name, recv, args, node)
            segs = list(h.segs)
            tag = tuple(st.loops[h.depth:])
            for a in list(args):
                if isinstance(a, O) and st.heap[a].kind == "dict":
                    for k, v, tg, sp in st.heap[a].segs:
                        segs = self.dict_put(st, segs, (k, v, tag + tuple(tg), sp))
                elif isinstance(a, (O, Tup)):
                    for s, r in self.x_dict(st, [a], {}, node):
                        if isinstance(r, O):
                            for k, v, tg, sp in s.heap[r].segs:
                                segs = self.dict_put(s, segs, (k, v, tag + tuple(tg), sp))
                else:
                    segs.append((a, a, tag, True))
            for k, v in kwargs.items():
                segs = self.dict_put(st, segs, (Const(k), v, tag, False))
            st.update(recv).segs = tuple(segs)
            return [(st, NONE)]
        if name == "pop":
            res = []
            for s, b in self.contains(st, args[0], recv, node):
                if b == TRUE:
                    for s2, v in self.dict_get(s, recv, args[0], None, node):
                        if not isinstance(v, Exc):
                            self.del_item(s2, recv, args[0], node)
                        res.append((s2, v))
                elif isinstance(b, Exc):
                    res.append((s, b))
                elif len(args) > 1:
                    res.append((s, args[1]))
                else:
                    res.append((s, Exc("KeyError", None, self.loc(s, node))))
            return res
        if name == "clear":
            self._mut(st, name, recv, args, node)
            st.update(recv).segs = ()
            return [(st, NONE)]
        if name == "__contains__":
            return self.contains(st, args[0], recv, node)
        if name == "__getitem__":
            return self.get_item(st, recv, args[0], node)
        if name == "__setitem__":
            return self.set_item(st, recv, args[0], args[1], node)
        if name == "__delitem__":
            return self.del_item(st, recv, args[0], node)
        if name == "__len__":
            return self.x_len(st, [recv], {}, node)
        if name in LIST_MUT:
            self._mut(st, name, recv, args, node)
        return self.opaque_call(st, name, recv, args, kwargs, node)

    def bm_term(self, st, recv, name, args, kwargs, node):
        from .engine import concat, unwrap
        if recv.op == "logger" or name in LOG_METHODS and (
                recv.op in ("logger", "attr") and "log" in repr(recv).lower()):
            return [(st, NONE)]
        if recv.op == "purepath":
            from .engine import pure_texts
            texts = pure_texts(args)
            if texts is not None and not kwargs:
                try:
                    v = getattr(pathlib.PurePosixPath(recv.args[0].v), name)(*texts)
                except Exception as e:
                    return [(st, Exc(type(e).__name__, None, self.loc(st, node)))]
                if isinstance(v, (str, bool, bytes)):
                    return [(st, Const(v))]
                if isinstance(v, pathlib.PurePath):
                    return [(st, T("purepath", Const(str(v))))]
        if recv.op == "super" and name in ("__init__", "__new__"):
            st.emit(Ev("super", name, recv, tuple(args), self.loc(st, node)))
        if recv.op == "super" and name == "__init__":
            return [(st, NONE)]
        if recv.op == "super" and name == "__eq__":
            return [(st, T("mcall", recv, name, *args))]
        if st.facts.get(self.eq_term(recv, NONE)) is True:
            st.emit(Ev("nonederef", name, recv, (), self.loc(st, node)))
            return [(st, Exc("AttributeError", None, self.loc(st, node)))]
        hk = self.hooks.get("." + name)
        if hk is not None:
            r = hk(self, st, recv, list(args), dict(kwargs), node)
            if r is not None:
                return r
        # strings
        if name == "encode":
            return [(st, T("encode", recoded(recv, codec_of(args, kwargs))))]
        if name == "decode":
            if recv.op == "encode":
                return [(st, recoded(recv.args[0], codec_of(args, kwargs)))]
            if recv.op == "stdout" and isinstance(recv.args[0], T) and recv.args[0].op == "run":
                text = self.git_text(st, recv.args[0])
                if st.facts.get(T("textmode", recv.args[0])) and isinstance(text, T) and text.op in ("sym", "attr"):
                    text = T("newlines", text)      # line breaks of text streams are translated
                return [(st, recoded(text, codec_of(args, kwargs)))]
            return [(st, T("decode", recv))]
        if name == "communicate" and recv.op == "run":
            out = T("stdout", recv)
            if st.facts.get(T("textmode", recv)):
                return [(s, Tup((v, T("attr", recv, "stderr")))) for s, v in self.call_bm(st, out, "decode", [], {}, node)]
            return [(st, Tup((out, T("attr", recv, "stderr"))))]
        if name == "wait" and recv.op == "run":
            return [(st, T("attr", recv, "returncode"))]
        if name == "check_returncode" and recv.op == "run":
            res = []
            for s, b in self.branch(st, self.eq_term(T("attr", recv, "returncode"), Const(0))):
                res.append((s, NONE if b else Exc("CalledProcessError", None, self.loc(s, node))))
            return res
        if name == "splitlines" or (name == "split" and args[:1] == [Const("\n")]):
            if recv.op == "outline":
                return [(st, st.alloc(HObj("list", segs=((recv.args[0], (), False),)), "lines"))]
            if recv.op == "decode" and isinstance(recv.args[0], T) and recv.args[0].op == "stdout":
                run = recv.args[0].args[0]
                if isinstance(run, T) and run.op == "run":
                    r = self.tree_lines(st, run)
                    if r is not None:
                        return [(st, r)]
            return [(st, T("lines", recv))]
        if name in ("strip", "rstrip") and recv.op == "outline":
            return [(st, recv.args[0])]
        if name in ("strip", "rstrip", "lstrip") and recv.op == "objid":
            return [(st, recv)]
        if name == "split" and recv.op == "outline":
            return [(st, st.alloc(HObj("list", segs=((recv.args[0], (), False),)), "list"))]
        if name in ("split", "partition", "rsplit") and args and isinstance(args[0], Const) \
                and recv.op == "concat" and isinstance(args[0].v, str):
            pieces = [[]]
            limit = args[1].v if len(args) > 1 and isinstance(args[1], Const) else \
                kwargs["maxsplit"].v if isinstance(kwargs.get("maxsplit"), Const) else -1
            if name == "partition":
                limit = 1
            count = 0
            ps = list(recv.args)
            while ps:
                p = ps.pop(0)
                if isinstance(p, Const) and args[0].v in p.v and (limit < 0 or count < limit):
                    a, b = p.v.split(args[0].v, 1)
                    if a:
                        pieces[-1].append(Const(a))
                    pieces.append([])
                    count += 1
                    if b:
                        ps.insert(0, Const(b))
                else:
                    pieces[-1].append(p)
            vals = [concat(x) for x in pieces]
            if name == "partition":
                if len(vals) == 2:
                    return [(st, Tup((vals[0], args[0], vals[1])))]
                return [(st, Tup((vals[0], Const(""), Const(""))))]
            return [(st, st.alloc(HObj("list", segs=tuple((v, (), False) for v in vals)), "list"))]
        if name == "split" and not args and recv.op == "concat":
            return self.bm_term(st, recv, "split", [Const(" ")], kwargs, node)
        if name == "partition":
            return [(st, Tup(tuple(T("part", recv, args[0], Const(i)) for i in range(3))))]
        if name == "startswith" and isinstance(args[0], Const) and recv.op == "concat" \
                and isinstance(recv.args[0], Const) and isinstance(args[0].v, str) \
                and isinstance(recv.args[0].v, str):
            if len(recv.args[0].v) >= len(args[0].v):
                return [(st, Const(recv.args[0].v.startswith(args[0].v)))]
            if not args[0].v.startswith(recv.args[0].v):
                return [(st, FALSE)]
        if name == "startswith" and recv.op in ("objid",) and isinstance(args[0], Const):
            return [(st, FALSE)]
        if name == "join" and len(args) == 1:
            return [(st, self.join(st, recv, args[0]))]
        if name in ("startswith", "endswith", "exists", "isdigit", "is_absolute", "is_dir", "is_file",
                    "isspace", "isalpha", "issubset", "isdisjoint", "issuperset", "__contains__"):
            if name == "__contains__":
                return self.contains(st, args[0], recv, node)
            term = T("mcall", recv, name, *[self.freeze_shallow(st, a) for a in args])
            if name in ("exists", "is_dir", "is_file"):
                st.emit(Ev("call", name, recv, tuple(args), self.loc(st, node)))
            return [(s, Const(b)) for s, b in self.branch(st, term)]
        # containers
        t = self.typeof(st, recv)
        if name in ("items", "values", "keys") and not args:
            return [(st, T(name, recv))]
        if name == "copy" and not args:
            if t == "dict" or t is None:
                pass
            if t == "dict":
                return [(st, st.alloc(HObj("dict", segs=((recv, recv, (), True),)), "dict"))]
            return [(st, T("copy", recv))]
        if name == "get" and args and t not in ("str",):
            return self.term_get(st, recv, args[0], args[1] if len(args) > 1 else NONE, node)
        if name in LIST_MUT and t not in ("str", "bytes"):
            return self.term_mut(st, recv, name, args, kwargs, node)
        if name == "__getitem__" and len(args) == 1:
            return self.get_item(st, recv, args[0], node)
        if name == "__setitem__" and len(args) == 2:
            return self.set_item(st, recv, args[0], args[1], node)
        if name == "index" and len(args) == 1:
            return [(st, T("indexof", args[0], recv))]
        if name == "format" and recv.op == "concat":
            return [(st, T("fmt", recv, *args))]
        if name == "hexdigest" and not args and recv.op == "call" and len(recv.args) == 2 and isinstance(recv.args[1], Const) \
                and isinstance(recv.args[1].v, bytes) and str(recv.args[0]) in DIGESTS:
            return [(st, Const(getattr(hashlib, str(recv.args[0]).split(".")[1])(recv.args[1].v).hexdigest()))]
        if name in ("replace", "strip", "lstrip", "rstrip", "lower", "upper", "as_posix", "hexdigest",
                    "removeprefix", "removesuffix", "find", "rfind", "count", "hex", "split", "rsplit",
                    "total_seconds", "with_name", "relative_to", "joinpath", "translate", "isoformat"):
            if name == "as_posix" and self.path_text(recv) is not None:
                return [(st, recv.args[1])]
            if name == "joinpath":
                if self.path_text(recv) is not None and all(
                        isinstance(a, Const) or self.path_text(a) is not None for a in args):
                    return [(st, self.new_path(st, recv.args[0], [recv, *args]))]
                v = recv
                for a in args:
                    v = T("div", v, a)
                return [(st, v)]
            return [(st, T("mcall", recv, name, *[self.freeze_shallow(st, a) for a in args]))]
        if name in ("resolve", "absolute") and recv.op == "path" and len(recv.args) == 1 and isinstance(recv.args[0], Const) \
                and isinstance(recv.args[0].v, str) and not recv.args[0].v.startswith("/"):
            # some directory is the current one
            return [(st, T("path", Const("/current/directory/" + recv.args[0].v)))]
        # method of a class instance with a known class?
        c, exact = self.type_class(t)
        if c is not None:
            m = self.p.find_method(c, name)
            if m is not None:
                return self.call(st, FnV(m, m.module, recv, None, m.cls, m.name), args, kwargs, node)
        return self.opaque_call(st, name, recv, args, kwargs, node)

    def term_get(self, st, recv, key, default, node):
        res = []
        if isinstance(recv, T) and recv.op == "call" and False:
            return res
        for s, b in self.contains(st, key, recv, node):
            if isinstance(b, Exc):
                res.append((s, b))
            elif b == TRUE:
                s.facts[T("in", key, recv)] = True
                for s2, v in self.get_item(s, recv, key, node):
                    res.append((s2, v))
            else:
                res.append((s, default))
        return res

    def term_mut(self, st, recv, name, args, kwargs, node):
        if name == "setdefault":
            dflt = args[1] if len(args) > 1 else NONE
            res = []
            for s, b in self.contains(st, args[0], recv, node):
                if b == TRUE:
                    res.extend(self.get_item(s, recv, args[0], node))
                elif isinstance(b, Exc):
                    res.append((s, b))
                else:
                    for s2, r in self.set_item(s, recv, args[0], dflt, node):
                        res.append((s2, dflt))
            return res
        self._mut(st, name, recv, args, node)
        if name == "update" and args and isinstance(args[0], O) and st.heap[args[0]].kind == "dict":
            for k, v, tag, sp in st.heap[args[0]].segs:
                if not sp:
                    st.ov[("item", recv, k)] = v
            return [(st, NONE)]
        if name in ("append", "add"):
            if name == "add":
                st.facts[T("in", args[0], recv)] = True
            st.facts.pop(recv, None)
            return [(st, NONE)]
        if name == "pop":
            if len(args) > 1:
                res = []
                for s, b in self.contains(st, args[0], recv, node):
                    if b == TRUE:
                        res.extend(self.get_item(s, recv, args[0], node))
                    else:
                        res.append((s, args[1]))
                return res
            if args:
                return self.get_item(st, recv, args[0], node)
            return [(st, T("popped", recv))]
        if name == "clear":
            st.facts[recv] = False
            return [(st, NONE)]
        if name in ("discard", "remove") and args:
            st.facts[T("in", args[0], recv)] = False
        return [(st, NONE)]
