"""Path-sensitive, interprocedural abstract interpretation of Python sources.

The engine propagates value numbers, typestate and an event trace along every
path through a function and the package functions it calls (which are inlined
by resolving the callee).  A branch whose condition is not decided by the facts
collected on the path is taken both ways.  A loop over an unknown collection is
represented by its empty case and by one generic iteration over an arbitrary
element, variables that the loop assigns are unknown at the start of the generic
iteration.  There is no solver: facts are compared syntactically.

Effects outside of the package (sub-processes, files, locks) become events.
"""
import ast
from pathlib import PurePosixPath
import builtins
import pathlib
import time

from . import schema
from .library import Library
from .loader import BrokenAnchor, Class, Function, Program, import_bindings
from .values import (
    BM, ClsV, Const, Ev, Exc, ExtV, FALSE, FnV, HObj, ModV, NONE, O, State, T,
    TRUE, Tup, contains, subterms,
)


class Limit(Exception):
    pass


class Unsupported(Exception):
    pass


BUILTIN_TYPES = {
    "str": "str", "bytes": "bytes", "int": "int", "bool": "bool",
    "float": "float", "dict": "dict", "list": "list", "set": "set",
    "tuple": "tuple", "NoneType": "NoneType", "bytearray": "bytearray",
}

WRAPPERS = ("items", "values", "keys", "list", "sorted", "reversed", "iter",
            "set", "tuple", "frozenset")

MUTATORS = {
    "append", "extend", "insert", "add", "update", "clear", "remove",
    "discard", "pop", "popitem", "setdefault", "sort", "reverse",
    "__setitem__", "__delitem__",
}

NOT_NONE_OPS = {
    "concat", "json", "str", "new", "enum", "len", "join", "run", "stdout",
    "list", "sorted", "items", "values", "keys", "tuple", "type", "exc", "not",
    "eq", "in", "add", "hash", "encode", "decode", "lines",
}

# well known pure or irrelevant external functions that return something
EXT_RETURN_TYPES = {
    "time.time": "float",
    "uuid.UUID": "UUID",
    "json.dumps": "str",
    "pathlib.Path": "Path",
}

STR_METHODS_STR = {
    "replace", "strip", "lstrip", "rstrip", "lower", "upper", "format",
    "removeprefix", "removesuffix", "join", "as_posix", "hexdigest", "decode",
}


def unwrap(v):
    while isinstance(v, T) and v.op in WRAPPERS and v.args:
        v = v.args[0]
    return v


def concat(parts):
    flat = []
    for p in parts:
        if isinstance(p, T) and p.op == "concat":
            flat.extend(p.args)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if isinstance(p, Const) and isinstance(p.v, (str, bytes)):
            if len(p.v) == 0:
                continue
            if out and isinstance(out[-1], Const) and type(out[-1].v) is type(p.v):
                out[-1] = Const(out[-1].v + p.v)
                continue
        out.append(p)
    if not out:
        return Const("")
    if len(out) == 1 and (not isinstance(out[0], T) or out[0].op in ("concat", "str", "join", "json")):
        return out[0]
    if len(out) == 1:
        return out[0]
    return T("concat", *out)


class Engine(Library):
    def __init__(self, program, hooks=None, max_paths=60000, max_depth=40,
                 may_raise=None, opaque=()):
        self.p = program
        self.hooks = dict(hooks or {})
        self.known_depth = 8         # recursion over structures that are known
        self.max_depth = max_depth
        self.max_steps = max_paths * 60
        self.steps = 0
        self.deadline = None
        self.opaque = set(opaque)
        self.may_raise = may_raise or (lambda name, recv: ())
        self.functions_seen = set()
        self.call_sites = set()
        self.events_seen = 0
        self.assert_raises = True
        self.key_errors = False
        self.track_reads = False
        self.git_may_fail = None
        self.opaque_globals = True

    # ------------------------------------------------------------------
    # helpers
    # ------------------------------------------------------------------
    def loc(self, st, node=None):
        f = st.func
        name = f.qualname if f is not None else "<module>"
        path = f.module.path if f is not None else (st.module.path if st.module else "?")
        return f"{path}:{getattr(node, 'lineno', 0)}:{name}"

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("step limit exceeded")
        if self.deadline and not self.steps & 1023 and time.time() > self.deadline:
            raise Limit("time limit exceeded")

    # -- types -----------------------------------------------------------
    def typeof(self, st, v):
        if isinstance(v, Const):
            return type(v.v).__name__
        if isinstance(v, Tup):
            return "tuple"
        if isinstance(v, O):
            h = st.heap[v]
            if h.kind == "inst":
                return "=" + h.cls.name
            return h.kind
        if isinstance(v, (FnV, BM)):
            return "function"
        if isinstance(v, ClsV):
            return "type"
        if isinstance(v, T):
            t = self.raw_type(st, v)
            if t is not None:
                if t.startswith("?"):
                    if st.facts.get(self.eq_term(v, NONE)) is False \
                            or st.facts.get(v) is True:
                        return t[1:]
                    return None
                return t
            if v.op == "purepath":
                return "Path"
            if v.op in ("concat", "str", "join", "json"):
                if v.op == "concat" and isinstance(v.args[0], Const):
                    return type(v.args[0].v).__name__
                return "str"
            if v.op == "new":
                return "=" + v.args[0] if v.args[0] in self.p.classes else v.args[0]
            if v.op == "len":
                return "int"
            if v.op in ("not", "eq", "in", "lt"):
                return "bool"
            if v.op == "enum":
                return "=" + v.args[0]
            if v.op == "call":
                return EXT_RETURN_TYPES.get(v.args[0])
            if v.op == "mcall" and v.args[1] in STR_METHODS_STR:
                return "str"
            if v.op == "mcall" and v.args[1] == "encode":
                return "bytes"
            if v.op in ("list", "sorted", "lines"):
                return "list"
            if v.op == "exc":
                return "exc"
        return None

    def structure(self, st, v, depth=0):
        """Structured type of a term."""
        if not isinstance(v, T) or depth > 8:
            return None
        t = st.types.get(v)
        if isinstance(t, tuple):
            return t
        if v.op == "attr":
            base = v.args[0]
            cls = None
            if isinstance(base, O):
                h = st.heap.get(base)
                cls = h.cls if h is not None and h.kind == "inst" else None
            elif isinstance(base, T):
                cls = self.type_class(self.typeof(st, base))[0]
            if cls is not None:
                return schema.lookup(self.p, cls, v.args[1])
            return None
        if v.op in ("val", "item", "elem", "next", "popped"):
            s = self.structure(st, unwrap(v.args[0]), depth + 1)
            if s and s[0] == "opt":
                s = s[1]
            if s and s[0] == "dict":
                return s[2] if v.op != "elem" else s[1]
            if s and s[0] in ("list", "set", "iter"):
                return s[1]
            if s and s[0] == "tuple" and v.op == "item" and isinstance(v.args[1], Const) \
                    and isinstance(v.args[1].v, int) and v.args[1].v < len(s) - 1:
                return s[1 + v.args[1].v]
            return None
        if v.op == "key":
            s = self.structure(st, unwrap(v.args[0]), depth + 1)
            if s and s[0] == "opt":
                s = s[1]
            return s[1] if s and s[0] == "dict" else None
        return None

    def raw_type(self, st, v):
        t = st.types.get(v)
        if isinstance(t, str):
            return t
        return schema.to_raw(self.p, self.structure(st, v))

    def type_class(self, t):
        """(class, exact) for a type string naming a package class."""
        if t and t[0] in "=<" and t[1:] in self.p.classes:
            return self.p.classes[t[1:]], t[0] == "="
        return None, False

    def has_foreign_base(self, cls):
        return any(
            b.split(".")[-1] not in ("ABC", "object", "Generic", "Protocol")
            for b in self.p.external_bases(cls))

    # -- facts -----------------------------------------------------------
    def eq_term(self, a, b):
        if isinstance(a, Const) and not isinstance(b, Const):
            a, b = b, a
        if not isinstance(b, Const) and repr(b) < repr(a):
            a, b = b, a
        return T("eq", a, b)

    def decide_eq(self, st, a, b, identity=False):
        if a == b:
            return True
        if isinstance(a, Const) and isinstance(b, Const):
            if identity:
                return a.v is b.v if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool) else a.v == b.v
            return a.v == b.v
        if isinstance(b, Const) and not isinstance(a, Const):
            pass
        elif isinstance(a, Const):
            a, b = b, a
        if isinstance(a, (ClsV, ModV, FnV, ExtV, BM)) or isinstance(b, (ClsV, ModV, FnV, ExtV, BM)):
            if not isinstance(a, T) and not isinstance(b, T):
                return False
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            res = True
            for x, y in zip(a.items, b.items):
                d = self.decide_eq(st, x, y)
                if d is False:
                    return False
                if d is None:
                    res = None
            if res is not None:
                return res
        if isinstance(a, Tup) and isinstance(b, Const):
            return False
        if isinstance(a, O) and isinstance(b, Const):
            if b.v is None or isinstance(b.v, (bool, str, int, bytes)):
                h = st.heap[a]
                if h.kind == "inst" and not identity and b.v is not None \
                        and self.p.find_method(h.cls, "__eq__"):
                    pass
                else:
                    return False
        if isinstance(a, O) and isinstance(b, O):
            ha, hb = st.heap[a], st.heap[b]
            if identity:
                return False
            if ha.kind != hb.kind:
                return False
            if ha.kind == "inst":
                if not (self.p.find_method(ha.cls, "__eq__") or ha.cls.is_dataclass()):
                    return False
                if ha.cls.is_dataclass() and not self.p.find_method(ha.cls, "__eq__"):
                    if ha.cls is not hb.cls:
                        return False
                    names = [n for n in dict.fromkeys([*ha.attrs, *hb.attrs])]
                    if not names or any(n not in ha.attrs or n not in hb.attrs for n in names):
                        return None
                    ds = [self.decide_eq(st, ha.attrs[n], hb.attrs[n]) for n in names]
                    return False if any(d is False for d in ds) else True if all(ds) else None
            elif "values" in (ha.label, hb.label):
                return False
            elif ha.label in ("keys", "items") or hb.label in ("keys", "items"):
                return self.set_operation(st, "eq", a, b) if ha.label == hb.label else None
            elif ha.kind in ("list", "set"):
                if not ha.segs and not hb.segs:
                    return True
                plain = all(not s[1] and not s[2] for s in ha.segs + hb.segs)
                if plain and ha.kind == "list":
                    if len(ha.segs) != len(hb.segs):
                        return False
                    ds = [self.decide_eq(st, x[0], y[0]) for x, y in zip(ha.segs, hb.segs)]
                    if any(d is False for d in ds):
                        return False
                    if all(ds):
                        return True
                if plain and ha.kind == "set":
                    r = self.set_operation(st, "eq", a, b)
                    if r is not None:
                        return r
        if isinstance(a, T) and isinstance(b, T):
            if a.op == "enum" and b.op == "enum":
                return False
            if a.op == b.op == "hash" and len(a.args) == len(b.args):
                # collisions are not regarded
                return self.decide_eq(st, Tup(a.args), Tup(b.args))
            if a.op == b.op == "path" and len(a.args) == len(b.args) == 1 and all(
                    isinstance(x, Const) and isinstance(x.v, str) for x in a.args + b.args):
                return PurePosixPath(a.args[0].v) == PurePosixPath(b.args[0].v)
            if a.op == b.op == "binop" and a.args[0] == b.args[0] == "Div" and a.args[2] == b.args[2]:
                # paths with the same last part
                return self.decide_eq(st, a.args[1], b.args[1])
            if a.op == b.op == "div" and a.args[1:] == b.args[1:]:
                return self.decide_eq(st, a.args[0], b.args[0])
            if a.op == "new" and b.op == "new" and a.args[0] == b.args[0] \
                    and len(a.args) == len(b.args) == 2:
                # injective only for the constants, used for path constants
                if isinstance(a.args[1], Const) and isinstance(b.args[1], Const):
                    return a.args[1] == b.args[1]
        if isinstance(b, Const) and isinstance(a, T):
            if b.v is None:
                if a.op in NOT_NONE_OPS:
                    return False
                t = self.typeof(st, a)
                if t is not None and t != "NoneType":
                    return False
                if st.facts.get(a) is True:
                    return False
            else:
                if st.facts.get(self.eq_term(a, NONE)) is True:
                    return False
                if a.op == "enum":
                    return False
                if a.op == "objid" and isinstance(b.v, str) \
                        and not (b.v and all(c in "0123456789abcdef" for c in b.v)):
                    return False
                t = self.typeof(st, a)
                if t is not None and t[0] in "=<" and isinstance(b.v, (str, int, bool)):
                    c, _ = self.type_class(t)
                    if c is not None and not self.p.find_method(c, "__eq__") \
                            and not self.p.external_bases(c):
                        return False
                # another constant is known to be equal
                k = (a,)
                known = st.facts.get(T("const", a))
                if known is not None and known != b:
                    return False
                if isinstance(b.v, bool):
                    f = st.facts.get(a)
                    if f is not None and self.typeof(st, a) == "bool":
                        return f == b.v
                    if f is not None and f != b.v:
                        return False
        f = st.facts.get(self.eq_term(a, b))
        if f is None and not identity:
            pairs = self.matched(st, a, b)
            if pairs is False:
                return False
            if pairs is not None:
                ds = [self.decide_eq(st, x, y) for x, y in pairs]
                return False if any(d is False for d in ds) else True if all(ds) else None
        return f

    def explicit(self, st, v):
        """(kind, elements) of a collection whose elements are all known, None for all other values."""
        if isinstance(v, Tup):
            return "tuple", v.items
        if isinstance(v, T) and v.op == "new" and len(v.args) == 2 and isinstance(v.args[0], str) \
                and v.args[0] in self.p.classes \
                and any(b.split(".")[-1] == "dict" for b in self.p.external_bases(self.p.classes[v.args[0]])):
            v = v.args[1]
        if isinstance(v, O) and st.heap[v].kind == "inst" and "%dict" in st.heap[v].attrs \
                and not self.p.find_method(st.heap[v].cls, "__eq__"):
            v = st.heap[v].attrs["%dict"]
        if isinstance(v, O) and st.heap[v].kind in ("list", "dict") and st.heap[v].label not in ("keys", "items", "values"):
            kind, segs = st.heap[v].kind, st.heap[v].segs
        elif isinstance(v, T) and v.op == "fz" and v.args[0] in ("list", "dict"):
            kind, segs = v.args[0], [s.args[:-2] + (s.args[-2].items, s.args[-1].v) for s in v.args[1:]]
        else:
            return None
        if any(s[-1] or s[-2] for s in segs):
            return None
        return kind, tuple(s[0] for s in segs) if kind == "list" else tuple((s[0], s[1]) for s in segs)

    def matched(self, st, a, b):
        """Pairs of elements that decide whether two collections are equal, False if they cannot be equal, None: not known."""
        va, vb = self.explicit(st, a), self.explicit(st, b)
        if va is None or vb is None:
            v, o = (va, b) if va is not None else (vb, a)
            if v is not None and isinstance(o, Const):
                return False
            return None
        if va[0] != vb[0]:
            return False
        if va[0] != "dict":
            return list(zip(va[1], vb[1])) if len(va[1]) == len(vb[1]) else False
        res = []
        left = list(vb[1])
        for k, x in va[1]:
            ds = [self.decide_eq(st, k, k2) for k2, _ in left]
            if True in ds:
                res.append((x, left.pop(ds.index(True))[1]))
            elif None in ds:
                return None
            else:
                return False
        return False if left else res

    def assume(self, st, term, value):
        """Record a fact, in place."""
        st.facts[term] = value
        if isinstance(term, T):
            if term.op == "eq" and value is True and isinstance(term.args[1], Const):
                st.facts[T("const", term.args[0])] = term.args[1]
            if term.op == "isinstance" and value is True:
                name = term.args[1]
                have = self.raw_type(st, term.args[0])
                if "|" not in name and (have is None or have[0] in "?<"):
                    if name in self.p.classes:
                        st.types[term.args[0]] = schema.to_raw(self.p, ("cls", name))
                    else:
                        st.types[term.args[0]] = name

    def branch(self, st, term):
        """Both (state, bool) possibilities for an undecided term."""
        f = st.facts.get(term)
        if f is not None:
            return [(st, f)]
        s1 = st
        s2 = st.copy()
        self.assume(s1, term, True)
        self.assume(s2, term, False)
        return [(s1, True), (s2, False)]

    def truth(self, st, v):
        v = self.opened(st, v)
        if isinstance(v, Const):
            return [(st, bool(v.v))]
        if isinstance(v, Tup):
            return [(st, bool(v.items))]
        if isinstance(v, (FnV, BM, ClsV, ModV)):
            return [(st, True)]
        if self.path_text(v) is not None:
            return [(st, bool(v.args[1].v))]
        if isinstance(v, ExtV):
            return [(st, True)]
        if isinstance(v, O):
            h = st.heap[v]
            if h.kind == "inst":
                for m in ("__bool__", "__len__"):
                    f = self.p.find_method(h.cls, m)
                    if f is not None:
                        res = []
                        for s, r in self.call_function(st, FnV(f, f.module, v, None, f.cls, f.name), [], {}, None):
                            if isinstance(r, Exc):
                                res.append((s, r))
                            elif m == "__len__":
                                if isinstance(r, Const):
                                    res.append((s, bool(r.v)))
                                else:
                                    res.extend((s2, not b) for s2, b in self.branch(s, self.eq_term(r, Const(0))))
                            else:
                                res.extend(self.truth(s, r))
                        return res
                return [(st, True)]
            if not h.segs:
                return [(st, False)]
            if any(not s[-1] for s in h.segs):
                return [(st, True)]
            # only splats
            res = []
            splat = h.segs[0][-3]
            return self.truth(st, unwrap(splat)) if len(h.segs) == 1 else [(st, True)] + [(st.copy(), False)]
        if isinstance(v, T):
            if v.op == "not":
                return [(s, (not b) if isinstance(b, bool) else b) for s, b in self.truth(st, v.args[0])]
            if v.op == "eq":
                d = self.decide_eq(st, v.args[0], v.args[1])
                if d is not None:
                    return [(st, d)]
            if v.op in ("new",) and v.args[0] not in self.p.classes:
                return [(st, True)]
            if v.op in ("enum", "exc", "type"):
                return [(st, True)]
            if v.op == "concat" and any(isinstance(a, Const) and a.v for a in v.args):
                return [(st, True)]
            if v.op == "json":
                return [(st, True)]
            if v.op == "len":
                return self.truth(st, unwrap(v.args[0])) if isinstance(v.args[0], T) else self.branch(st, v)
            u = unwrap(v)
            if u is not v:
                return self.truth(st, u)
            f = st.facts.get(v)
            if f is not None:
                return [(st, f)]
            if st.facts.get(self.eq_term(v, NONE)) is True:
                return [(st, False)]
            if st.facts.get(T("eq", T("len", v), Const(0))) is not None:
                return [(st, not st.facts[T("eq", T("len", v), Const(0))])]
            t = self.typeof(st, v)
            c, exact = self.type_class(t)
            if c is not None and not self.p.find_method(c, "__len__") \
                    and not self.p.find_method(c, "__bool__") \
                    and not self.p.external_bases(c):
                return [(st, True)]
            res = self.branch(st, v)
            for s, b in res:
                if b is False and t is not None and t not in BUILTIN_TYPES:
                    pass
            return res
        raise Unsupported(f"truth of {v!r}")

    def compare(self, st, a, b, identity=False):
        d = self.decide_eq(st, a, b, identity)
        if d is not None:
            return [(st, TRUE if d else FALSE)]
        # package __eq__
        if not identity and isinstance(a, O) and st.heap[a].kind == "inst":
            m = self.p.find_method(st.heap[a].cls, "__eq__")
            if m is not None and len(st.calls) < self.max_depth:
                return self.call_function(st, FnV(m, m.module, a, None, m.cls, m.name), [b], {}, None)
        pairs = None if identity else self.matched(st, a, b)
        if pairs:
            outs, left = [], [st]
            for x, y in pairs:
                nxt = []
                for s in left:
                    for s2, r in self.compare(s, x, y):
                        if isinstance(r, Exc):
                            outs.append((s2, r))
                            continue
                        for s3, t in self.truth(s2, r):
                            if isinstance(t, Exc):
                                outs.append((s3, t))
                            elif t:
                                nxt.append(s3)
                            else:
                                outs.append((s3, FALSE))
                left = nxt
            return outs + [(s, TRUE) for s in left]
        if isinstance(a, T) and isinstance(b, Const) and a.op == "len" and b.v == 0:
            inner = unwrap(a.args[0])
            return [(s, FALSE if t else TRUE) if isinstance(t, bool) else (s, t)
                    for s, t in self.truth(st, inner)]
        if isinstance(b, T) and isinstance(a, Const):
            return self.compare(st, b, a, identity)
        if isinstance(a, O) and isinstance(b, T) and not identity:
            a, b = b, a
        fa, fb = (a, b) if identity else (self.freeze_shallow(st, a), self.freeze_shallow(st, b))
        t = self.eq_term(fa, fb)
        return [(s, TRUE if r else FALSE) for s, r in self.branch(st, t)]

    # ------------------------------------------------------------------
    # attributes
    # ------------------------------------------------------------------
    def get_attr(self, st, base, name, node=None):
        self.tick()
        if isinstance(base, Const):
            if base.v is None:
                st.emit(Ev("nonederef", name, base, (), self.loc(st, node)))
                return [(st, Exc("AttributeError", None, self.loc(st, node)))]
            if isinstance(base.v, (str, bytes, int)) and not hasattr(base.v, name):
                return [(st, Exc("AttributeError", None, self.loc(st, node)))]
            return [(st, BM(base, name))]
        if isinstance(base, Tup):
            return [(st, BM(base, name))]
        if isinstance(base, ModV):
            r = self.p.resolve(base.module, name)
            if r is None:
                sub = base.module.name + "." + name
                if sub in self.p.modules:
                    return [(st, ModV(self.p.modules[sub]))]
                return [(st, T("attr", ExtV(base.module.name), name))]
            return self.resolved(st, r)
        if isinstance(base, ExtV):
            return [(st, ExtV(base.name + "." + name))]
        if isinstance(base, ClsV):
            return self.class_attr(st, base.cls, name, base)
        if isinstance(base, (FnV, BM)):
            if name == "__name__":
                return [(st, Const(getattr(base, "name", "?")))]
            return [(st, T("attr", base, name))]
        if isinstance(base, O):
            h = st.heap[base]
            if h.kind != "inst":
                return [(st, BM(base, name))]
            if name in h.attrs:
                if self.track_reads:
                    st.emit(Ev("getattr", name, base, (h.attrs[name],), self.loc(st, node)))
                return [(st, h.attrs[name])]
            if name == "__class__":
                return [(st, ClsV(h.cls))]
            r = self.inst_class_attr(st, base, h.cls, name, node)
            if r is not None:
                return r
            if h.opaque or self.has_foreign_base(h.cls):
                v = T("attr", base, name)
                if self.track_reads:
                    st.emit(Ev("getattr", name, base, (v,), self.loc(st, node)))
                return [(st, v)]
            st.emit(Ev("noattr", name, base, (), self.loc(st, node)))
            return [(st, Exc("AttributeError", None, self.loc(st, node)))]
        if isinstance(base, T) and base.op == "new" and name in ("keys", "items", "values", "get", "copy"):
            v = self.opened(st, base)
            if v is not base:
                return [(st, BM(v, name))]
        if isinstance(base, T) and base.op == "path" and len(base.args) == 1 and isinstance(base.args[0], Const) \
                and isinstance(base.args[0].v, str):
            if name in ("name", "stem", "suffix"):
                return [(st, Const(getattr(PurePosixPath(base.args[0].v), name)))]
            if name == "parent":
                return [(st, T("path", Const(str(PurePosixPath(base.args[0].v).parent))))]
        if isinstance(base, T):
            if st.facts.get(self.eq_term(base, NONE)) is True:
                st.emit(Ev("nonederef", name, base, (), self.loc(st, node)))
                return [(st, Exc("AttributeError", None, self.loc(st, node)))]
            k = ("attr", base, name)
            if k in st.ov:
                return [(st, st.ov[k])]
            if base.op == "enum":
                c = self.p.classes[base.args[0]]
                if name == "name":
                    return [(st, Const(base.args[1]))]
                if name == "value":
                    return self.eval_in_module(st, c.assigns[base.args[1]], c.module)
            if base.op == "type" and name == "__name__":
                t = self.typeof(st, base.args[0])
                if t and t[0] == "=":
                    return [(st, Const(t[1:]))]
            if base.op == "purepath" and name in ("parts", "name", "parent", "stem", "suffix", "root", "anchor"):
                v = getattr(pathlib.PurePosixPath(base.args[0].v), name)
                return [(st, Tup([Const(x) for x in v]) if name == "parts" else
                         T("purepath", Const(str(v))) if name == "parent" else Const(v))]
            text = self.path_text(base)
            if text is not None and name in ("parts", "name", "parent", "stem", "suffix"):
                path = pathlib.PurePosixPath(text)
                if name == "parts":
                    return [(st, Tup([Const(x) for x in path.parts]))]
                if name == "parent":
                    return [(st, self.new_path(st, base.args[0], [Const(str(path.parent))]))]
                return [(st, Const(getattr(path, name)))]
            t = self.typeof(st, base)
            st_t = self.raw_type(st, base)
            if st_t is not None and st_t.startswith("?") and t is None:
                # possibly None
                res = []
                for s, b in self.branch(st, self.eq_term(base, NONE)):
                    res.extend(self.get_attr(s, base, name, node))
                return res
            if t in ("str", "=str") and base.op == "sym" and not hasattr(str, name):
                return [(st, Exc("AttributeError", None, self.loc(st, node)))]
            c, exact = self.type_class(t)
            if c is not None:
                r = self.inst_class_attr(st, base, c, name, node, exact)
                if r is not None:
                    return r
            if base.op == "run" and name == "stdout":
                if st.facts.get(T("textmode", base)):
                    return self.call_bm(st, T("stdout", base), "decode", [], {}, None)
                return [(st, T("stdout", base))]
            if self.is_data_attr(name):
                return [(st, T("attr", base, name))]
            return [(st, T("attr", base, name))]
        raise Unsupported(f"attribute {name} of {base!r}")

    def is_data_attr(self, name):
        return True

    def class_attr(self, st, cls, name, owner):
        if name == "__name__":
            return [(st, Const(cls.name))]
        for c in self.p.mro(cls):
            if name in c.methods:
                f = c.methods[name]
                if f.has_decorator("classmethod"):
                    return [(st, FnV(f, f.module, ClsV(cls), None, c, f.name))]
                return [(st, FnV(f, f.module, None, None, c, f.name))]
            if name in c.assigns:
                if any(b.split(".")[-1] in ("Enum", "IntEnum", "Flag") for b in self.p.external_bases(cls)):
                    return [(st, T("enum", c.name, name))]
                key = ("cls", c.name, name)
                if key not in st.glob:
                    res = self.eval_in_module(st, c.assigns[name], c.module, dict())
                    out = []
                    for s, v in res:
                        s.glob[key] = v
                        self.name_global(s, v, f"{c.name}.{name}")
                        out.append((s, self.hide_global(s, v, f"{c.name}.{name}", key, c.node.body, c.module, name)))
                    return out
                return [(st, st.glob[key])]
        return [(st, T("attr", ClsV(cls), name))]

    def hide_global(self, st, v, label, key, body=(), module=None, name=None):
        """Containers that are filled at run time have an unknown content."""
        if not self.opaque_globals or not isinstance(v, O) or v not in st.heap:
            return v
        h = st.heap[v]
        if h.kind in ("list", "set", "dict") and not h.segs:
            t = T("glob", label)
            st.types[t] = h.kind
            for stmt in body:
                if isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name) and stmt.target.id == name:
                    parsed = schema.parse(self.p, module, stmt.annotation)
                    if parsed is not None and parsed[0] == h.kind:
                        st.types[t] = parsed
            st.glob[key] = t
            return t
        return v

    def name_global(self, st, v, label):
        if isinstance(v, O) and v in st.heap:
            h = st.update(v)
            h.label = label

    def inst_class_attr(self, st, base, cls, name, node, exact=True):
        for c in self.p.mro(cls):
            if name in c.methods:
                f = c.methods[name]
                if f.has_decorator("property") or f.has_decorator("cached_property"):
                    hk = self.find_hook(cls, name, base)
                    if hk is not None:
                        r = hk(self, st, base, [], {}, node)
                        if r is not None:
                            return r
                    return self.call_function(
                        st, FnV(f, f.module, base, None, c, f.name), [], {}, node)
                if f.has_decorator("staticmethod"):
                    return [(st, FnV(f, f.module, None, None, c, f.name, (("static",), ())))]
                if f.has_decorator("classmethod"):
                    return [(st, FnV(f, f.module, ClsV(cls), None, c, f.name))]
                return [(st, FnV(f, f.module, base, None, c, f.name))]
            if name in c.assigns:
                e = c.assigns[name]
                if isinstance(e, ast.Call) and ast.unparse(e.func) == "property":
                    getter = None
                    for k in e.keywords:
                        if k.arg == "fget":
                            getter = k.value
                    if e.args:
                        getter = e.args[0]
                    m = self.p.find_method(cls, getter.id) if isinstance(getter, ast.Name) else None
                    if m is None:
                        return [(st, T("attr", base, name))]
                    return self.call_function(st, FnV(m, m.module, base, None, m.cls, m.name), [], {}, node)
                if isinstance(e, ast.Name) and e.id in c.methods:
                    f = c.methods[e.id]
                    return [(st, FnV(f, f.module, base, None, c, f.name))]
                return self.class_attr(st, cls, name, ClsV(cls))
        return None

    def set_attr(self, st, base, name, value, node=None):
        if isinstance(base, Const) and base.v is None:
            st.emit(Ev("nonederef", name, base, (), self.loc(st, node)))
            return [(st, Exc("AttributeError", None, self.loc(st, node)))]
        cls = None
        if isinstance(base, O) and st.heap[base].kind == "inst":
            cls = st.heap[base].cls
        elif isinstance(base, T):
            cls, _ = self.type_class(self.typeof(st, base))
        if cls is not None:
            for c in self.p.mro(cls):
                if name + ".setter" in c.methods:
                    f = c.methods[name + ".setter"]
                    return [(s, v if isinstance(v, Exc) else NONE) for s, v in self.call_function(
                        st, FnV(f, f.module, base, None, c, f.name), [value], {}, node)]
                e = c.assigns.get(name)
                if isinstance(e, ast.Call) and ast.unparse(e.func) == "property":
                    setter = None
                    for k in e.keywords:
                        if k.arg == "fset":
                            setter = k.value
                    if len(e.args) > 1:
                        setter = e.args[1]
                    m = self.p.find_method(cls, setter.id) if isinstance(setter, ast.Name) else None
                    if m is not None:
                        return [(s, v if isinstance(v, Exc) else NONE) for s, v in self.call_function(
                            st, FnV(m, m.module, base, None, m.cls, m.name), [value], {}, node)]
        if isinstance(base, O):
            h = st.heap[base]
            old = h.attrs.get(name)
            st.emit(Ev("setattr", name, base, (value,), self.loc(st, node), extra=old))
            st.update(base).attrs[name] = value
        elif isinstance(base, ClsV):
            for c in self.p.mro(base.cls):
                if name in c.assigns:
                    st.glob[("cls", c.name, name)] = value
                    break
            else:
                st.glob[("cls", base.cls.name, name)] = value
            st.emit(Ev("setattr", name, base, (value,), self.loc(st, node)))
        elif isinstance(base, ModV):
            st.glob[("mod", base.module.name, name)] = value
            st.emit(Ev("setattr", name, base, (value,), self.loc(st, node)))
        else:
            st.emit(Ev("setattr", name, base, (value,), self.loc(st, node)))
            st.ov[("attr", base, name)] = value
        return [(st, NONE)]

    # ------------------------------------------------------------------
    # names
    # ------------------------------------------------------------------
    def resolved(self, st, r):
        kind = r[0]
        if kind == "func":
            f = r[1]
            return [(st, FnV(f, f.module, None, None, None, f.name))]
        if kind == "class":
            return [(st, ClsV(r[1]))]
        if kind == "module":
            return [(st, ModV(r[1]))]
        if kind == "ext":
            return [(st, ExtV(r[1]))]
        if kind == "global":
            return self.module_global(st, r[1], r[2])
        raise Unsupported(str(r))

    def module_global(self, st, module, name):
        key = ("mod", module.name, name)
        if key in st.glob:
            return [(st, st.glob[key])]
        res = self.eval_in_module(st, module.assigns[name], module)
        out = []
        for s, v in res:
            s.glob[key] = v
            self.name_global(s, v, f"{module.name}.{name}")
            for s2, v2 in self.init_module(s, module, key):
                out.append((s2, self.hide_global(s2, v2, f"{module.name}.{name}", key, module.tree.body, module, name)))
        return out

    def init_module(self, st, module, key):
        flag = ("init", module.name)
        if st.glob.get(flag) or not module.toplevel:
            return [(st, st.glob[key])]
        st.glob[flag] = True
        saved = (st.env, st.stack, st.module, st.func, st.loops, st.ev, st.nev)
        st.env, st.module, st.func, st.loops = {}, module, None, ()
        outs = self.exec_block(st, module.toplevel)
        res = []
        for s, ctl in outs:
            s.env, s.stack, s.module, s.func, s.loops, s.ev, s.nev = saved
            s.env = dict(s.env)
            res.append((s, s.glob[key]))
        return res

    def eval_in_module(self, st, node, module, env=None):
        saved = (st.env, st.module, st.func, st.loops, st.ev, st.nev)
        st.env = dict(env or {})
        st.module = module
        st.func = None
        st.loops = ()
        res = []
        for s, v in self.eval(node, st):
            s.env, s.module, s.func, s.loops, s.ev, s.nev = saved
            s.env = dict(s.env)
            res.append((s, v))
        return res

    def lookup(self, st, name):
        if name in st.env and not (name in st.env.get("%global", ())):
            return [(st, st.env[name])]
        clo = st.env.get("%closure")
        while clo is not None:
            if name in clo:
                return [(st, clo[name])]
            clo = clo.get("%closure")
        m = st.module
        key = ("mod", m.name, name)
        if key in st.glob:
            return [(st, st.glob[key])]
        r = self.p.resolve(m, name)
        if r is not None:
            return self.resolved(st, r)
        if hasattr(builtins, name):
            if name in ("True", "False", "None"):
                return [(st, Const(getattr(builtins, name)))]
            return [(st, ExtV("builtins." + name))]
        if name == "__name__":
            return [(st, Const(m.name))]
        st.emit(Ev("unbound", name, None, (), self.loc(st)))
        return [(st, Exc("NameError", None, self.loc(st)))]

    # ------------------------------------------------------------------
    # expressions
    # ------------------------------------------------------------------
    def eval(self, node, st):
        self.tick()
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(node).__name__}")
        return m(node, st)

    def evals(self, nodes, st):
        """Evaluate expressions in sequence: list of (state, [values] | Exc)."""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vals in cur:
                if isinstance(vals, Exc):
                    nxt.append((s, vals))
                    continue
                for s2, v in self.eval(n, s):
                    nxt.append((s2, v if isinstance(v, Exc) else vals + [v]))
            cur = nxt
        return cur

    def e_Constant(self, n, st):
        return [(st, Const(n.value))]

    def e_Name(self, n, st):
        return self.lookup(st, n.id)

    def e_NamedExpr(self, n, st):
        res = []
        for s, v in self.eval(n.value, st):
            if not isinstance(v, Exc):
                s.env[n.target.id] = v
            res.append((s, v))
        return res

    def e_Attribute(self, n, st):
        res = []
        for s, b in self.eval(n.value, st):
            if isinstance(b, Exc):
                res.append((s, b))
            else:
                res.extend(self.get_attr(s, b, n.attr, n))
        return res

    def e_Tuple(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return [(s, T("tuple", v) if not isinstance(v, Exc) else v)
                    for s, v in self.e_List(n, st)]
        return [(s, v if isinstance(v, Exc) else Tup(v)) for s, v in self.evals(n.elts, st)]

    def e_List(self, n, st):
        nodes = [e.value if isinstance(e, ast.Starred) else e for e in n.elts]
        stars = [isinstance(e, ast.Starred) for e in n.elts]
        res = []
        for s, vals in self.evals(nodes, st):
            if isinstance(vals, Exc):
                res.append((s, vals))
                continue
            segs = []
            for v, star in zip(vals, stars):
                if star:
                    segs.extend(self.splat_segs(s, v))
                else:
                    segs.append((v, (), False))
            kind = "set" if isinstance(n, ast.Set) else "list"
            res.append((s, s.alloc(HObj(kind, segs=tuple(segs)), kind)))
        return res

    e_Set = e_List

    def splat_segs(self, st, v):
        v = self.opened(st, v)
        if isinstance(v, O) and st.heap[v].kind in ("list", "set"):
            return list(st.heap[v].segs)
        if isinstance(v, O) and st.heap[v].kind == "dict":
            return [(k, tag, sp) for k, _, tag, sp in st.heap[v].segs]
        if isinstance(v, Tup):
            return [(x, (), False) for x in v.items]
        if isinstance(v, Const) and isinstance(v.v, (str, tuple, bytes)):
            return [(Const(x), (), False) for x in v.v]
        return [(v, (), True)]

    def e_Dict(self, n, st):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        res = []
        for s, vals in self.evals(nodes, st):
            if isinstance(vals, Exc):
                res.append((s, vals))
                continue
            segs = []
            it = iter(vals)
            for k in n.keys:
                if k is None:
                    v = next(it)
                    if isinstance(v, O) and s.heap[v].kind == "dict":
                        for e in s.heap[v].segs:
                            segs = self.dict_put(s, segs, e)
                    else:
                        segs.append((v, v, (), True))
                else:
                    key = next(it)
                    segs = self.dict_put(s, segs, (key, next(it), (), False))
            res.append((s, s.alloc(HObj("dict", segs=tuple(segs)), "dict")))
        return res

    def dict_put(self, st, segs, entry):
        segs = list(segs)
        if entry[3]:
            return segs + [entry]
        for i, e in enumerate(segs):
            if not e[3] and self.decide_eq(st, e[0], entry[0]) is True:
                segs[i] = entry
                return segs
        segs.append(entry)
        return segs

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            parts.append(v if isinstance(v, ast.Constant) else v.value)
        res = []
        for s, vals in self.evals(parts, st):
            if isinstance(vals, Exc):
                res.append((s, vals))
                continue
            out = []
            for node, v in zip(n.values, vals):
                if isinstance(node, ast.Constant):
                    out.append(v)
                elif node.conversion == 114:
                    out.append(T("call", "builtins.repr", v))
                elif node.format_spec is not None:
                    out.append(T("fmt", v))
                else:
                    out.append(self.to_str(s, v))
            res.append((s, concat(out)))
        return res

    def to_str(self, st, v):
        if isinstance(v, Const):
            return Const(str(v.v))
        t = self.typeof(st, v)
        if t == "str":
            return v
        if isinstance(v, T) and v.op == "str":
            return v
        if self.path_text(v) is not None:
            return v.args[1]
        if isinstance(v, T) and v.op == "purepath":
            return Const(str(pathlib.PurePosixPath(v.args[0].v)))
        return T("str", v)

    def e_FormattedValue(self, n, st):
        return self.eval(n.value, st)

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_IfExp(self, n, st):
        res = []
        for s, c in self.eval(n.test, st):
            if isinstance(c, Exc):
                res.append((s, c))
                continue
            for s2, b in self.truth(s, c):
                if isinstance(b, Exc):
                    res.append((s2, b))
                else:
                    res.extend(self.eval(n.body if b else n.orelse, s2))
        return res

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        cur = [(st, None, False)]
        for i, e in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s, v, done in cur:
                if done:
                    nxt.append((s, v, True))
                    continue
                for s2, v2 in self.eval(e, s):
                    if isinstance(v2, Exc):
                        nxt.append((s2, v2, True))
                    elif last:
                        nxt.append((s2, v2, True))
                    else:
                        for s3, b in self.truth(s2, v2):
                            if isinstance(b, Exc):
                                nxt.append((s3, b, True))
                            elif b == is_and:
                                nxt.append((s3, v2, False))
                            else:
                                nxt.append((s3, v2, True))
            cur = nxt
        return [(s, v) for s, v, _ in cur]

    def e_UnaryOp(self, n, st):
        res = []
        for s, v in self.eval(n.operand, st):
            if isinstance(v, Exc):
                res.append((s, v))
            elif isinstance(n.op, ast.Not):
                for s2, b in self.truth(s, v):
                    res.append((s2, b if isinstance(b, Exc) else Const(not b)))
            elif isinstance(v, Const):
                try:
                    val = -v.v if isinstance(n.op, ast.USub) else +v.v if isinstance(n.op, ast.UAdd) else ~v.v
                    res.append((s, Const(val)))
                except TypeError:
                    res.append((s, Exc("TypeError", None, self.loc(s, n))))
            else:
                res.append((s, T("unary", type(n.op).__name__, v)))
        return res

    def e_BinOp(self, n, st):
        res = []
        for s, vals in self.evals([n.left, n.right], st):
            if isinstance(vals, Exc):
                res.append((s, vals))
            else:
                res.extend(self.binop(s, n.op, vals[0], vals[1], n))
        return res

    def binop(self, st, op, a, b, node=None):
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                fold = {
                    ast.Add: lambda: a.v + b.v, ast.Sub: lambda: a.v - b.v,
                    ast.Mult: lambda: a.v * b.v, ast.Div: lambda: a.v / b.v,
                    ast.FloorDiv: lambda: a.v // b.v, ast.Mod: lambda: a.v % b.v,
                    ast.BitOr: lambda: a.v | b.v, ast.BitAnd: lambda: a.v & b.v,
                }.get(type(op))
                if fold:
                    return [(st, Const(fold()))]
            except Exception:
                return [(st, Exc("TypeError", None, self.loc(st, node)))]
        lists = ("list",)
        if isinstance(op, ast.Add):
            la = isinstance(a, O) and st.heap[a].kind == "list"
            lb = isinstance(b, O) and st.heap[b].kind == "list"
            if la or lb:
                segs = self.splat_segs(st, a) + self.splat_segs(st, b)
                return [(st, st.alloc(HObj("list", segs=tuple(segs)), "list"))]
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(st, Tup(a.items + b.items))]
            ta, tb = self.typeof(st, a), self.typeof(st, b)
            if any(self.is_path(x, tx) and (ty == "str" or isinstance(y, Const)) for x, tx, y, ty in ((a, ta, b, tb), (b, tb, a, ta))):
                return [(st, Exc("TypeError", None, self.loc(st, node)))]
            if ta in ("str", "bytes") or tb in ("str", "bytes") or \
                    (isinstance(a, T) and a.op == "concat"):
                return [(st, concat([a, b]))]
            return [(st, T("add", a, b))]
        if isinstance(op, ast.BitOr):
            if isinstance(a, O) and isinstance(b, O) and st.heap[a].kind == st.heap[b].kind == "dict":
                segs = list(st.heap[a].segs)
                for e in st.heap[b].segs:
                    segs = self.dict_put(st, segs, e)
                return [(st, st.alloc(HObj("dict", segs=tuple(segs)), "dict"))]
            if isinstance(a, O) and isinstance(b, O) and st.heap[a].kind == st.heap[b].kind == "set":
                return [(st, st.alloc(HObj("set", segs=st.heap[a].segs + st.heap[b].segs), "set"))]
        if isinstance(op, (ast.BitAnd, ast.Sub, ast.BitOr, ast.BitXor)) and any(
                isinstance(x, O) and st.heap[x].kind == "set" for x in (a, b)):
            r = self.set_operation(st, type(op).__name__, a, b)
            if r is not None:
                return [(st, st.alloc(HObj("set", segs=tuple((x, (), False) for x in r)), "set"))]
        if isinstance(op, ast.Div):
            t = self.typeof(st, a)
            if any(isinstance(x, T) and x.op == "purepath" for x in (a, b)):
                texts = pure_texts((a, b))
                if texts is not None:
                    return [(st, T("purepath", Const(str(pathlib.PurePosixPath(*texts)))))]
            for x in (a, b):
                if self.path_text(x) is not None:
                    r = self.new_path(st, x.args[0], [a, b])
                    if self.path_text(r) is not None:
                        return [(st, r)]
            if t in ("Path", "=MetadataPath") or t is None or t == "str":
                return [(st, T("div", a, b))]
        if isinstance(op, ast.Mod) and self.typeof(st, a) == "str":
            return [(st, T("fmtmod", a, b))]
        fa, fb = self.freeze_shallow(st, a), self.freeze_shallow(st, b)
        return [(st, T("binop", type(op).__name__, fa, fb))]

    def is_path(self, v, t):
        return isinstance(v, T) and (v.op in ("path", "purepath") or t == "Path" or v.op == "div" and any(
            isinstance(x, Const) and isinstance(x.v, str) or self.is_path(x, None) for x in v.args))

    def freeze_shallow(self, st, v):
        if isinstance(v, O) and st.heap[v].kind in ("list", "set", "dict"):
            return self.freeze(st, v)
        return v

    def freeze(self, st, v, depth=0):
        """Immutable description of a value, including container contents."""
        if depth > 12:
            return v
        if isinstance(v, O):
            h = st.heap[v]
            if h.kind in ("list", "set"):
                return T("fz", h.kind, *[
                    T("seg", self.freeze(st, x, depth + 1), Tup(tag), Const(sp))
                    for x, tag, sp in h.segs])
            if h.kind == "dict":
                return T("fz", "dict", *[
                    T("seg", self.freeze(st, k, depth + 1),
                      self.freeze(st, x, depth + 1), Tup(tag), Const(sp))
                    for k, x, tag, sp in h.segs])
            if h.kind == "inst":
                if any(b.split(".")[-1] == "dict" for b in self.p.external_bases(h.cls)) \
                        and "%dict" in h.attrs:
                    return self.freeze(st, h.attrs["%dict"], depth + 1)
            return v
        if isinstance(v, Tup):
            return Tup(self.freeze(st, x, depth + 1) for x in v.items)
        return v

    def thaw(self, st, v, json=False):
        if isinstance(v, T) and v.op == "fz":
            kind = v.args[0]
            if kind in ("list", "set"):
                segs = tuple(
                    (self.thaw(st, s.args[0], json), s.args[1].items, s.args[2].v)
                    for s in v.args[1:])
                return st.alloc(HObj("list" if json else kind, segs=segs), "list")
            segs = []
            for s in v.args[1:]:
                k = s.args[0]
                if json and not s.args[3].v:
                    k = self.json_key(st, k)
                segs.append((k, self.thaw(st, s.args[1], json), s.args[2].items, s.args[3].v))
            return st.alloc(HObj("dict", segs=tuple(segs)), "dict")
        if isinstance(v, Tup) and json:
            return st.alloc(HObj("list", segs=tuple((self.thaw(st, x, json), (), False) for x in v.items)), "list")
        return v

    def json_key(self, st, k):
        if isinstance(k, Const):
            return k if isinstance(k.v, str) else Const(str(k.v))
        t = self.typeof(st, k)
        if t == "str" or (isinstance(k, T) and k.op == "str"):
            return k
        if t is None and isinstance(k, T) and k.op in ("key",):
            # JSON object keys are strings
            return T("jsonkey", k)
        return T("jsonkey", k)

    def e_Compare(self, n, st):
        if len(n.ops) > 1:
            # a < b < c  ->  a < b and b < c
            parts = []
            left = n.left
            for op, c in zip(n.ops, n.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [op], [c]), n))
                left = c
            return self.e_BoolOp(ast.copy_location(ast.BoolOp(ast.And(), parts), n), st)
        op = n.ops[0]
        res = []
        for s, vals in self.evals([n.left, n.comparators[0]], st):
            if isinstance(vals, Exc):
                res.append((s, vals))
                continue
            res.extend(self.cmp(s, op, vals[0], vals[1], n))
        return res

    def cmp(self, st, op, a, b, node):
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.compare(st, a, b, isinstance(op, ast.Is))
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return [(s, v if isinstance(v, Exc) else Const(not v.v) if isinstance(v, Const) else T("not", v))
                    for s, v in self.compare(st, a, b, isinstance(op, ast.IsNot))]
        if isinstance(op, ast.In):
            return self.contains(st, a, b, node)
        if isinstance(op, ast.NotIn):
            return [(s, v if isinstance(v, Exc) else Const(not v.v))
                    for s, v in self.contains(st, a, b, node)]
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return [(st, Const({
                    ast.Lt: lambda: a.v < b.v, ast.LtE: lambda: a.v <= b.v,
                    ast.Gt: lambda: a.v > b.v, ast.GtE: lambda: a.v >= b.v,
                }[type(op)]()))]
            except TypeError:
                return [(st, Exc("TypeError", None, self.loc(st, node)))]
        if isinstance(a, O) and isinstance(b, O) and "set" in (st.heap[a].kind, st.heap[b].kind):
            r = self.set_operation(st, type(op).__name__, a, b)
            if r is not None:
                return [(st, Const(r))]
        # len(x) > 0, 0 < len(x), len(x) >= 1 ..
        name = type(op).__name__
        if isinstance(a, Const):
            a, b = b, a
            name = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}[name]
        if isinstance(a, T) and a.op == "len" and isinstance(b, Const):
            inner = unwrap(a.args[0])
            if (name, b.v) in (("Gt", 0), ("GtE", 1)):
                return [(s, t if isinstance(t, Exc) else Const(t)) for s, t in self.truth(st, inner)]
            if (name, b.v) in (("Lt", 1), ("LtE", 0)):
                return [(s, t if isinstance(t, Exc) else Const(not t)) for s, t in self.truth(st, inner)]
        neg = False
        if name == "GtE":
            name, neg = "Lt", True
        elif name == "Gt":
            if isinstance(b, Const) and isinstance(b.v, int) and not isinstance(b.v, bool):
                name, neg, b = "Lt", True, Const(b.v + 1)
            else:
                a, b, name = b, a, "Lt"
        elif name == "LtE":
            if isinstance(b, Const) and isinstance(b.v, int) and not isinstance(b.v, bool):
                name, b = "Lt", Const(b.v + 1)
            else:
                a, b, name, neg = b, a, "Lt", True
        return [(s, Const(r != neg)) for s, r in self.branch(st, T("lt", a, b))]

    def contains(self, st, x, c, node=None):
        c = self.opened(st, c)
        if isinstance(c, Const) and isinstance(x, Const):
            try:
                return [(st, Const(x.v in c.v))]
            except TypeError:
                return [(st, Exc("TypeError", None, self.loc(st, node)))]
        if isinstance(c, Const) and isinstance(c.v, str) and len(c.v) == 1:
            return self.compare(st, x, c)
        if isinstance(c, Const) and isinstance(c.v, tuple):
            c = Tup(Const(i) for i in c.v)
        if isinstance(c, Tup):
            segs = [(i, (), False) for i in c.items]
        elif isinstance(c, O) and st.heap[c].kind in ("list", "set"):
            segs = st.heap[c].segs
        elif isinstance(c, O) and st.heap[c].kind == "dict":
            segs = [(k, tag, sp) for k, _, tag, sp in st.heap[c].segs]
        elif isinstance(c, O):
            m = self.p.find_method(st.heap[c].cls, "__contains__")
            if m is not None:
                hk = self.find_hook(st.heap[c].cls, "__contains__", c)
                r = hk(self, st, c, [x], {}, node) if hk else None
                if r is None:
                    r = self.call_function(st, FnV(m, m.module, c, None, m.cls, m.name), [x], {}, node)
            else:
                r = [(st, T("in", x, c))]
            return self.boolify(r)
        elif isinstance(c, Const):
            st.emit(Ev("nonederef", "__contains__", c, (), self.loc(st, node)))
            return [(st, Exc("TypeError", None, self.loc(st, node)))]
        else:
            tc, _ = self.type_class(self.typeof(st, c))
            if tc is not None:
                m = self.p.find_method(tc, "__contains__")
                hk = self.find_hook(tc, "__contains__", c)
                if hk is not None:
                    r = hk(self, st, c, [x], {}, node)
                    if r is not None:
                        return self.boolify(r)
                if m is not None:
                    return self.boolify(self.call_function(
                        st, FnV(m, m.module, c, None, m.cls, m.name), [x], {}, node))
            u = unwrap(c) if isinstance(c, T) and c.op != "values" and c.op != "items" else c
            if isinstance(x, T) and x.op == "key" and x.args[0] == u:
                return [(st, TRUE)]
            if isinstance(x, T) and x.op in ("val", "elem") and x.args[0] == unwrap(c) and c != u:
                return [(st, TRUE)]
            if ("item", u, x) in st.ov:
                return [(st, TRUE)]
            if st.facts.get(u) is False:
                return [(st, FALSE)]
            return [(s, Const(b)) for s, b in self.branch(st, T("in", x, u))]
        out = []
        cur = [st]
        for v, tag, splat in segs:
            nxt = []
            for s in cur:
                if splat:
                    for s2, r in self.contains(s, x, v, node):
                        if isinstance(r, Exc):
                            out.append((s2, r))
                        elif r == TRUE:
                            out.append((s2, TRUE))
                        else:
                            nxt.append(s2)
                    continue
                for s2, r in self.compare(s, x, v):
                    if isinstance(r, Exc):
                        out.append((s2, r))
                    else:
                        for s3, b in self.truth(s2, r):
                            if b is True:
                                out.append((s3, TRUE))
                            else:
                                nxt.append(s3)
            cur = nxt
        for s in cur:
            if any(tag for _, tag, _ in segs):
                # another element of the collection might be equal
                for s2, b in self.branch(s, T("in", x, self.freeze_shallow(s, c))):
                    out.append((s2, Const(b)))
            else:
                out.append((s, FALSE))
        return out

    def boolify(self, outs):
        res = []
        for s, v in outs:
            if isinstance(v, Exc):
                res.append((s, v))
            else:
                for s2, b in self.truth(s, v):
                    res.append((s2, b if isinstance(b, Exc) else Const(b)))
        return res

    def e_Subscript(self, n, st):
        if isinstance(n.slice, ast.Slice):
            parts = [x for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            nodes = [n.value] + [p for p in parts if p is not None]
            res = []
            for s, vals in self.evals(nodes, st):
                if isinstance(vals, Exc):
                    res.append((s, vals))
                    continue
                it = iter(vals[1:])
                lo, hi, step = [next(it) if p is not None else NONE for p in parts]
                res.append((s, self.slice(s, vals[0], lo, hi, step)))
            return res
        res = []
        for s, vals in self.evals([n.value, n.slice], st):
            if isinstance(vals, Exc):
                res.append((s, vals))
            else:
                res.extend(self.get_item(s, vals[0], vals[1], n))
        return res

    def slice(self, st, base, lo, hi, step=NONE):
        if all(isinstance(x, Const) for x in (base, lo, hi, step)):
            try:
                return Const(base.v[lo.v:hi.v:step.v])
            except TypeError:
                pass
        ints = all(isinstance(x, Const) for x in (lo, hi, step))
        if ints and isinstance(base, Tup):
            return Tup(base.items[lo.v:hi.v:step.v])
        if ints and isinstance(base, O) and st.heap[base].kind == "list":
            segs = st.heap[base].segs
            if all(x == NONE for x in (lo, hi, step)):
                return st.alloc(HObj("list", segs=segs), "list")
            if all(not s[1] and not s[2] for s in segs):
                return st.alloc(HObj("list", segs=segs[lo.v:hi.v:step.v]), "list")
            return T("slice", self.freeze(st, base), lo, hi)
        if ints and all(x == NONE for x in (lo, hi, step)):
            return base if self.typeof(st, base) in ("str", "bytes") else T("list", base)
        return T("slice", base, lo, hi) if step == NONE else T("slice", base, lo, hi, step)

    def get_item(self, st, base, key, node=None):
        base = self.opened(st, base)
        if isinstance(base, Const):
            if base.v is None:
                st.emit(Ev("nonederef", "[]", base, (), self.loc(st, node)))
                return [(st, Exc("TypeError", None, self.loc(st, node)))]
            if isinstance(key, Const):
                try:
                    return [(st, Const(base.v[key.v]))]
                except Exception as e:
                    return [(st, Exc(type(e).__name__, None, self.loc(st, node)))]
            return [(st, T("item", base, key))]
        if isinstance(base, Tup):
            if isinstance(key, Const) and isinstance(key.v, int):
                try:
                    return [(st, base.items[key.v])]
                except IndexError:
                    return [(st, Exc("IndexError", None, self.loc(st, node)))]
            return [(st, T("item", base, key))]
        if isinstance(base, O):
            h = st.heap[base]
            if h.kind == "list":
                if isinstance(key, Const) and isinstance(key.v, int):
                    plain = all(not s[1] and not s[2] for s in h.segs)
                    if plain:
                        try:
                            return [(st, h.segs[key.v][0])]
                        except IndexError:
                            return [(st, Exc("IndexError", None, self.loc(st, node)))]
                    if len(h.segs) == 1 and h.segs[0][2]:
                        return self.get_item(st, h.segs[0][0], key, node)
                return [(st, T("item", self.freeze(st, base), key))]
            if h.kind == "dict":
                return self.dict_get(st, base, key, None, node)
            m = self.p.find_method(h.cls, "__getitem__")
            if m is not None:
                return self.call_function(st, FnV(m, m.module, base, None, m.cls, m.name), [key], {}, node)
            if "%dict" in h.attrs:
                return self.get_item(st, h.attrs["%dict"], key, node)
            return [(st, T("item", base, key))]
        if isinstance(base, ClsV) or isinstance(base, ExtV):
            return [(st, base)]      # typing subscript
        if isinstance(base, T):
            u = base
            k = ("item", u, key)
            if k in st.ov:
                return [(st, st.ov[k])]
            if isinstance(key, T) and key.op == "key" and key.args == (u,):
                return [(st, T("val", u))]
            f = st.facts.get(T("in", key, u))
            if f is False or st.facts.get(u) is False:
                return [(st, Exc("KeyError", None, self.loc(st, node)))]
            if f is None and self.key_errors and not isinstance(key, Const):
                s2 = st.copy()
                s2.facts[T("in", key, u)] = False
                st.facts[T("in", key, u)] = True
                return [(st, self.item_term(st, u, key)), (s2, Exc("KeyError", None, self.loc(s2, node)))]
            return [(st, self.item_term(st, u, key))]
        raise Unsupported(f"item of {base!r}")

    def item_term(self, st, base, key):
        if isinstance(base, T) and base.op == "lines" and key == Const(0):
            return T("item", base, key)
        return T("item", base, key)

    def dict_get(self, st, base, key, default, node):
        """Lookup in a heap dict; default None: raise KeyError."""
        res = []
        cur = [st]
        h = st.heap[base]
        for k, v, tag, splat in reversed(h.segs):
            nxt = []
            for s in cur:
                if splat:
                    # unknown part
                    for s2, r in self.contains(s, key, v, node):
                        if isinstance(r, Exc):
                            res.append((s2, r))
                        elif r == TRUE:
                            res.extend(self.get_item(s2, v, key, node))
                        else:
                            nxt.append(s2)
                    continue
                d = self.decide_eq(s, k, key)
                if d is True:
                    res.append((s, v))
                elif d is False:
                    nxt.append(s)
                else:
                    for s2, r in self.compare(s, k, key):
                        if r == TRUE:
                            res.append((s2, v))
                        else:
                            nxt.append(s2)
            cur = nxt
        for s in cur:
            if default is not None:
                res.append((s, default))
            elif h.default is not None:
                for s2, v in self.call(s, h.default, [], {}, node):
                    if not isinstance(v, Exc):
                        hh = s2.update(base)
                        hh.segs = hh.segs + ((key, v, (), False),)
                    res.append((s2, v))
            elif h.label and h.label.startswith("%opaque"):
                res.append((s, T("item", base, key)))
            else:
                res.append((s, Exc("KeyError", None, self.loc(s, node))))
        return res

    def set_item(self, st, base, key, value, node=None):
        if isinstance(base, O):
            h = st.heap[base]
            if h.kind == "inst":
                m = self.p.find_method(h.cls, "__setitem__")
                if m is not None:
                    return self.call_function(st, FnV(m, m.module, base, None, m.cls, m.name), [key, value], {}, node)
            st.emit(Ev("mut", "__setitem__", base, (key, value), self.loc(st, node), extra=h.label))
            if h.kind == "dict":
                nh = st.update(base)
                tag = st.loops[h.depth:]
                nh.segs = tuple(self.dict_put(st, h.segs, (key, value, tag, False)))
            elif h.kind == "list":
                nh = st.update(base)
                if isinstance(key, Const) and all(not s[1] and not s[2] for s in h.segs):
                    segs = list(h.segs)
                    try:
                        segs[key.v] = (value, (), False)
                    except IndexError:
                        return [(st, Exc("IndexError", None, self.loc(st, node)))]
                    nh.segs = tuple(segs)
            return [(st, NONE)]
        if isinstance(base, Const):
            st.emit(Ev("nonederef", "[]=", base, (), self.loc(st, node)))
            return [(st, Exc("TypeError", None, self.loc(st, node)))]
        st.emit(Ev("mut", "__setitem__", base, (key, value), self.loc(st, node)))
        st.ov[("item", base, key)] = value
        return [(st, NONE)]

    def del_item(self, st, base, key, node=None):
        label = st.heap[base].label if isinstance(base, O) else None
        st.emit(Ev("mut", "__delitem__", base, (key,), self.loc(st, node), extra=label))
        if isinstance(base, O) and st.heap[base].kind == "dict":
            h = st.heap[base]
            segs = [e for e in h.segs if e[3] or self.decide_eq(st, e[0], key) is not True]
            if len(segs) == len(h.segs) and not any(
                    e[3] or self.decide_eq(st, e[0], key) is None for e in h.segs):
                return [(st, Exc("KeyError", None, self.loc(st, node)))]
            st.update(base).segs = tuple(segs)
        else:
            st.ov.pop(("item", base, key), None)
        return [(st, NONE)]

    def e_Lambda(self, n, st):
        return [(st, FnV(n, st.module, None, self.capture(st), st.func, "<lambda>"))]

    def capture(self, st):
        return dict(st.env)

    # comprehensions ------------------------------------------------------
    def e_ListComp(self, n, st):
        return self.comprehension(n, st, "list")

    def e_SetComp(self, n, st):
        return self.comprehension(n, st, "set")

    def e_GeneratorExp(self, n, st):
        return self.comprehension(n, st, "list")

    def e_DictComp(self, n, st):
        return self.comprehension(n, st, "dict")

    def comprehension(self, n, st, kind):
        ref = st.alloc(HObj(kind), kind)
        outer_env = {k: v for k, v in st.env.items()}

        def level(s, i):
            if i == len(n.generators):
                nodes = [n.key, n.value] if kind == "dict" else [n.elt]
                out = []
                for s2, vals in self.evals(nodes, s):
                    if isinstance(vals, Exc):
                        out.append((s2, ("raise", vals)))
                        continue
                    h = s2.update(ref)
                    tag = s2.loops[h.depth:]
                    if kind == "dict":
                        h.segs = tuple(self.dict_put(s2, h.segs, (vals[0], vals[1], tag, False)))
                    else:
                        h.segs = h.segs + ((vals[0], tag, False),)
                    out.append((s2, None))
                return out
            g = n.generators[i]
            out = []
            for s2, itv in self.eval(g.iter, s):
                if isinstance(itv, Exc):
                    out.append((s2, ("raise", itv)))
                    continue

                def body(s3, elem):
                    res = []
                    for s4, r in self.assign(s3, g.target, elem, g.target):
                        if isinstance(r, Exc):
                            res.append((s4, ("raise", r)))
                            continue
                        cur = [(s4, True)]
                        for cond in g.ifs:
                            nxt = []
                            for s5, ok in cur:
                                if ok is not True:
                                    nxt.append((s5, ok))
                                    continue
                                for s6, c in self.eval(cond, s5):
                                    if isinstance(c, Exc):
                                        nxt.append((s6, c))
                                        continue
                                    nxt.extend(self.truth(s6, c))
                            cur = nxt
                        for s5, ok in cur:
                            if isinstance(ok, Exc):
                                res.append((s5, ("raise", ok)))
                            elif ok:
                                res.extend(level(s5, i + 1))
                            else:
                                res.append((s5, None))
                    return res
                out.extend(self.iterate(s2, itv, body, n))
            return out
        result = []
        for s, ctl in level(st, 0):
            targets = set()
            for g in n.generators:
                targets |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for t in targets:
                s.env.pop(t, None)
                if t in outer_env:
                    s.env[t] = outer_env[t]
            if ctl is not None and ctl[0] == "raise":
                result.append((s, ctl[1]))
            else:
                result.append((s, ref))
        return result

    # ------------------------------------------------------------------
    # iteration
    # ------------------------------------------------------------------
    def generic_elem(self, st, itv, src, nested):
        extra = (Const(nested),) if nested else ()
        op = itv.op if isinstance(itv, T) else None
        v = itv
        while isinstance(v, T) and v.op in ("list", "sorted", "reversed", "iter", "set", "tuple", "frozenset"):
            v = v.args[0]
        if isinstance(v, T) and v.op == "items":
            return Tup((T("key", src, *extra), T("val", src, *extra)))
        if isinstance(v, T) and v.op == "values":
            return T("val", src, *extra)
        if isinstance(v, T) and v.op == "keys":
            return T("key", src, *extra)
        if self.typeof(st, v) == "dict":
            return T("key", src, *extra)
        return T("elem", src, *extra)

    def iterate(self, st, itv, body, node=None, tags=()):
        """Run body(state, element) for the elements of itv.

        body returns [(state, ctl)], iterate returns [(state, ctl)], where ctl
        is None | ("break",) is consumed | ("continue",) is consumed |
        ("return", v) | ("raise", exc).
        """
        itv = self.opened(st, itv)
        self.tick()
        if isinstance(itv, Const):
            if itv.v is None:
                st.emit(Ev("nonederef", "iter", itv, (), self.loc(st, node)))
                return [(st, ("raise", Exc("TypeError", None, self.loc(st, node))))]
            if isinstance(itv.v, (str, tuple, bytes)):
                segs = [(Const(x), (), False) for x in itv.v]
            else:
                return [(st, ("raise", Exc("TypeError", None, self.loc(st, node))))]
        elif isinstance(itv, Tup):
            segs = [(x, (), False) for x in itv.items]
        elif isinstance(itv, O) and st.heap[itv].kind in ("list", "set"):
            segs = st.heap[itv].segs
        elif isinstance(itv, O) and st.heap[itv].kind == "dict":
            segs = [(k, tag, sp) for k, _, tag, sp in st.heap[itv].segs]
        elif isinstance(itv, O):
            h = st.heap[itv]
            m = self.p.find_method(h.cls, "__iter__")
            if m is not None:
                out = []
                for s, r in self.call_function(st, FnV(m, m.module, itv, None, m.cls, m.name), [], {}, node):
                    if isinstance(r, Exc):
                        out.append((s, ("raise", r)))
                    else:
                        out.extend(self.iterate(s, r, body, node))
                return out
            if any(b.split(".")[-1] in ("Enum",) for b in self.p.external_bases(h.cls)):
                segs = []
            else:
                return self.iterate_generic(st, T("elems", itv), body, node)
        elif isinstance(itv, ClsV) and any(
                b.split(".")[-1] == "Enum" for b in self.p.external_bases(itv.cls)):
            segs = [(T("enum", itv.cls.name, nm), (), False) for nm in itv.cls.assigns]
        else:
            t = self.typeof(st, itv)
            c, exact = self.type_class(t)
            if c is not None and self.p.find_method(c, "__iter__") is not None:
                m = self.p.find_method(c, "__iter__")
                out = []
                for s, r in self.call_function(st, FnV(m, m.module, itv, None, m.cls, m.name), [], {}, node):
                    if isinstance(r, Exc):
                        out.append((s, ("raise", r)))
                    else:
                        out.extend(self.iterate(s, r, body, node))
                return out
            if isinstance(itv, T) and itv.op == "enumerate":
                def body2(s, e):
                    idx = T("index", unwrap(itv.args[0]) if isinstance(itv.args[0], T) else itv.args[0])
                    return body(s, Tup((idx, e)))
                return self.iterate(st, itv.args[0], body2, node)
            return self.iterate_generic(st, itv, body, node)

        cur = [st]
        out = []
        for seg in segs:
            v, tag, splat = seg
            nxt = []
            for s in cur:
                if splat:
                    for s2, ctl in self.iterate_generic(s, v, body, node) if not isinstance(v, (O, Tup, Const)) \
                            else self.iterate(s, v, body, node):
                        if ctl is None:
                            nxt.append(s2)
                        else:
                            out.append((s2, ctl))
                    continue
                saved = s.loops
                if tag:
                    s.loops = s.loops + tuple(tag)
                for s2, ctl in body(s, v):
                    s2.loops = saved
                    if ctl is None or ctl[0] == "continue":
                        nxt.append(s2)
                    elif ctl[0] == "break":
                        if tag:
                            s2.emit(Ev("loopbreak", None, None, tuple(tag), self.loc(s2, node)))
                        elif seg is not segs[-1]:
                            s2.emit(Ev("loopbreak", None, None, (), self.loc(s2, node)))
                        out.append((s2, ("%broke",)))
                    else:
                        if tag and ctl[0] == "return":
                            s2.emit(Ev("loopbreak", None, None, tuple(tag), self.loc(s2, node)))
                        out.append((s2, ctl))
            cur = nxt
        res = [(s, None) for s in cur]
        for s, ctl in out:
            res.append((s, None if ctl[0] == "%broke" else ctl))
            if ctl[0] == "%broke":
                s.env["%broke"] = True
        return res

    def iterate_generic(self, st, itv, body, node):
        src = unwrap(itv)
        if isinstance(src, (O, Tup, Const)):
            if isinstance(src, O) and isinstance(itv, T) and itv.op in ("items", "values", "keys"):
                h = st.heap[src]
                if h.kind == "dict":
                    return self.iterate(st, self.dict_view(st, src, itv.op), body, node)
            if not (isinstance(itv, T) and itv.op in ("items", "values", "keys")):
                return self.iterate(st, src, body, node)
        out = []
        nested = sum(1 for x in st.loops if x == src)
        for s, ne in self.truth(st, src):
            if isinstance(ne, Exc):
                out.append((s, ("raise", ne)))
                continue
            if not ne:
                s.emit(Ev("loop", "none", src, (), self.loc(s, node)))
                out.append((s, None))
                continue
            s.emit(Ev("loop", "iter", src, (), self.loc(s, node)))
            saved = s.loops
            s.loops = saved + (src,)
            elem = self.generic_elem(s, itv, src, nested)
            for s2, ctl in body(s, elem):
                s2.loops = saved
                if ctl is None or ctl[0] == "continue":
                    s2.emit(Ev("loop", "done", src, (), self.loc(s2, node)))
                    out.append((s2, None))
                elif ctl[0] == "break":
                    s2.emit(Ev("loopbreak", None, None, (src,), self.loc(s2, node)))
                    s2.env["%broke"] = True
                    out.append((s2, None))
                else:
                    if ctl[0] == "return":
                        s2.emit(Ev("loopbreak", None, None, (src,), self.loc(s2, node)))
                    out.append((s2, ctl))
        return out

    def dict_view(self, st, ref, op):
        segs = []
        for k, v, tag, sp in st.heap[ref].segs:
            if sp:
                segs.append((T(op, v), tag, True))
            elif op == "items":
                segs.append((Tup((k, v)), tag, False))
            elif op == "values":
                segs.append((v, tag, False))
            else:
                segs.append((k, tag, False))
        return st.alloc(HObj("list", segs=tuple(segs), label=op), "view")

    def opened(self, st, v):
        """Heap object with the content of a term that is an instance of a plain sub-class of dict."""
        if isinstance(v, T) and v.op == "new" and len(v.args) == 2 and v.args[0] in self.p.classes \
                and isinstance(v.args[1], T) and v.args[1].op == "fz":
            cls = self.p.classes[v.args[0]]
            if not set(cls.methods) - {"__hash__"} and [b.split(".")[-1] for b in self.p.external_bases(cls)] == ["dict"]:
                return self.thaw(st, v.args[1])
        return v

    # ------------------------------------------------------------------
    # assignment
    # ------------------------------------------------------------------
    def assign(self, st, target, value, node):
        if isinstance(target, ast.Name):
            if target.id in st.env.get("%global", ()):
                st.glob[("mod", st.module.name, target.id)] = value
                st.emit(Ev("setglobal", target.id, None, (value,), self.loc(st, node)))
            else:
                st.env[target.id] = value
            return [(st, NONE)]
        if isinstance(target, ast.Starred):
            return self.assign(st, target.value, value, node)
        if isinstance(target, (ast.Tuple, ast.List)):
            elts = target.elts
            vals = None
            if isinstance(value, Tup):
                vals = list(value.items)
            elif isinstance(value, O) and st.heap[value].kind == "list":
                segs = st.heap[value].segs
                if all(not x[1] and not x[2] for x in segs):
                    vals = [x[0] for x in segs]
            elif isinstance(value, Const):
                if value.v is None:
                    st.emit(Ev("nonederef", "unpack", value, (), self.loc(st, node)))
                    return [(st, Exc("TypeError", None, self.loc(st, node)))]
                if isinstance(value.v, (tuple, str)):
                    vals = [Const(x) for x in value.v]
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if vals is not None:
                if star:
                    i = star[0]
                    after = len(elts) - i - 1
                    if len(vals) < len(elts) - 1:
                        return [(st, Exc("ValueError", None, self.loc(st, node)))]
                    mid = vals[i:len(vals) - after]
                    ref = st.alloc(HObj("list", segs=tuple((v, (), False) for v in mid)), "list")
                    vals = vals[:i] + [ref] + vals[len(vals) - after:]
                elif len(vals) != len(elts):
                    return [(st, Exc("ValueError", None, self.loc(st, node)))]
            else:
                if star:
                    i = star[0]
                    vals = [T("item", value, Const(j)) for j in range(i)]
                    vals.append(T("slice", value, Const(i), Const(-(len(elts) - i - 1)) if i < len(elts) - 1 else NONE))
                    vals += [T("item", value, Const(j - len(elts))) for j in range(i + 1, len(elts))]
                else:
                    vals = []
                    cur = None
                    for j in range(len(elts)):
                        r = self.get_item(st, value, Const(j), node)
                        vals.append(r[0][1] if not isinstance(r[0][1], Exc) else T("item", value, Const(j)))
            cur = [(st, NONE)]
            for e, v in zip(elts, vals):
                nxt = []
                for s, r in cur:
                    if isinstance(r, Exc):
                        nxt.append((s, r))
                    else:
                        nxt.extend(self.assign(s, e, v, node))
                cur = nxt
            return cur
        if isinstance(target, ast.Attribute):
            res = []
            for s, b in self.eval(target.value, st):
                if isinstance(b, Exc):
                    res.append((s, b))
                else:
                    res.extend(self.set_attr(s, b, target.attr, value, target))
            return res
        if isinstance(target, ast.Subscript):
            if isinstance(target.slice, ast.Slice):
                res = []
                for s, b in self.eval(target.value, st):
                    if isinstance(b, Exc):
                        res.append((s, b))
                        continue
                    s.emit(Ev("mut", "__setitem__", b, (value,), self.loc(s, node)))
                    if isinstance(b, O) and s.heap[b].kind == "list":
                        s.update(b).segs = tuple(self.splat_segs(s, value))
                    res.append((s, NONE))
                return res
            res = []
            for s, vals in self.evals([target.value, target.slice], st):
                if isinstance(vals, Exc):
                    res.append((s, vals))
                else:
                    res.extend(self.set_item(s, vals[0], vals[1], value, target))
            return res
        raise Unsupported(f"assignment to {type(target).__name__}")

    # ------------------------------------------------------------------
    # calls
    # ------------------------------------------------------------------
    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) \
                and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            fouts = self.super_method(st, n.func.attr, n)
        elif isinstance(n.func, ast.Name) and n.func.id in ("cast",) and len(n.args) == 2:
            return self.eval(n.args[1], st)
        else:
            fouts = self.eval(n.func, st)
        res = []
        for s, f in fouts:
            if isinstance(f, Exc):
                res.append((s, f))
                continue
            for s2, pack in self.eval_args(n, s):
                if isinstance(pack, Exc):
                    res.append((s2, pack))
                    continue
                args, kwargs = pack
                res.extend(self.call(s2, f, args, kwargs, n))
        return res

    def eval_args(self, n, st):
        nodes = [a.value if isinstance(a, ast.Starred) else a for a in n.args]
        nodes += [k.value for k in n.keywords]
        res = []
        for s, vals in self.evals(nodes, st):
            if isinstance(vals, Exc):
                res.append((s, vals))
                continue
            args = []
            for a, v in zip(n.args, vals):
                if isinstance(a, ast.Starred):
                    if isinstance(v, Tup):
                        args.extend(v.items)
                    elif isinstance(v, O) and s.heap[v].kind == "list" and all(
                            not x[1] and not x[2] for x in s.heap[v].segs):
                        args.extend(x[0] for x in s.heap[v].segs)
                    elif isinstance(v, Const) and isinstance(v.v, tuple):
                        args.extend(Const(x) for x in v.v)
                    else:
                        args.append(T("star", v))
                else:
                    args.append(v)
            kwargs = {}
            for k, v in zip(n.keywords, vals[len(n.args):]):
                if k.arg is None:
                    if isinstance(v, O) and s.heap[v].kind == "dict":
                        for kk, vv, tag, sp in s.heap[v].segs:
                            if isinstance(kk, Const) and not sp:
                                kwargs[kk.v] = vv
                    else:
                        kwargs["**"] = v
                else:
                    kwargs[k.arg] = v
            res.append((s, (args, kwargs)))
        return res

    def super_method(self, st, name, node):
        selfv = None
        f = st.func
        # the first argument of the function
        if f is not None and f.node.args.args:
            selfv = st.env.get(f.node.args.args[0].arg)
        cls = None
        if isinstance(selfv, O):
            cls = st.heap[selfv].cls
        elif isinstance(selfv, ClsV):
            cls = selfv.cls
        elif isinstance(selfv, T):
            cls, _ = self.type_class(self.typeof(st, selfv))
        if cls is None:
            cls = f.cls
        after = f.cls
        m = self.p.find_method(cls, name, after)
        if m is None:
            return [(st, BM(T("super", selfv), name))]
        return [(st, FnV(m, m.module, selfv, None, m.cls, m.name))]

    def find_hook(self, cls, name, recv=None):
        if cls is not None:
            for c in self.p.mro(cls):
                h = self.hooks.get(c.name + "." + name)
                if h is not None:
                    return h
        return self.hooks.get("." + name)

    def call(self, st, f, args, kwargs, node):
        self.tick()
        if node is not None:
            self.call_sites.add((st.module.name if st.module else "?", getattr(node, "lineno", 0),
                                 getattr(node, "col_offset", 0)))
        if isinstance(f, FnV):
            if f.defcls is not None and isinstance(f.defcls, Class):
                recv = f.self
                cls = f.defcls
                if isinstance(recv, O) and st.heap[recv].kind == "inst":
                    cls = st.heap[recv].cls
                elif isinstance(recv, ClsV):
                    cls = recv.cls
                elif isinstance(recv, T):
                    c, exact = self.type_class(self.typeof(st, recv))
                    cls = c or cls
                a = args
                if recv is None and not f.partial[0] and not f.func.has_decorator("staticmethod"):
                    # unbound call Class.method(obj, ..)
                    if args:
                        recv, a = args[0], args[1:]
                hk = self.find_hook(cls, f.name, recv)
                if hk is not None:
                    r = hk(self, st, recv, list(a), dict(kwargs), node)
                    if r is not None:
                        return r
                if isinstance(recv, T) and not f.partial[0]:
                    c, exact = self.type_class(self.typeof(st, recv))
                    if c is not None and not exact and not f.func.has_decorator("staticmethod"):
                        over = [k for k in self.p.classes.values()
                                if k is not c and self.p.is_subclass(k, c.name)
                                and f.name in k.methods]
                        if over or f.func.has_decorator("abstractmethod"):
                            return self.opaque_call(st, f.name, recv, a, kwargs, node)
            else:
                hk = self.hooks.get(f.name) if isinstance(f.func, Function) else None
                if hk is not None:
                    r = hk(self, st, None, list(args), dict(kwargs), node)
                    if r is not None:
                        return r
            return self.call_function(st, f, args, kwargs, node)
        if isinstance(f, ClsV):
            return self.instantiate(st, f.cls, args, kwargs, node)
        if isinstance(f, ExtV):
            return self.call_ext(st, f.name, args, kwargs, node)
        if isinstance(f, BM):
            return self.call_bm(st, f.recv, f.name, args, kwargs, node)
        if isinstance(f, Const):
            st.emit(Ev("nonederef", "()", f, (), self.loc(st, node)))
            return [(st, Exc("TypeError", None, self.loc(st, node)))]
        if isinstance(f, T):
            if f.op == "partial":
                pf, pargs, pkw = f.args
                kw = dict((k.v, v) for k, v in (x.items for x in pkw.items))
                kw.update(kwargs)
                return self.call(st, pf, list(pargs.items) + list(args), kw, node)
            if f.op == "type":
                t = self.typeof(st, f.args[0])
                c, exact = self.type_class(t)
                if c is not None and exact:
                    return self.instantiate(st, c, args, kwargs, node)
            if f.op == "getter":
                kind, names = f.args[0], f.args[1:]
                if kind == "attr" and len(names) == 1:
                    return self.get_attr(st, args[0], names[0].v, node)
                if kind == "item" and len(names) == 1:
                    return self.get_item(st, args[0], names[0], node)
                if kind == "method":
                    cur = []
                    for s, m in self.get_attr(st, args[0], names[0].v, node):
                        cur.extend([(s, m)] if isinstance(m, Exc) else self.call(s, m, list(names[1:]), {}, node))
                    return cur
            if f.op == "attr":
                return self.call_bm(st, f.args[0], f.args[1], args, kwargs, node)
            return self.opaque_call(st, "()", f, args, kwargs, node)
        if isinstance(f, O):
            h = st.heap[f]
            m = self.p.find_method(h.cls, "__call__") if h.kind == "inst" else None
            if m is not None:
                return self.call(st, FnV(m, m.module, f, None, m.cls, m.name), args, kwargs, node)
        return self.opaque_call(st, "()", f, args, kwargs, node)

    def opaque_call(self, st, name, recv, args, kwargs, node, result=None):
        fargs = [self.freeze_shallow(st, a) for a in args]
        fkw = tuple(T("kw", k, self.freeze_shallow(st, v)) for k, v in sorted(kwargs.items()))
        st.emit(Ev("call", name, recv, tuple(args) + fkw, self.loc(st, node)))
        if result is None:
            if recv is None:
                result = T("call", name, *fargs, *fkw)
            else:
                result = T("mcall", recv, name, *fargs, *fkw)
        outs = [(st, result)]
        for kind in self.may_raise(name, recv):
            s2 = st.copy()
            s2.emit(Ev("raised", name, recv, (), self.loc(st, node)))
            outs.append((s2, Exc(kind, None, self.loc(s2, node))))
        return outs

    def known_structure(self, st, v):
        """An instance whose containers are completely known, or a known list of instances."""
        h = st.h(v) if isinstance(v, O) else None
        if h is not None and h.kind in ("list", "tuple"):
            return bool(h.segs) and all(not s[-1] and not s[-2] for s in h.segs) and any(
                isinstance(s[0], O) and st.h(s[0]).kind == "inst" for s in h.segs)
        if h is None or h.kind != "inst":
            return False
        if not h.opaque and h.attrs and not any(isinstance(x, T) and x.op in ("attr", "call", "mcall")
                                                for x in h.attrs.values()):
            return True
        boxes = [x for x in h.attrs.values() if isinstance(x, O) and st.h(x).kind in ("dict", "list")]
        return bool(boxes) and all(not s[-1] and not s[-2] for b in boxes for s in st.h(b).segs)

    def call_function(self, st, f, args, kwargs, node, ctx=None):
        """Inline a package function."""
        fn = f.func
        if isinstance(fn, ast.Lambda):
            a = fn.args
            name = "<lambda>"
        else:
            a = fn.node.args if isinstance(fn, Function) else fn.args
            name = fn.qualname if isinstance(fn, Function) else fn.name
        depth = sum(1 for c in st.calls if c == id(fn))
        known = depth and any(self.known_structure(st, x) for x in [f.self, *args] if isinstance(x, O))
        if depth and depth < (self.known_depth if known else 3) \
                and (known or any(isinstance(x, O) and st.h(x).kind == "inst" for x in [f.self, *args])):
            depth = 0       # recursion over a structure that is known
        if name in self.opaque or depth >= 1 and isinstance(fn, Function) or len(st.calls) > self.max_depth:
            recv = f.self
            nm = f.name
            r = self.opaque_call(st, nm if recv is not None else name, recv, args, kwargs, node)
            return r
        if isinstance(fn, Function):
            self.functions_seen.add((fn.module.name, fn.qualname))
        # bind parameters
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        bound_self = f.self is not None and not (isinstance(fn, Function) and fn.has_decorator("staticmethod"))
        if bound_self:
            pos = [f.self] + pos
        if any(isinstance(x, T) and x.op == "star" for x in pos) and a.vararg is None:
            # unknown number of arguments
            out = []
            for x in pos:
                if isinstance(x, T) and x.op == "star":
                    need = len(params) - len(out) - sum(1 for k in kwargs if k in params)
                    out.extend(T("item", x.args[0], Const(i)) for i in range(max(need, 0)))
                else:
                    out.append(x)
            pos = out
        if len(pos) > len(params):
            if a.vararg is None:
                st.emit(Ev("badcall", name, f.self, args, self.loc(st, node)))
                return [(st, Exc("TypeError", None, self.loc(st, node)))]
            extra = pos[len(params):]
            pos = pos[:len(params)]
            if len(extra) == 1 and isinstance(extra[0], T) and extra[0].op == "star":
                env[a.vararg.arg] = extra[0].args[0]
            else:
                env[a.vararg.arg] = Tup(extra) if not any(
                    isinstance(x, T) and x.op == "star" for x in extra) else T("varargs", *extra)
        elif a.vararg is not None:
            env[a.vararg.arg] = Tup(())
        for pn, v in zip(params, pos):
            env[pn] = v
        kw = dict(kwargs)
        star_kw = kw.pop("**", None)
        for pn in params[len(pos):] + [p.arg for p in a.kwonlyargs]:
            if pn in kw:
                env[pn] = kw.pop(pn)
        rest = {k: v for k, v in kw.items()}
        if rest and a.kwarg is None:
            st.emit(Ev("badcall", name, f.self, args, self.loc(st, node)))
            return [(st, Exc("TypeError", None, self.loc(st, node)))]
        # defaults
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        missing = [pn for pn in params + [p.arg for p in a.kwonlyargs] if pn not in env]
        module = fn.module if isinstance(fn, Function) else f.module
        cur = [(st, env)]
        for pn in missing:
            if pn not in defaults:
                if star_kw is not None:
                    for s, e in cur:
                        e[pn] = T("item", star_kw, Const(pn))
                    continue
                st.emit(Ev("badcall", name, f.self, args, self.loc(st, node)))
                return [(st, Exc("TypeError", None, self.loc(st, node)))]
            nxt = []
            for s, e in cur:
                if f.env is not None:
                    vals = self.eval_in_module(s, defaults[pn], module, f.env)
                else:
                    vals = self.eval_in_module(s, defaults[pn], module)
                for s2, v in vals:
                    e2 = dict(e)
                    e2[pn] = v
                    nxt.append((s2, e2))
            cur = nxt
        result = []
        for s, e in cur:
            if a.kwarg is not None:
                segs = tuple((Const(k), v, (), False) for k, v in rest.items())
                if star_kw is not None:
                    segs = segs + ((star_kw, star_kw, (), True),)
                e[a.kwarg.arg] = s.alloc(HObj("dict", segs=segs), "kwargs")
            if f.env is not None:
                e["%closure"] = f.env
            saved = (s.module, s.func, s.calls, s.loops)
            s.stack = s.stack + (s.env,)
            s.env = e
            s.module = module
            if isinstance(fn, Function):
                s.func = fn
                s.emit(Ev("enter", fn.qualname, f.self, tuple(pos) + tuple(
                    e[k] for k in params[len(pos):] if k in e), self.loc(s, fn.node)))
            s.calls = s.calls + (id(fn),)
            if isinstance(fn, ast.Lambda):
                outs = [(s2, ("raise", v) if isinstance(v, Exc) else ("return", v))
                        for s2, v in self.eval(fn.body, s)]
            else:
                gen = isinstance(fn, Function) and fn.is_generator or (
                    not isinstance(fn, Function) and _gen(fn))
                if gen and ctx is None:
                    e["%yield"] = s.alloc(HObj("list"), "yields")
                if ctx is not None:
                    e["%ctx"] = ctx
                body = fn.node.body if isinstance(fn, Function) else fn.body
                outs = self.exec_block(s, body)
            for s2, ctl in outs:
                yl = s2.env.get("%yield")
                genv = s2.env
                s2.env = dict(s2.stack[-1])
                s2.stack = s2.stack[:-1]
                s2.module, s2.func, s2.calls, s2.loops = saved
                if ctl is None:
                    v = NONE
                elif ctl[0] == "return":
                    v = ctl[1]
                elif ctl[0] == "raise":
                    v = ctl[1]
                else:
                    v = NONE
                if yl is not None and not isinstance(v, Exc):
                    v = yl
                if isinstance(fn, Function):
                    s2.emit(Ev("leave", fn.qualname, f.self, (NONE if isinstance(v, Exc) else v,),
                               self.loc(s2, node), extra="raise" if isinstance(v, Exc) else None))
                result.append((s2, v))
        return result

    def instantiate(self, st, cls, args, kwargs, node):
        hk = self.hooks.get("new " + cls.name)
        if hk is not None:
            r = hk(self, st, None, list(args), dict(kwargs), node)
            if r is not None:
                return r
        ext = [b.split(".")[-1] for b in self.p.external_bases(cls)]
        if any(b in ("Enum", "IntEnum") for b in ext):
            return [(st, T("call", cls.name, *args))]
        if any(hasattr(builtins, b) and isinstance(getattr(builtins, b), type)
               and issubclass(getattr(builtins, b), BaseException) for b in ext):
            return [(st, T("exc", cls.name, *args))]
        if any(b.startswith("Pure") or b in ("Path", "PosixPath") for b in ext):
            return [(st, self.new_path(st, cls.name, args))]
        if any(b in ("dict", "UserDict", "OrderedDict") for b in ext) and "__init__" not in cls.methods:
            if not args:
                ref = st.alloc(HObj("dict"), "dict")
                return [(st, T("new", cls.name, self.freeze(st, ref)))]
            content = self.freeze_shallow(st, args[0])
            while isinstance(content, T) and content.op == "new" and len(content.args) == 2 and any(
                    b.split(".")[-1] in ("dict", "UserDict", "OrderedDict")
                    for c in (self.p.classes.get(content.args[0]),) if c for b in self.p.external_bases(c)):
                content = content.args[1]
            return [(st, T("new", cls.name, content))]
        ref = st.alloc(HObj("inst", cls=cls, label="new"), cls.name)
        st.emit(Ev("new", cls.name, ref, tuple(args) + tuple(
            T("kw", k, v) for k, v in sorted(kwargs.items())), self.loc(st, node)))
        init = self.p.find_method(cls, "__init__")
        if init is None and cls.is_dataclass():
            return self.dataclass_init(st, cls, ref, args, kwargs, node)
        if init is None:
            return [(st, ref)]
        res = []
        for s, v in self.call_function(st, FnV(init, init.module, ref, None, init.cls, "__init__"), args, kwargs, node):
            res.append((s, v if isinstance(v, Exc) else ref))
        return res

    def path_text(self, v):
        """Text of a path object that is constant, None for all others."""
        if isinstance(v, T) and v.op == "new" and len(v.args) == 2 and isinstance(v.args[1], Const) \
                and isinstance(v.args[1].v, str) and v.args[0] in self.p.classes:
            return v.args[1].v
        return None

    def distinct_values(self, st, v, dicts=True):
        """Different values of an explicit collection, None if they are not known."""
        if isinstance(v, Tup):
            values = v.items
        elif isinstance(v, O) and st.heap[v].kind in ("list", "set") + (("dict",) if dicts else ()):
            segs = st.heap[v].segs
            if any(s[-1] or s[-2] for s in segs):
                return None
            values = [s[0] for s in segs]
        else:
            return None
        res = []
        for x in values:
            for y in res:
                d = self.decide_eq(st, x, y)
                if d is None:
                    return None
                if d:
                    break
            else:
                res.append(x)
        return res

    def set_operation(self, st, name, a, b):
        """Result of an operation of two explicit sets: list of values or bool, None if unknown."""
        xs, ys = self.distinct_values(st, a), self.distinct_values(st, b)
        if xs is None or ys is None:
            return None

        def member(x, vs):
            ds = [self.decide_eq(st, x, y) for y in vs]
            return True if True in ds else None if None in ds else False

        inb, ina = [member(x, ys) for x in xs], [member(y, xs) for y in ys]
        if None in inb or None in ina:
            return None
        if name in ("intersection", "BitAnd"):
            return [x for x, i in zip(xs, inb) if i]
        if name in ("difference", "Sub"):
            return [x for x, i in zip(xs, inb) if not i]
        if name in ("union", "BitOr"):
            return xs + [y for y, i in zip(ys, ina) if not i]
        if name in ("symmetric_difference", "BitXor"):
            return [x for x, i in zip(xs, inb) if not i] + [y for y, i in zip(ys, ina) if not i]
        return {"issubset": all(inb), "LtE": all(inb), "issuperset": all(ina), "GtE": all(ina),
                "isdisjoint": not any(inb), "Lt": all(inb) and not all(ina), "Gt": all(ina) and not all(inb),
                "eq": all(ina) and all(inb)}.get(name)

    def new_path(self, st, name, args):
        texts = [x.v if isinstance(x, Const) and isinstance(x.v, str) else self.path_text(x) for x in args]
        if None not in texts:
            parts = pathlib.PurePosixPath(*texts).parts
            return T("new", name, Const("/".join(x for x in parts if x != "/")))
        if len(args) == 1:
            x = args[0]
            # MetadataPath(p.as_posix()) == p, MetadataPath(str(p)) == p
            if isinstance(x, T) and self.typeof(st, x) == "=" + name:
                return x
            if isinstance(x, T) and x.op == "mcall" and x.args[1] == "as_posix" \
                    and self.typeof(st, x.args[0]) == "=" + name:
                return x.args[0]
            if isinstance(x, T) and x.op == "str" and self.typeof(st, x.args[0]) == "=" + name:
                return x.args[0]
        return T("new", name, *[self.freeze_shallow(st, a) for a in args])

    def dataclass_init(self, st, cls, ref, args, kwargs, node):
        fields = []
        for c in reversed(self.p.mro(cls)):
            for n, d in c.annotations:
                fields.append((n, d, c))
        values = {}
        for (n, d, c), v in zip(fields, args):
            values[n] = v
        for k, v in kwargs.items():
            values[k] = v
        cur = [st]
        for n, d, c in fields:
            if n not in values:
                if d is None:
                    st.emit(Ev("badcall", cls.name, None, args, self.loc(st, node)))
                    return [(st, Exc("TypeError", None, self.loc(st, node)))]
                if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("field"):
                    fac = [k.value for k in d.keywords if k.arg == "default_factory"]
                    dflt = [k.value for k in d.keywords if k.arg == "default"]
                    if fac:
                        r = self.eval_in_module(st, ast.Call(fac[0], [], []), c.module)
                        values[n] = r[0][1]
                    elif dflt:
                        values[n] = self.eval_in_module(st, dflt[0], c.module)[0][1]
                else:
                    values[n] = self.eval_in_module(st, d, c.module)[0][1]
        h = st.update(ref)
        for n, d, c in fields:
            h.attrs[n] = values[n]
        post = self.p.find_method(cls, "__post_init__")
        if post is None:
            return [(st, ref)]
        return [(s, v if isinstance(v, Exc) else ref) for s, v in self.call_function(
            st, FnV(post, post.module, ref, None, post.cls, "__post_init__"), [], {}, node)]

    # ------------------------------------------------------------------
    # statements
    # ------------------------------------------------------------------
    def exec_block(self, st, stmts):
        cur = [st]
        out = []
        for stmt in stmts:
            nxt = []
            for s in cur:
                for s2, ctl in self.exec(stmt, s):
                    if ctl is None:
                        nxt.append(s2)
                    else:
                        out.append((s2, ctl))
            cur = self.merge(nxt)
            if not cur:
                break
        return [(s, None) for s in cur] + out

    def merge(self, states):
        if len(states) < 24:
            return states
        seen = {}
        res = []
        for s in states:
            key = (
                id(s.ev[1]) if s.ev else 0, s.nev,
                frozenset((k, v) for k, v in s.env.items() if not k.startswith("%")),
                frozenset(s.facts.items()),
                frozenset((k, id(v)) for k, v in s.heap.items()),
            )
            if key in seen:
                continue
            seen[key] = True
            res.append(s)
        return res

    def exec(self, stmt, st):
        self.tick()
        m = getattr(self, "s_" + type(stmt).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(stmt).__name__}")
        return m(stmt, st)

    def s_Expr(self, n, st):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(n.value, st)
        return [(s, ("raise", v) if isinstance(v, Exc) else None) for s, v in self.eval(n.value, st)]

    def e_Yield(self, n, st):
        res = []
        for s, ctl in self.do_yield(n, st):
            if ctl is None:
                res.append((s, NONE))
            elif ctl[0] == "raise":
                res.append((s, ctl[1]))
            else:
                s.ctl = ctl
                res.append((s, NONE))
        return res

    def e_YieldFrom(self, n, st):
        return self.e_Yield(n, st)

    def do_yield(self, n, st):
        if isinstance(n, ast.YieldFrom):
            out = []
            for s, v in self.eval(n.value, st):
                if isinstance(v, Exc):
                    out.append((s, ("raise", v)))
                    continue
                s.emit(Ev("yieldfrom", None, None, (v,), self.loc(s, n)))
                yl = s.env.get("%yield")
                if yl is not None:
                    h = s.update(yl)
                    tag = s.loops[h.depth:]
                    h.segs = h.segs + tuple((x, tuple(tag) + tuple(tg), sp) for x, tg, sp in self.splat_segs(s, v))
                out.append((s, None))
            return out
        vals = [(st, NONE)] if n.value is None else self.eval(n.value, st)
        out = []
        for s, v in vals:
            if isinstance(v, Exc):
                out.append((s, ("raise", v)))
                continue
            ctx = s.env.get("%ctx")
            if ctx is not None:
                out.extend(self.run_ctx(s, ctx, v))
                continue
            s.emit(Ev("yield", None, None, (v,), self.loc(s, n)))
            yl = s.env.get("%yield")
            if yl is not None:
                h = s.update(yl)
                h.segs = h.segs + ((v, tuple(s.loops[h.depth:]), False),)
            out.append((s, None))
            if self.may_raise("%yield", v):
                s2 = s.copy()
                out.append((s2, ("raise", Exc("GeneratorExit", None, self.loc(s, n)))))
        return out

    def run_ctx(self, st, ctx, value):
        """Run the body of a with-statement at the yield of its generator."""
        callback = ctx
        gen_env, gen_frame = st.env, (st.module, st.func, st.calls, st.loops)
        st.env = dict(st.stack[-1])
        st.stack = st.stack[:-1]
        caller_frame = gen_env["%caller"]
        st.module, st.func, st.calls, st.loops = caller_frame
        out = []
        for s, ctl in callback(st, value):
            s.stack = s.stack + (s.env,)
            s.env = dict(gen_env)
            s.module, s.func, s.calls, s.loops = gen_frame
            if ctl is None:
                out.append((s, None))
            elif ctl[0] == "raise":
                out.append((s, ctl))
            else:
                s.env["%pending"] = ctl
                out.append((s, None))
        return out

    def s_Assign(self, n, st):
        out = []
        for s, v in self.eval(n.value, st):
            if isinstance(v, Exc):
                out.append((s, ("raise", v)))
                continue
            cur = [(s, NONE)]
            for t in n.targets:
                nxt = []
                for s2, r in cur:
                    nxt.extend([(s2, r)] if isinstance(r, Exc) else self.assign(s2, t, v, n))
                cur = nxt
            out.extend((s2, ("raise", r) if isinstance(r, Exc) else None) for s2, r in cur)
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.eval(n.value, st):
            if isinstance(v, Exc):
                out.append((s, ("raise", v)))
            else:
                out.extend((s2, ("raise", r) if isinstance(r, Exc) else None)
                           for s2, r in self.assign(s, n.target, v, n))
        return out

    def s_AugAssign(self, n, st):
        load = ast.copy_location(_as_load(n.target), n)
        out = []
        for s, vals in self.evals([load, n.value], st):
            if isinstance(vals, Exc):
                out.append((s, ("raise", vals)))
                continue
            a, b = vals
            if isinstance(a, O) and s.heap[a].kind == "list" and isinstance(n.op, ast.Add):
                for s2, r in self.call_bm(s, a, "extend", [b], {}, n):
                    out.append((s2, ("raise", r) if isinstance(r, Exc) else None))
                continue
            if isinstance(a, O) and s.heap[a].kind in ("set", "dict") and isinstance(n.op, ast.BitOr):
                for s2, r in self.call_bm(s, a, "update", [b], {}, n):
                    out.append((s2, ("raise", r) if isinstance(r, Exc) else None))
                continue
            for s2, v in self.binop(s, n.op, a, b, n):
                if isinstance(v, Exc):
                    out.append((s2, ("raise", v)))
                else:
                    out.extend((s3, ("raise", r) if isinstance(r, Exc) else None)
                               for s3, r in self.assign(s2, n.target, v, n))
        return out

    def s_Return(self, n, st):
        if n.value is None:
            return [(st, ("return", NONE))]
        return [(s, ("raise", v) if isinstance(v, Exc) else ("return", v))
                for s, v in self.eval(n.value, st)]

    def s_Pass(self, n, st):
        return [(st, None)]

    def s_Break(self, n, st):
        return [(st, ("break",))]

    def s_Continue(self, n, st):
        return [(st, ("continue",))]

    def s_Global(self, n, st):
        st.env["%global"] = tuple(st.env.get("%global", ())) + tuple(n.names)
        return [(st, None)]

    def s_Nonlocal(self, n, st):
        return [(st, None)]

    def s_Import(self, n, st):
        for name, b in import_bindings(st.module, n):
            r = self.p.resolve_binding(b)
            st.env[name] = self.resolved(st, r)[0][1]
        return [(st, None)]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, n, st):
        f = FnV(n, st.module, None, None, st.func, n.name)
        env = st.env
        st.env[n.name] = f
        f.env = dict(env)
        f.env[n.name] = f
        return [(st, None)]

    def s_ClassDef(self, n, st):
        raise Unsupported("nested class")

    def s_Delete(self, n, st):
        cur = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, ctl in cur:
                if ctl is not None:
                    nxt.append((s, ctl))
                    continue
                if isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
                    nxt.append((s, None))
                elif isinstance(t, ast.Subscript):
                    for s2, vals in self.evals([t.value, t.slice] if not isinstance(t.slice, ast.Slice) else [t.value], s):
                        if isinstance(vals, Exc):
                            nxt.append((s2, ("raise", vals)))
                            continue
                        if len(vals) == 1:
                            for s3, r in self.call_bm(s2, vals[0], "clear", [], {}, n):
                                nxt.append((s3, None))
                            continue
                        for s3, r in self.del_item(s2, vals[0], vals[1], n):
                            nxt.append((s3, ("raise", r) if isinstance(r, Exc) else None))
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.eval(t.value, s):
                        if isinstance(b, Exc):
                            nxt.append((s2, ("raise", b)))
                            continue
                        s2.emit(Ev("delattr", t.attr, b, (), self.loc(s2, n)))
                        if isinstance(b, O):
                            s2.update(b).attrs.pop(t.attr, None)
                        nxt.append((s2, None))
                else:
                    nxt.append((s, None))
            cur = nxt
        return cur

    def s_Assert(self, n, st):
        out = []
        before = len(st.facts)
        for s, v in self.eval(n.test, st):
            if isinstance(v, Exc):
                out.append((s, ("raise", v)))
                continue
            for s2, b in self.truth(s, v):
                if isinstance(b, Exc):
                    out.append((s2, ("raise", b)))
                elif b:
                    out.append((s2, None))
                elif self.assert_raises or len(s2.facts) == before:
                    # otherwise, only what is certain to fail raises
                    out.append((s2, ("raise", Exc("AssertionError", None, self.loc(s2, n)))))
        return out

    def s_If(self, n, st):
        out = []
        for s, v in self.eval(n.test, st):
            if isinstance(v, Exc):
                out.append((s, ("raise", v)))
                continue
            for s2, b in self.truth(s, v):
                if isinstance(b, Exc):
                    out.append((s2, ("raise", b)))
                else:
                    out.extend(self.exec_block(s2, n.body if b else n.orelse))
        return out

    def assigned_names(self, stmts):
        names = set()

        def walk(x):
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp,
                              ast.DictComp, ast.GeneratorExp)):
                return
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
            for c in ast.iter_child_nodes(x):
                walk(c)
        for s in stmts:
            walk(s)
        return names

    def havoc(self, st, names, tag):
        for nm in names:
            if nm in st.env:
                v = st.env[nm]
                if isinstance(v, O) and st.heap[v].kind in ("list", "set"):
                    continue
                phi = T("phi", nm, tag)
                t = self.typeof(st, v)
                if t in ("int", "bool", "str"):
                    st.types[phi] = t
                st.env[nm] = phi

    def s_For(self, n, st):
        names = self.assigned_names(n.body)
        aug = {x.target.id for b in n.body for x in ast.walk(b)
               if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        tag = Const(f"{st.module.name}:{n.lineno}:{n.col_offset}")
        targets = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}

        def body(s, elem):
            if s.loops and len(s.loops) > depth0:
                self.havoc(s, names - targets, tag)
            out = []
            for s2, r in self.assign(s, n.target, elem, n.target):
                if isinstance(r, Exc):
                    out.append((s2, ("raise", r)))
                else:
                    out.extend(self.exec_block(s2, n.body))
            return out

        res = []
        for s, itv in self.eval(n.iter, st):
            if isinstance(itv, Exc):
                res.append((s, ("raise", itv)))
                continue
            depth0 = len(s.loops)
            s.env.pop("%broke", None)
            for s2, ctl in self.iterate(s, itv, body, n):
                broke = s2.env.pop("%broke", None)
                if ctl is None and n.orelse and not broke:
                    res.extend(self.exec_block(s2, n.orelse))
                else:
                    res.append((s2, ctl))
        return res

    def s_While(self, n, st):
        names = self.assigned_names(n.body) | self.assigned_names([ast.Expr(n.test)])
        tag = Const(f"{st.module.name}:{n.lineno}:{n.col_offset}")
        out = []
        cur = [st]
        for i in range(3):
            nxt = []
            for s in cur:
                for s2, v in self.eval(n.test, s):
                    if isinstance(v, Exc):
                        out.append((s2, ("raise", v)))
                        continue
                    for s3, b in self.truth(s2, v):
                        if isinstance(b, Exc):
                            out.append((s3, ("raise", b)))
                        elif not b:
                            if n.orelse:
                                out.extend(self.exec_block(s3, n.orelse))
                            else:
                                out.append((s3, None))
                        elif i < 2:
                            for s4, ctl in self.exec_block(s3, n.body):
                                if ctl is None or ctl[0] == "continue":
                                    self.havoc(s4, names, Const(f"{tag.v}:{i}"))
                                    nxt.append(s4)
                                elif ctl[0] == "break":
                                    out.append((s4, None))
                                else:
                                    out.append((s4, ctl))
            cur = nxt
        return out

    def s_Try(self, n, st):
        body_outs = self.exec_block(st, n.body)
        outs = []
        for s, ctl in body_outs:
            if ctl is None and n.orelse:
                outs.extend(self.exec_block(s, n.orelse))
            elif ctl is not None and ctl[0] == "raise":
                outs.extend(self.handle(s, ctl[1], n.handlers, n))
            else:
                outs.append((s, ctl))
        if not n.finalbody:
            return outs
        res = []
        for s, ctl in outs:
            for s2, ctl2 in self.exec_block(s, n.finalbody):
                res.append((s2, ctl2 if ctl2 is not None else ctl))
        return res

    def exc_matches(self, st, kind, names):
        """True / False / None (may match)."""
        if names is None:
            return True
        res = False
        for nm in names:
            short = nm.split(".")[-1]
            if short == "BaseException":
                return True
            if kind == "GeneratorExit":
                continue
            if kind == "**":
                res = None
                continue
            if short == "Exception":
                return True
            if kind == "*":
                res = None
                continue
            if kind == short:
                return True
            kc = self.p.classes.get(kind)
            if kc is not None:
                if self.p.is_subclass(kc, short):
                    return True
                kinds = [b.split(".")[-1] for b in self.p.external_bases(kc)]
            else:
                kinds = [kind]
            tb = getattr(builtins, short, None)
            for k in kinds:
                kb = getattr(builtins, k, None)
                if isinstance(kb, type) and isinstance(tb, type) and issubclass(kb, tb):
                    return True
                if k == "CalledProcessError" and short == "SubprocessError":
                    return True
                if k == "JSONDecodeError" and short == "ValueError":
                    return True
        return res

    def handle(self, st, exc, handlers, node):
        outs = []
        cur = [st]
        for h in handlers:
            nxt = []
            for s in cur:
                if h.type is None:
                    names = None
                else:
                    types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names = [ast.unparse(t) for t in types]
                    # alias resolution
                    resolved = []
                    for nm in names:
                        r = self.p.resolve(s.module, nm.split(".")[0]) if s.module else None
                        if r and r[0] == "global":
                            g = self.module_global(s, r[1], r[2])[0][1]
                            if isinstance(g, Tup):
                                resolved.extend(repr(x).split(".")[-1].split(":")[-1] for x in g.items)
                                continue
                            resolved.append(repr(g).split(".")[-1].split(":")[-1])
                        else:
                            resolved.append(nm)
                    names = resolved
                m = self.exc_matches(s, exc.kind, names)
                if m is False:
                    nxt.append(s)
                    continue
                if m is None:
                    nxt.append(s.copy())
                s.emit(Ev("caught", exc.kind, None, (), self.loc(s, h), extra=exc.loc))
                saved = s.env.get("%exc")
                s.env["%exc"] = exc
                if h.name:
                    s.env[h.name] = exc.value if exc.value is not None else T("exc", exc.kind)
                for s2, ctl in self.exec_block(s, h.body):
                    if saved is None:
                        s2.env.pop("%exc", None)
                    else:
                        s2.env["%exc"] = saved
                    outs.append((s2, ctl))
            cur = nxt
        for s in cur:
            outs.append((s, ("raise", exc)))
        return outs

    def s_Raise(self, n, st):
        if n.exc is None:
            exc = st.env.get("%exc") or Exc("RuntimeError", None, self.loc(st, n))
            return [(st, ("raise", exc))]
        out = []
        for s, v in self.eval(n.exc, st):
            if isinstance(v, Exc):
                out.append((s, ("raise", v)))
                continue
            kind = "*"
            cur = s.env.get("%exc")
            if isinstance(v, T) and v.op == "exc":
                kind = v.args[0]
                if cur is not None and (cur.value == v or v == T("exc", cur.kind)):
                    out.append((s, ("raise", cur)))
                    continue
            elif isinstance(v, ExtV):
                kind = v.name.split(".")[-1]
                v = T("exc", kind)
            elif isinstance(v, ClsV):
                kind = v.cls.name
                v = T("exc", kind)
            elif isinstance(v, T) and v.op == "call":
                kind = str(v.args[0]).split(".")[-1]
            out.append((s, ("raise", Exc(kind, v, self.loc(s, n)))))
        return out

    def s_With(self, n, st):
        return self.with_items(st, n.items, n.body, n)

    def with_items(self, st, items, body, node):
        if not items:
            return self.exec_block(st, body)
        item = items[0]

        def inner(s, value):
            if item.optional_vars is not None:
                out = []
                for s2, r in self.assign(s, item.optional_vars, value, node):
                    if isinstance(r, Exc):
                        out.append((s2, ("raise", r)))
                    else:
                        out.extend(self.with_items(s2, items[1:], body, node))
                return out
            return self.with_items(s, items[1:], body, node)

        e = item.context_expr
        out = []
        if isinstance(e, ast.Call):
            handled = False
            fouts = self.eval(e.func, st) if not (
                isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call)
                and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super") \
                else self.super_method(st, e.func.attr, e)
            for s, f in fouts:
                if isinstance(f, Exc):
                    out.append((s, ("raise", f)))
                    continue
                for s2, pack in self.eval_args(e, s):
                    if isinstance(pack, Exc):
                        out.append((s2, ("raise", pack)))
                        continue
                    args, kwargs = pack
                    if isinstance(f, FnV) and isinstance(f.func, Function) \
                            and f.func.has_decorator("contextmanager"):
                        hk = self.hooks.get("with " + f.name)
                        if hk is not None:
                            out.extend(hk(self, s2, f, args, kwargs, inner, node))
                        else:
                            out.extend(self.with_generator(s2, f, args, kwargs, inner, node))
                        continue
                    if isinstance(f, ExtV) and f.name.endswith("contextlib.suppress"):
                        names = [a.name.split(".")[-1] for a in args if isinstance(a, ExtV)]
                        for s3, ctl in inner(s2, NONE):
                            if ctl is not None and ctl[0] == "raise":
                                m = self.exc_matches(s3, ctl[1].kind, names)
                                if m is not True:
                                    out.append((s3.copy(), ctl))
                                if m is not False:
                                    s3.emit(Ev("caught", ctl[1].kind, None, (), self.loc(s3, node), extra=ctl[1].loc))
                                    out.append((s3, None))
                            else:
                                out.append((s3, ctl))
                        continue
                    for s3, v in self.call(s2, f, args, kwargs, e):
                        out.extend([(s3, ("raise", v))] if isinstance(v, Exc) else self.with_value(s3, v, inner, node))
            return out
        for s, v in self.eval(e, st):
            out.extend([(s, ("raise", v))] if isinstance(v, Exc) else self.with_value(s, v, inner, node))
        return out

    def with_value(self, st, v, inner, node):
        cls = None
        if isinstance(v, O) and st.heap[v].kind == "inst":
            cls = st.heap[v].cls
        if cls is not None and self.p.find_method(cls, "__enter__"):
            out = []
            m = self.p.find_method(cls, "__enter__")
            for s, ev in self.call(st, FnV(m, m.module, v, None, m.cls, m.name), [], {}, node):
                if isinstance(ev, Exc):
                    out.append((s, ("raise", ev)))
                    continue
                for s2, ctl in inner(s, ev):
                    x = self.p.find_method(cls, "__exit__")
                    raising = ctl is not None and ctl[0] == "raise"
                    args = [T("exc", ctl[1].kind)] * 3 if raising else [NONE] * 3
                    for s3, r in self.call(s2, FnV(x, x.module, v, None, x.cls, x.name), args, {}, node):
                        if isinstance(r, Exc):
                            out.append((s3, ("raise", r)))
                        elif raising:
                            for s4, b in self.truth(s3, r):
                                out.append((s4, None if b is True else ctl))
                        else:
                            out.append((s3, ctl))
            return out
        st.emit(Ev("call", "__enter__", v, (), self.loc(st, node)))
        out = []
        for s, ctl in inner(st, v):
            s.emit(Ev("call", "__exit__", v, (), self.loc(s, node)))
            out.append((s, ctl))
        return out

    def with_generator(self, st, f, args, kwargs, inner, node):
        st_frame = (st.module, st.func, st.calls, st.loops)
        out = []

        def ctx(s, value):
            return inner(s, value)
        # call the generator, its yield runs the body
        res = []
        fn = f.func
        saved_hook = None
        for s, v in self.call_function_ctx(st, f, args, kwargs, node, ctx, st_frame):
            res.append((s, v))
        return res

    def call_function_ctx(self, st, f, args, kwargs, node, ctx, frame):
        engine = self

        class _Env(dict):
            pass
        # reuse the parameter binding of call_function by marking the context
        results = []
        marker = {"ctx": ctx, "frame": frame}
        outs = self._call_ctx(st, f, args, kwargs, node, marker)
        for s, v, pending in outs:
            if isinstance(v, Exc):
                results.append((s, ("raise", v)))
            else:
                results.append((s, pending))
        return results

    def _call_ctx(self, st, f, args, kwargs, node, marker):
        fn = f.func
        a = fn.node.args
        self.functions_seen.add((fn.module.name, fn.qualname))
        params = [p.arg for p in a.posonlyargs + a.args]
        pos = ([f.self] if f.self is not None and not fn.has_decorator("staticmethod") else []) + list(args)
        env = dict(zip(params, pos))
        for k, v in kwargs.items():
            env[k] = v
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for pn in params + [p.arg for p in a.kwonlyargs]:
            if pn not in env:
                if pn in defaults:
                    env[pn] = self.eval_in_module(st, defaults[pn], fn.module)[0][1]
                else:
                    env[pn] = T("sym", pn)
        env["%ctx"] = marker["ctx"]
        env["%caller"] = marker["frame"]
        saved = (st.module, st.func, st.calls, st.loops)
        st.stack = st.stack + (st.env,)
        st.env = env
        st.module = fn.module
        st.func = fn
        st.emit(Ev("enter", fn.qualname, f.self, tuple(pos), self.loc(st, fn.node)))
        st.calls = st.calls + (id(fn),)
        res = []
        for s, ctl in self.exec_block(st, fn.node.body):
            pending = s.env.get("%pending")
            s.env = dict(s.stack[-1])
            s.stack = s.stack[:-1]
            s.module, s.func, s.calls, s.loops = saved
            raised = ctl is not None and ctl[0] == "raise"
            s.emit(Ev("leave", fn.qualname, f.self, (), self.loc(s, node), extra="raise" if raised else None))
            res.append((s, ctl[1] if raised else NONE, pending))
        return res


def pure_texts(args):
    """Texts of constants and constant paths; None if there are others."""
    res = []
    for x in args:
        if isinstance(x, T) and x.op == "purepath":
            x = x.args[0]
        if not isinstance(x, Const) or not isinstance(x.v, str):
            return None
        res.append(x.v)
    return res


def _as_load(node):
    import copy
    n = copy.deepcopy(node)
    for x in ast.walk(n):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return n


def _gen(fn):
    from .loader import _is_generator
    return _is_generator(fn)
