"""Abstract values of the analysis: value numbers, not run-time values."""


class Const:
    __slots__ = ("v", "h")

    def __init__(self, v):
        self.v = v
        self.h = hash((type(v).__name__, v))

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return isinstance(other, Const) and type(self.v) is type(other.v) \
            and self.v == other.v

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class T:
    """A value number: an operator applied to values."""
    __slots__ = ("op", "args", "h")

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self.h = hash((op, args))

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return self is other or (
            isinstance(other, T) and self.h == other.h
            and self.op == other.op and self.args == other.args)

    def __repr__(self):
        if self.op == "sym":
            return str(self.args[0])
        if self.op == "attr":
            return f"{self.args[0]!r}.{self.args[1]}"
        if self.op == "item":
            return f"{self.args[0]!r}[{self.args[1]!r}]"
        if self.op == "mcall":
            return f"{self.args[0]!r}.{self.args[1]}({', '.join(map(repr, self.args[2:]))})"
        return f"{self.op}({', '.join(map(repr, self.args))})"


class Tup:
    __slots__ = ("items", "h")

    def __init__(self, items):
        self.items = tuple(items)
        self.h = hash(("tup", self.items))

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return isinstance(other, Tup) and self.items == other.items

    def __repr__(self):
        return f"({', '.join(map(repr, self.items))})"


class O:
    """Reference to an abstract heap object."""
    __slots__ = ("id",)

    def __init__(self, id_):
        self.id = id_

    def __hash__(self):
        return hash(("O", self.id))

    def __eq__(self, other):
        return isinstance(other, O) and self.id == other.id

    def __repr__(self):
        return f"<{self.id}>"


class FnV:
    """A function value, possibly bound to a receiver."""
    __slots__ = ("func", "self", "env", "module", "defcls", "name", "partial")

    def __init__(self, func, module, self_=None, env=None, defcls=None, name="", partial=None):
        self.func = func
        self.module = module
        self.self = self_
        self.env = env
        self.defcls = defcls
        self.name = name
        self.partial = partial or ((), ())

    def __hash__(self):
        return hash(("fn", id(self.func), self.self))

    def __eq__(self, other):
        return isinstance(other, FnV) and self.func is other.func \
            and self.self == other.self and self.partial == other.partial

    def __repr__(self):
        return f"fn:{self.name}"


class ClsV:
    __slots__ = ("cls",)

    def __init__(self, cls):
        self.cls = cls

    def __hash__(self):
        return hash(("cls", self.cls.name))

    def __eq__(self, other):
        return isinstance(other, ClsV) and self.cls is other.cls

    def __repr__(self):
        return f"class:{self.cls.name}"


class ExtV:
    """Something defined outside of the package, by dotted name."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(("ext", self.name))

    def __eq__(self, other):
        return isinstance(other, ExtV) and self.name == other.name

    def __repr__(self):
        return f"ext:{self.name}"


class ModV:
    __slots__ = ("module",)

    def __init__(self, module):
        self.module = module

    def __hash__(self):
        return hash(("mod", self.module.name))

    def __eq__(self, other):
        return isinstance(other, ModV) and self.module is other.module

    def __repr__(self):
        return f"module:{self.module.name}"


class BM:
    """Bound method of a non-package value (builtin container, term, string)."""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __hash__(self):
        return hash(("bm", self.recv, self.name))

    def __eq__(self, other):
        return isinstance(other, BM) and self.recv == other.recv and self.name == other.name

    def __repr__(self):
        return f"{self.recv!r}.{self.name}"


class Exc:
    """A raised exception (outcome of an evaluation, not a value)."""
    __slots__ = ("kind", "value", "loc")

    def __init__(self, kind, value=None, loc=None):
        self.kind = kind        # exception class name, "*" if unknown
        self.value = value
        self.loc = loc

    def __repr__(self):
        return f"raise {self.kind}@{self.loc}"


class HObj:
    """Abstract heap object, immutable: replaced on modification.

    kind "inst": cls, attrs; opaque instances have unknown initial attributes
    kind "list" / "set": segs: tuple of (value, loop tag, is_splat)
    kind "dict": segs: tuple of (key, value, loop tag, is_splat)
    """
    __slots__ = ("kind", "cls", "attrs", "opaque", "segs", "depth", "label", "default", "iterpos")

    def __init__(self, kind, cls=None, attrs=None, opaque=False, segs=(), depth=0,
                 label="", default=None):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.opaque = opaque
        self.segs = segs
        self.depth = depth
        self.label = label
        self.default = default

    def copy(self):
        return HObj(self.kind, self.cls, dict(self.attrs), self.opaque,
                    self.segs, self.depth, self.label, self.default)


def subterms(v):
    """All values contained in a value."""
    todo = [v]
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, T):
            todo.extend(a for a in x.args if not isinstance(a, (str, int)))
        elif isinstance(x, Tup):
            todo.extend(x.items)
        elif isinstance(x, BM):
            todo.append(x.recv)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)


def contains(v, sub):
    return any(x == sub for x in subterms(v))


class Ev:
    __slots__ = ("kind", "name", "recv", "args", "loc", "loops", "extra")

    def __init__(self, kind, name=None, recv=None, args=(), loc=None, loops=(), extra=None):
        self.kind = kind
        self.name = name
        self.recv = recv
        self.args = tuple(args)
        self.loc = loc
        self.loops = loops
        self.extra = extra

    def __repr__(self):
        return f"{self.kind}:{self.name}({self.recv!r}; {', '.join(map(repr, self.args))})@{self.loc}" \
            + (f" {self.extra}" if self.extra is not None else "")


class State:
    __slots__ = ("env", "stack", "heap", "ov", "facts", "types", "ev",
                 "loops", "glob", "n", "nev", "calls", "ctl", "module", "func")

    def __init__(self):
        self.env = {}
        self.stack = ()
        self.heap = {}
        self.ov = {}
        self.facts = {}
        self.types = {}
        self.ev = None
        self.loops = ()
        self.glob = {}
        self.n = 0
        self.nev = 0
        self.calls = ()
        self.ctl = None
        self.module = None
        self.func = None

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.stack = self.stack
        s.heap = dict(self.heap)
        s.ov = dict(self.ov)
        s.facts = dict(self.facts)
        s.types = dict(self.types)
        s.ev = self.ev
        s.loops = self.loops
        s.glob = dict(self.glob)
        s.n = self.n
        s.nev = self.nev
        s.calls = self.calls
        s.ctl = self.ctl
        s.module = self.module
        s.func = self.func
        return s

    # events
    def emit(self, e):
        e.loops = self.loops
        self.ev = (self.ev, e)
        self.nev += 1

    def events(self):
        result = []
        x = self.ev
        while x is not None:
            x, e = x
            result.append(e)
        result.reverse()
        return result

    # heap
    def alloc(self, hobj, label="o"):
        self.n += 1
        ref = O(f"{label}#{self.n}")
        hobj.depth = len(self.loops)
        self.heap[ref] = hobj
        return ref

    def h(self, ref):
        return self.heap[ref]

    def update(self, ref):
        new = self.heap[ref].copy()
        self.heap[ref] = new
        return new
