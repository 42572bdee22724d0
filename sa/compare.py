"""Comparison of a restored abstract value with the value that was stored."""
import ast

from . import schema
from .engine import unwrap
from .values import BM, ClsV, Const, FnV, NONE, O, T, Tup, subterms

SAME, DIFF, UNKNOWN = "same", "diff", "unknown"

# operators whose result is known to be a function of the stored value alone
CLOSED = {
    "attr", "val", "key", "elem", "item", "concat", "str", "json", "new",
    "objid", "deepcopy", "copy", "loc", "sym", "jsonkey", "fz",
    "seg", "enum", "len", "join", "list", "sorted", "int", "float",
}
# methods that change some of the values they are applied to
LOSSY = {"strip", "rstrip", "lstrip", "lower", "upper", "replace", "title",
         "capitalize", "removeprefix", "removesuffix", "casefold", "expandtabs"}


def closed(v):
    for x in subterms(v):
        if isinstance(x, T):
            if x.op == "mcall" and x.args[1] in LOSSY:
                continue
            if x.op == "call" and x.args[0] == "uuid.UUID" and len(x.args) == 2 \
                    and isinstance(x.args[1], T) and x.args[1].op in ("loc", "objid"):
                continue
            if x.op not in CLOSED:
                return False
        elif isinstance(x, (FnV, BM)):
            return False
    return True


IDEMPOTENT = {"strip", "rstrip", "lstrip", "lower", "upper", "casefold"}


def normal(v, program=None):
    while isinstance(v, T):
        if v.op in ("deepcopy", "copy") and len(v.args) == 1:
            v = v.args[0]
        elif v.op == "new" and len(v.args) == 2 and program is not None and v.args[0] in program.classes \
                and any(b.split(".")[-1] == "dict" for b in program.external_bases(program.classes[v.args[0]])):
            v = v.args[1]   # a dictionary with another type
        else:
            break
    return v


def constructor_operations(program, cls):
    """Idempotent string methods that constructors apply to attributes."""
    cache = program.__dict__.setdefault("_ctor_ops", {})
    if cls.name in cache:
        return cache[cls.name]
    ops = {}
    for c in program.mro(cls):
        init = c.methods.get("__init__")
        if init is None:
            continue
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                    and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                    and n.value.func.attr in IDEMPOTENT and not n.value.args:
                ops.setdefault(n.targets[0].attr, set()).add(n.value.func.attr)
    cache[cls.name] = ops
    return ops


class Comparison:
    def __init__(self, program, eng, st, child=None):
        self.p = program
        self.eng = eng
        self.st = st
        self.child = child      # comparison of mappable sub-objects
        self.aliases = {}       # known equalities
        self.notes = []
        self.undecided = []
        self.count = 0

    def note(self, path, text):
        self.notes.append((path, text))
        return DIFF

    def dunno(self, path, text):
        self.undecided.append((path, text))
        return UNKNOWN

    def compare(self, got, want, path, depth=0):
        """got: restored value, want: term that denotes the stored value."""
        self.count += 1
        st, eng = self.st, self.eng
        got, want = normal(got, self.p), normal(want, self.p)
        if isinstance(got, T) and got.op == "mcall" and got.args[1] in IDEMPOTENT and len(got.args) == 2 \
                and isinstance(want, T) and want.op == "attr" and got.args[0] == want:
            base = want.args[0]
            cls = st.heap[base].cls if isinstance(base, O) else eng.type_class(eng.typeof(st, base))[0]
            if cls is not None and got.args[1] in constructor_operations(self.p, cls).get(want.args[1], ()):
                return SAME
        if got == want or self.aliases.get(got, got) == self.aliases.get(want, want):
            return SAME
        if depth > 10:
            return self.dunno(path, "too deep")
        if isinstance(got, O) and isinstance(want, O):
            if self.child is not None and st.heap[got].kind == "inst":
                cls, _ = eng.type_class(eng.typeof(st, want))
                r = self.child(self, got, want, cls, path)
                if r is not None:
                    return r
            return self.objects(got, want, path, depth)
        none_want = eng.decide_eq(st, want, NONE)
        if got == NONE:
            if none_want is True or st.facts.get(T("nonechild", want)) is True:
                return SAME
            if none_want is False:
                return self.note(path, "restored as None although a value was stored")
            return self.note(path, "restored as None although the stored value may differ from None")
        if none_want is True:
            if isinstance(got, (Const, O)):
                return self.note(path, f"None is restored as {got!r}")
            return self.dunno(path, f"None vs. {got!r}")
        t = eng.structure(st, want) if isinstance(want, T) else None
        if t and t[0] == "opt":
            t = t[1]
        if isinstance(got, O):
            h = st.heap[got]
            if h.kind == "inst":
                cls, exact = eng.type_class(eng.typeof(st, want))
                if cls is None and t and t[0] == "cls":
                    cls = self.p.classes[t[1]]
                if self.child is not None:
                    r = self.child(self, got, want, cls, path)
                    if r is not None:
                        return r
                if cls is None:
                    return self.dunno(path, f"instance of {h.cls.name} for untyped value")
                if exact and h.cls is not cls or not self.p.is_subclass(h.cls, cls.name):
                    return self.note(path, f"restored as {h.cls.name}, stored was {cls.name}")
                return self.instance(got, want, h.cls, path, depth)
            if h.kind == "dict":
                return self.mapping(got, want, t, path, depth)
            if h.kind in ("list", "set"):
                return self.sequence(got, want, t, path, depth)
        if isinstance(want, O) and isinstance(got, T):
            h = st.heap[want]
            if h.kind == "inst" and "%dict" in h.attrs:
                return self.compare(got, h.attrs["%dict"], path, depth + 1)
            return self.dunno(path, f"{got!r} vs. object")
        if isinstance(got, Const) and isinstance(want, T):
            d = eng.decide_eq(st, want, got)
            if d is True or st.facts.get(T("const", want)) == got:
                return SAME
            if isinstance(got.v, bool) and st.facts.get(want) is got.v and eng.typeof(st, want) == "bool":
                return SAME
            if got.v in ("", 0, False) and st.facts.get(want) is False:
                return self.dunno(path, "falsy value")
            return self.note(path, f"restored as the constant {got!r}, not as the stored value")
        if isinstance(got, Tup) and isinstance(want, Tup) and len(got.items) == len(want.items):
            rs = [self.compare(a, b, f"{path}[{i}]", depth + 1)
                  for i, (a, b) in enumerate(zip(got.items, want.items))]
            return DIFF if DIFF in rs else UNKNOWN if UNKNOWN in rs else SAME
        if isinstance(got, T) and got.op == "new" and got.args[1:] == (Const(""),) \
                and st.facts.get(want) is False and eng.typeof(st, want) == "=" + got.args[0]:
            return SAME     # the empty path
        if isinstance(got, T) and got.op == "fz":
            copy = st.copy()
            ref = eng.thaw(copy, got)
            if isinstance(ref, O):
                sub = Comparison(self.p, eng, copy, self.child)
                sub.aliases = self.aliases
                r = sub.compare(ref, want, path, depth + 1)
                self.notes += sub.notes
                self.undecided += sub.undecided
                return r
        if isinstance(got, T) and closed(got) and closed(want):
            return self.note(path, f"restored as {got!r}, stored was {want!r}")
        return self.dunno(path, f"{got!r} vs. {want!r}")

    def instance(self, got, want, cls, path, depth):
        st, eng = self.st, self.eng
        h = st.heap[got]
        results = []
        names = [n for n in h.attrs if not n.startswith("%")]
        if not names and "%dict" in h.attrs:
            return self.compare(h.attrs["%dict"], want, path, depth + 1)
        for n in names:
            outs = eng.get_attr(st, want, n) if isinstance(want, T) else [(st, T("attr", want, n))]
            if len(outs) != 1:
                results.append(self.compare(h.attrs[n], T("attr", want, n), f"{path}.{n}", depth + 1))
                continue
            w = outs[0][1]
            results.append(self.compare(h.attrs[n], w, f"{path}.{n}", depth + 1))
        return DIFF if DIFF in results else UNKNOWN if UNKNOWN in results else SAME

    def objects(self, got, want, path, depth):
        hg, hw = self.st.heap[got], self.st.heap[want]
        if hg.kind != hw.kind:
            return self.note(path, f"{hg.kind} vs. {hw.kind}")
        if hg.kind == "inst":
            if hg.cls is not hw.cls:
                return self.note(path, f"restored as {hg.cls.name}, stored was {hw.cls.name}")
            r = self.numbered(hg, hw, path, depth)
            if r is not None:
                return r
            results = []
            for n in sorted(set(hg.attrs) | set(hw.attrs)):
                a = hg.attrs.get(n, T("attr", got, n))
                b = hw.attrs.get(n, T("attr", want, n))
                results.append(self.compare(a, b, f"{path}.{n}", depth + 1))
            return DIFF if DIFF in results else UNKNOWN if UNKNOWN in results else SAME
        a, b = self.eng.freeze(self.st, got), self.eng.freeze(self.st, want)
        if a == b:
            return SAME
        if any(x[-1] or x[-2] for x in hg.segs + hw.segs):
            return self.dunno(path, "container contents")
        if not hg.segs and hw.segs and self.unread():
            return self.dunno(path, "unknown data")
        if hg.kind in ("list", "set"):
            if len(hg.segs) != len(hw.segs):
                return self.note(path, f"{len(hw.segs)} elements are stored, {len(hg.segs)} are restored")
            rs = [self.compare(x[0], y[0], f"{path}[{i}]", depth + 1)
                  for i, (x, y) in enumerate(zip(hg.segs, hw.segs))]
            return DIFF if DIFF in rs else UNKNOWN if UNKNOWN in rs else SAME
        rs = []
        used = set()
        for k, v, _, _ in hw.segs:
            hit = None
            unsure = False
            for i, (k2, v2, _, _) in enumerate(hg.segs):
                sub = Comparison(self.p, self.eng, self.st, self.child)
                sub.aliases = self.aliases
                r = sub.compare(k2, k, path, depth + 1)
                if r == SAME:
                    hit = i
                    break
                unsure = unsure or r == UNKNOWN
            if hit is None:
                rs.append(self.dunno(path, f"key {k!r}") if unsure else
                          self.note(path, f"the entry for {k!r} is not restored"))
                continue
            used.add(hit)
            rs.append(self.compare(hg.segs[hit][1], v, f"{path}[{k!r}]", depth + 1))
        if not rs.count(UNKNOWN) and len(used) < len(hg.segs):
            rs.append(self.note(path, "an entry is restored that was not stored"))
        return DIFF if DIFF in rs else UNKNOWN if UNKNOWN in rs else SAME

    def probe(self, a, b, path, depth):
        sub = Comparison(self.p, self.eng, self.st, self.child)
        sub.aliases = self.aliases
        return sub.compare(a, b, path, depth + 1)

    def numbered(self, hg, hw, path, depth):
        """Runs that refer to configurations by position: the positions themselves are not relevant."""
        if hg.cls.name != "MetadataInstanceSet":
            return None
        parts = []
        for h in (hg, hw):
            confs, insts = h.attrs.get("parameter_set"), h.attrs.get("_instances")
            if not isinstance(confs, O) or not isinstance(insts, O):
                return None
            cs, ins = self.st.heap[confs].segs, self.st.heap[insts].segs
            if any(x[-1] or x[-2] for x in cs + ins) or any(not isinstance(x[0], Const) for x in ins):
                return None
            parts.append(([x[0] for x in cs], {x[0].v: x[1] for x in ins}))
        (gc, gi), (wc, wi) = parts
        if len(gc) != len(wc) or sorted(map(repr, gi)) != sorted(map(repr, wi)):
            return None
        results, used = [], set()
        for i, c in enumerate(wc):
            hits = [j for j, x in enumerate(gc) if j not in used and self.probe(x, c, path, depth) == SAME]
            if not hits:
                return None
            used.add(hits[0])
            if i in wi and hits[0] in gi:
                results.append(self.compare(gi[hits[0]], wi[i], f"{path}.run{i}", depth + 1))
            else:
                return None
        return DIFF if DIFF in results else UNKNOWN if UNKNOWN in results else SAME

    def unread(self):
        """Content of unknown data was taken to be empty on this path."""
        for e in self.st.events():
            if e.kind == "loop" and e.name == "none" and any(
                    isinstance(x, T) and x.op in ("jsonval", "decode", "stdout", "blobtext", "lines", "call")
                    for x in subterms(e.recv)):
                return True
        return False

    def breaks(self, src):
        return any(e.kind == "loopbreak" and src in e.args for e in self.st.events())

    def mapping(self, got, want, t, path, depth):
        st, eng = self.st, self.eng
        segs = st.heap[got].segs
        empty = self.emptiness(want)
        if not segs and self.unread():
            return SAME if empty is True else self.dunno(path, "unknown data")
        if not segs:
            if empty is True:
                return SAME
            if isinstance(want, T) and closed(want) and (empty is False or not self.iterated(want)):
                if st.facts.get(T("nonechild", T("val", want))) is True:
                    return SAME     # an empty sub-tree, it has no content
                if st.facts.get(T("val", want)) is False:
                    return SAME     # an entry without content
                return self.note(path, "an entry is not restored")
            return self.dunno(path, "no entries")
        if len(segs) == 1:
            k, v, tag, sp = segs[0]
            if sp:
                return SAME if normal(unwrap(v), self.p) == want else self.dunno(path, "merged")
            if not isinstance(want, T):
                return self.dunno(path, "not a term")
            if self.breaks(want):
                return self.note(path, "not all entries are restored (iteration stops early)")
            if not tag and want.op not in ("val", "item"):
                return self.dunno(path, "single entry")
            a = self.compare(k, T("key", want), path + ".<key>", depth + 1)
            b = self.compare(v, T("val", want), path + "[..]", depth + 1)
            return DIFF if DIFF in (a, b) else UNKNOWN if UNKNOWN in (a, b) else SAME
        return self.dunno(path, "several entries")

    def iterated(self, want):
        return False

    def emptiness(self, want):
        st = self.st
        f = st.facts.get(want)
        if f is not None:
            return not f
        return None

    def sequence(self, got, want, t, path, depth):
        st, eng = self.st, self.eng
        segs = st.heap[got].segs
        if not segs:
            if self.emptiness(want) is True:
                return SAME
            if self.unread():
                return self.dunno(path, "unknown data")
            if isinstance(want, T) and closed(want):
                return self.note(path, "an element is not restored")
            return self.dunno(path, "no elements")
        if len(segs) == 1:
            v, tag, sp = segs[0]
            if sp:
                return SAME if normal(unwrap(v), self.p) == want else self.dunno(path, "merged")
            if not isinstance(want, T):
                return self.dunno(path, "not a term")
            if self.breaks(want):
                return self.note(path, "not all elements are restored (iteration stops early)")
            if not tag:
                return self.dunno(path, "single element")
            return self.compare(v, T("elem", want), path + "[..]", depth + 1)
        return self.dunno(path, "several elements")
