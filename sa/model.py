"""Common parts of the rules: analysis context, standard abstractions, reports."""
import time

from .engine import Engine, Limit, Unsupported, unwrap
from .loader import BrokenAnchor, Program
from .values import (
    BM, ClsV, Const, Ev, Exc, ExtV, FALSE, FnV, HObj, NONE, O, State, T, TRUE,
    Tup, contains, subterms,
)

PKG = "dataladmetadatamodel"
BUDGET = 600        # seconds of one check, everything later is undecided


class Finding:
    def __init__(self, prop, rule, construct, message, loc=None, path=None):
        self.prop = prop
        self.rule = rule
        self.construct = construct
        self.message = message
        self.loc = loc
        self.path = path or []

    @property
    def key(self):
        return f"{self.rule}:{self.construct}"

    def text(self):
        lines = [f"{self.loc or '?'}: [{self.prop}/{self.rule}] {self.construct}: {self.message}"]
        lines += ["    " + p for p in self.path]
        return "\n".join(lines)


class Ctx:
    """One run of one rule set."""

    def __init__(self, prop, program=None, tier="quick"):
        self.prop = prop
        self.p = program or Program()
        self.tier = tier
        self.findings = {}
        self.functions = set()
        self.call_sites = set()
        self.paths = 0
        self.events = 0
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.samples = []
        self.rules = []
        self.instances = {}
        self.started = time.time()

    # -- obligations -------------------------------------------------------
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ok(self, rule, construct, what=""):
        self.obligations += 1
        self.discharged += 1
        self.instances[rule] = self.instances.get(rule, 0) + 1
        if len(self.samples) < 12 and what:
            s = f"{rule}: {construct}: {what}"
            if s not in self.samples:
                self.samples.append(s)

    def unknown(self, rule, construct, why):
        self.obligations += 1
        self.instances[rule] = self.instances.get(rule, 0) + 1
        entry = f"{rule}:{construct}: {why}"
        if entry not in self.undecided and len(self.undecided) < 200:
            self.undecided.append(entry)

    def bad(self, rule, construct, message, loc=None, st=None, path=None):
        if st is not None and imprecise(st):
            self.unknown(rule, construct, "depends on " + repr(imprecise(st)))
            return
        self.obligations += 1
        self.instances[rule] = self.instances.get(rule, 0) + 1
        f = Finding(self.prop, rule, construct, message, loc,
                    path if path is not None else (trace(st) if st is not None else []))
        old = self.findings.get(f.key)
        if old is None or len(f.path) < len(old.path):
            self.findings[f.key] = f

    def check(self, cond, rule, construct, message, loc=None, st=None, what=""):
        if cond is None:
            self.unknown(rule, construct, message)
        elif cond:
            self.ok(rule, construct, what)
        else:
            self.bad(rule, construct, message, loc, st)

    # -- running -----------------------------------------------------------
    def engine(self, hooks=None, max_paths=20000, **options):
        h = {"Reference.is_remote": hook_remote}
        h.update(hooks or {})
        e = Engine(self.p, hooks={k: v for k, v in h.items() if v is not None}, max_paths=max_paths)
        for k, v in options.items():
            if not hasattr(e, k):
                raise TypeError(k)
            setattr(e, k, v)
        e.deadline = self.started + BUDGET
        return e

    def account(self, eng, outs):
        self.functions |= eng.functions_seen
        self.call_sites |= eng.call_sites
        self.paths += len(outs)
        self.events += sum(s.nev for s, _ in outs)

    def run(self, eng, st, f, self_=None, args=(), kwargs=None):
        """Run a function from a state; None when the limits are exceeded."""
        if time.time() > self.started + BUDGET:
            return None
        cls = f.cls
        fn = FnV(f, f.module, self_, None, cls, f.name)
        st.module = f.module
        if f.has_decorator("staticmethod"):
            fn = FnV(f, f.module, None, None, cls, f.name, (("static",), ()))
        try:
            outs = eng.call_function(st, fn, list(args), dict(kwargs or {}), None)
        except Limit:
            self.account(eng, [])
            return None
        except Unsupported as e:
            self.account(eng, [])
            self.unknown("unsupported", f.qualname, str(e))
            return None
        self.account(eng, outs)
        return outs

    def sequence(self, eng, st, steps):
        """Run several calls one after the other.

        steps: functions (state, values so far) -> list of (state, value).
        Raising paths end.  Yields (state, values) for complete paths and
        (state, [.., Exc]) for the ones that end early.
        """
        cur = [(st, [])]
        for step in steps:
            nxt = []
            for s, vals in cur:
                if vals and isinstance(vals[-1], Exc):
                    nxt.append((s, vals))
                    continue
                for s2, v in step(s, vals):
                    nxt.append((s2, vals + [v]))
            cur = nxt
        return cur

    # -- helpers -----------------------------------------------------------
    def state(self, module=None):
        st = State()
        st.module = module or self.p.module("")
        return st

    def obj(self, st, cls, label=None, opaque=True, **attrs):
        if isinstance(cls, str):
            cls = self.p.cls(cls)
        return st.alloc(HObj("inst", cls=cls, attrs=dict(attrs), opaque=opaque), label or cls.name)

    def mapper(self, eng, st, class_name):
        """The mapper objects that are registered for a class."""
        get_mapper = self.p.function("mapper", "get_mapper")
        return self.run(eng, st, get_mapper, None, [Const(class_name), Const("git")])


def imprecise(st):
    """A condition of the path that is a function of constants which the analysis cannot evaluate."""
    for key in st.facts:
        for t in subterms(key):
            if isinstance(t, T) and (
                    t.op == "mcall" and isinstance(t.args[0], Const) and isinstance(t.args[0].v, (str, bytes))
                    or t.op == "call" and isinstance(t.args[0], str)
                    and t.args[0].split(".")[0] in ("re", "fnmatch", "string", "operator")) \
                    and not any(isinstance(x, O) or isinstance(x, T) and x.op in ("sym", "attr", "run", "glob", "key",
                                                                                 "val", "elem", "item")
                                for x in subterms(t)):
                return t
    return None


def trace(st, limit=14):
    """Readable description of a path."""
    lines = []
    depth = 0
    for e in st.events():
        if e.kind == "enter":
            lines.append("  " * min(depth, 6) + f"-> {e.name} ({e.loc})")
            depth += 1
        elif e.kind == "leave":
            depth = max(0, depth - 1)
            if e.extra == "raise":
                lines.append("  " * min(depth, 6) + f"<- {e.name} raises")
        elif e.kind in ("git", "gitfail", "proc", "raised", "nonederef", "noattr", "call"):
            lines.append("  " * min(depth, 6) + short(f"{e.kind} {e.name} {list(e.args)} ({e.loc})"))
    if len(lines) > limit:
        lines = lines[:limit // 2] + [f".. {len(lines) - limit} more .."] + lines[-limit // 2:]
    conds = [f"{k!r} is {v}" for k, v in st.facts.items() if isinstance(v, bool)]
    if conds:
        lines.append("with " + short("; ".join(conds[:12]), 600))
    return lines


def short(s, n=220):
    return s if len(s) <= n else s[:n] + ".."


# -- standard abstractions -------------------------------------------------
def hook_remote(eng, st, recv, args, kw, node):
    v = args[0] if args else kw.get("realm")
    while isinstance(v, T) and v.op == "str":
        v = v.args[0]
    if isinstance(v, Const):
        return None
    if isinstance(v, T) and v.op == "concat" and isinstance(v.args[0], Const):
        return None
    if isinstance(v, T) and v.op in ("div", "call", "path"):
        # a path in the local file system
        return [(st, FALSE)]
    return [(s, Const(b)) for s, b in eng.branch(st, T("is_remote", v))]


def ret(value):
    return lambda eng, st, recv, args, kw, node: [(st, value)]


def arg(args, kw, index, name, default=NONE):
    if len(args) > index:
        return args[index]
    return kw.get(name, default)


def concrete_mappable(program):
    """Concrete mappable classes and proxies of the package."""
    return program.concrete_subclasses("MappableObject")


def exc_of(v):
    return v if isinstance(v, Exc) else None


# -- mappable objects --------------------------------------------------------
NONE_LOCATION = Const("*None*")


def proxy_classes(program):
    return program.concrete_subclasses("MTreeProxy")


def mappable_like(program, cls):
    return cls is not None and (
        program.is_subclass(cls, "MappableObject") or program.is_subclass(cls, "MTreeProxy"))


def stored_name(program, cls):
    """Class that references to an instance of cls carry."""
    return "MTreeNode" if program.is_subclass(cls, "MTreeProxy") else cls.name


def candidates(program, eng, st, recv, leaf=None):
    """Concrete classes a sub-object may have on this path."""
    t = eng.typeof(st, recv)
    cls, exact = eng.type_class(t)
    if cls is not None and (exact or not [
            k for k in program.classes.values() if k is not cls and program.is_subclass(k, cls.name)]):
        return [cls]
    names = None
    if isinstance(recv, T) and recv.op == "attr" and recv.args[1] == "element":
        names = ["DatasetTree", "MetadataRootRecord"]
    elif isinstance(recv, T) and recv.op in ("val", "item", "elem"):
        src = recv.args[0]
        if isinstance(src, T) and src.op == "attr" and src.args[1] == "child_nodes":
            names = ["MTreeNode", leaf or "Metadata"]
        elif isinstance(src, T) and src.op == "attr" and src.args[1] == "uuid_set":
            names = ["VersionList"]
    if names is None:
        return None
    res = []
    for n in names:
        if st.facts.get(T("isinstance", recv, n)) is False:
            continue
        if n in program.classes:
            res.append(program.classes[n])
    return res or None


def child_location(recv):
    return T("loc", recv)


def child_writer(ctx, leaf=None, with_none=True, on_call=None):
    """Abstraction of write_out for the sub-objects of the analysed object."""
    p = ctx.p

    def hook(eng, st, recv, args, kw, node):
        cand = candidates(p, eng, st, recv, leaf)
        outs = []
        st.emit(Ev("childwrite", "write_out", recv, tuple(args) + tuple(
            T("kw", k, v) for k, v in sorted(kw.items())), eng.loc(st, node)))
        if cand is None:
            ref = st.alloc(HObj("inst", cls=p.cls("Reference"), attrs={
                "class_name": T("classname", recv), "location": child_location(recv)}), "Reference")
            st.types[child_location(recv)] = "str"
            st.facts[eng.eq_term(child_location(recv), NONE_LOCATION)] = False
            st.ov[("attr", recv, "reference")] = ref
            return [(st, ref)]
        for i, c in enumerate(cand):
            s = st.copy() if i + 1 < len(cand) else st
            if isinstance(recv, T) and eng.raw_type(s, recv) != "=" + c.name:
                s.types[recv] = "=" + c.name
            name = stored_name(p, c)
            variants = [False]
            if with_none and name == "MTreeNode":
                variants = [False, True]
            for none in variants:
                s2 = s.copy() if none is False and len(variants) > 1 else s
                loc = NONE_LOCATION if none else child_location(recv)
                if not none:
                    s2.types[loc] = "str"
                    s2.facts[eng.eq_term(loc, NONE_LOCATION)] = False
                    s2.facts[loc] = True
                else:
                    s2.facts[T("nonechild", recv)] = True
                ref = s2.alloc(HObj("inst", cls=p.cls("Reference"), attrs={
                    "class_name": Const(name), "location": loc}), "Reference")
                if isinstance(recv, O):
                    owner = recv
                    if isinstance(s2.h(recv).attrs.get("mtree"), O) and p.is_subclass(c, "MTreeProxy"):
                        owner = s2.h(recv).attrs["mtree"]
                    s2.update(owner).attrs["reference"] = ref
                else:
                    s2.ov[("attr", recv, "reference")] = ref
                outs.append((s2, ref))
        return outs
    return hook


def construct(ctx, eng, st, cls, realm, reference, leaf=None):
    """Instances of a mappable class as they are created for a reference."""
    init = ctx.p.find_method(cls, "__init__")
    kwargs = {}
    for a in init.node.args.args[1:]:
        n = a.arg
        if n == "realm":
            kwargs[n] = realm
        elif n == "reference":
            kwargs[n] = reference
        elif n == "leaf_class":
            kwargs[n] = ClsV(ctx.p.cls(leaf or "Metadata"))
        elif n == init.node.args.args[1:][len(init.node.args.args[1:]) - len(init.node.args.defaults):]:
            pass
        else:
            nd = len(init.node.args.defaults)
            names = [x.arg for x in init.node.args.args]
            if n in names[:len(names) - nd]:
                kwargs[n] = NONE
    try:
        outs = eng.instantiate(st, cls, [], kwargs, None)
    except (Limit, Unsupported):
        return []
    ctx.account(eng, outs)
    return outs
