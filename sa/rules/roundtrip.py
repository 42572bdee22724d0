"""C01: what is read from a backend equals what was written to it."""
from ..compare import Comparison, DIFF, SAME, UNKNOWN
from ..model import *
from ..shapes import shapes
from ..engine import Limit, Unsupported

PROTOCOL = {"saved_on", "realm", "reference", "mapped", "stored_sub_locations",
            "leaf_class", "leaf_class_name"}

R = T("sym", "realm")


def hook_cache_blob(eng, st, recv, args, kw, node):
    blob = arg(args, kw, 1, "blob")
    st.emit(Ev("cacheblob", None, recv, (blob,), eng.loc(st, node)))
    return [(st, T("objid", "blob", blob))]


def base_state(ctx):
    st = ctx.state()
    st.facts[T("is_remote", R)] = False
    st.types[R] = "str"
    st.facts[R] = True
    return st


def child_compare(ctx, leaf):
    p = ctx.p

    def f(cmp, got, want, cls, path):
        st, eng = cmp.st, cmp.eng
        h = st.heap[got]
        if not mappable_like(p, h.cls):
            return None
        want_name = None
        if isinstance(want, T):
            ref = st.ov.get(("attr", want, "reference"))
        else:
            ref = owner(p, st, want).attrs.get("reference")
        if ref is None:
            return cmp.dunno(path, "sub-object was not written on this path")
        rc = st.heap[ref].attrs["class_name"]
        rl = st.heap[ref].attrs["location"]
        inner = got
        if p.is_subclass(h.cls, "MTreeProxy"):
            inner = h.attrs.get("mtree")
            if not isinstance(inner, O):
                return cmp.dunno(path, "unknown tree")
        ih = st.heap[inner]
        c, exact = eng.type_class(eng.typeof(st, want))
        res = SAME
        if c is not None and exact and h.cls is not c:
            res = cmp.note(path, f"a stored {c.name} is restored as {h.cls.name}")
        got_ref = ih.attrs.get("reference")
        if not isinstance(got_ref, O):
            if got_ref == NONE:
                return cmp.note(path, "the restored sub-object has no reference")
            return cmp.dunno(path, "unknown reference")
        a = st.heap[got_ref].attrs
        if a.get("location") != rl:
            res = cmp.compare(a.get("location", NONE), rl, path + ".reference.location")
        if a.get("class_name") != rc and isinstance(a.get("class_name"), Const) and isinstance(rc, Const):
            res = cmp.note(path + ".reference.class_name", f"{a['class_name']!r}, written as {rc!r}")
        if ih.attrs.get("realm") != R:
            x = ih.attrs.get("realm", NONE)
            r2 = cmp.compare(x, R, path + ".realm")
            res = r2 if res == SAME else res
        if ih.attrs.get("mapped") == TRUE:
            res = cmp.note(path, "the restored sub-object is marked as loaded, although it is not")
        return res
    return f


def owner(p, st, obj):
    """The heap object that holds realm and reference of a mappable object."""
    h = st.heap[obj]
    if p.is_subclass(h.cls, "MTreeProxy") and isinstance(h.attrs.get("mtree"), O):
        return st.heap[h.attrs["mtree"]]
    return h


def report(ctx, rule, construct, cmp, st, loc):
    for path, text in cmp.notes:
        ctx.bad(rule, f"{construct}{path}", text, loc, st)
    for path, text in cmp.undecided:
        ctx.unknown(rule, f"{construct}{path}", text)
    n = max(0, cmp.count - len(cmp.notes) - len(cmp.undecided))
    for _ in range(n):
        ctx.ok(rule, construct)


def mappable_roundtrip(ctx, cls, leaf=None, explicit=False):
    p = ctx.p
    hooks = {
        ".write_out": child_writer(ctx, leaf, not explicit or p.is_subclass(cls, "MetadataRootRecord")),
        "MappableObject.ensure_mapped": ret(FALSE),
        "MappableObject.touch": ret(NONE),
        ".cache_blob": hook_cache_blob,
    }
    eng = ctx.engine(hooks, assert_raises=False)
    st = base_state(ctx)
    if explicit:
        return sum(
            mappable_roundtrip_of(ctx, eng, s, sh.obj, cls, leaf)
            for s, sh in shapes(ctx, eng, st, cls, leaf))
    o = ctx.obj(st, cls, mapped=TRUE)
    if leaf:
        st.update(o).attrs["leaf_class"] = ClsV(p.cls(leaf))
        st.update(o).attrs["leaf_class_name"] = Const(leaf)
    return mappable_roundtrip_of(ctx, eng, st, o, cls, leaf)


def mappable_roundtrip_of(ctx, eng, st, o, cls, leaf):
    p = ctx.p
    label = cls.name + (f"({leaf})" if leaf else "")
    ms = ctx.mapper(eng, st, cls.name)
    if not ms:
        raise BrokenAnchor(f"no mapper for {cls.name}")
    seen = 0
    for s, m in ms:
        if not isinstance(m, O):
            raise BrokenAnchor(f"no mapper registered for {cls.name}: {m!r}")
        mc = s.h(m).cls
        f_out, f_in = p.find_method(mc, "map_out"), p.find_method(mc, "map_in")
        if f_out is None or f_in is None:
            raise BrokenAnchor(f"{mc.name} has no map_in or map_out")
        outs = ctx.run(eng, s, f_out, m, [o, R, FALSE])
        if outs is None:
            ctx.unknown("roundtrip", label, "path limit")
            continue
        for s2, ref in outs:
            if isinstance(ref, Exc) or not isinstance(ref, O):
                continue
            loc_v = s2.h(ref).attrs.get("location")
            if loc_v == NONE_LOCATION:
                # stored as empty object, must be empty
                if p.is_subclass(cls, "MTreeNode"):
                    src = T("attr", o, "child_nodes")
                    if s2.facts.get(src) is False or s2.facts.get(T("nonechild", T("val", src))):
                        ctx.ok("roundtrip", label, "empty tree has a none reference")
                    elif s2.facts.get(src) is True:
                        ctx.bad("roundtrip", label, "a tree with content is stored as a none reference", None, s2)
                continue
            for s3, n in construct(ctx, eng, s2, cls, R, ref, leaf):
                if isinstance(n, Exc):
                    ctx.bad("roundtrip", label, f"no instance can be created for the returned reference: {n!r}",
                            n.loc, s3)
                    continue
                for s4, r in ctx.run(eng, s3, f_in, m, [n, R, ref]) or ():
                    if isinstance(r, Exc):
                        if r.kind in ("KeyError", "AttributeError", "TypeError", "AssertionError", "NameError") \
                                or r.kind == "ValueError" and closed_failure(s4):
                            ctx.bad("roundtrip", label, f"the stored object cannot be read: {r!r}", r.loc, s4)
                        else:
                            ctx.unknown("roundtrip", label, f"reading raises {r!r}")
                        continue
                    seen += 1
                    cmp = Comparison(p, eng, s4, child_compare(ctx, leaf))
                    vs = T("attr", o, "version_set")
                    cmp.aliases[T("attr", T("val", T("val", vs)), "prefix_path")] = T("key", T("val", vs))
                    h = s4.h(n)
                    for name, value in list(h.attrs.items()):
                        if name in PROTOCOL:
                            continue
                        want = s4.h(o).attrs.get(name, T("attr", o, name))
                        cmp.compare(value, want, "." + name)
                    report(ctx, "roundtrip", label, cmp, s4, f"{f_in.module.path}:{f_in.node.lineno}")
    return seen


def closed_failure(st):
    return False


def value_roundtrip(ctx, cls, writer, reader, as_text):
    p = ctx.p
    eng = ctx.engine({}, assert_raises=False)
    st = base_state(ctx)
    o = ctx.obj(st, cls)
    seen = 0
    for s, text in ctx.run(eng, st, writer, o) or ():
        if isinstance(text, Exc):
            continue
        if not as_text:
            text = eng.thaw(s, eng.freeze(s, text), True)
        self_v = ClsV(cls) if reader.has_decorator("classmethod") else None
        for s2, n in ctx.run(eng, s, reader, self_v, [text]) or ():
            if isinstance(n, Exc):
                ctx.bad("value-roundtrip", cls.name, f"the stored value cannot be read: {n!r}", n.loc, s2) \
                    if n.kind in ("KeyError", "AttributeError", "TypeError", "AssertionError") else \
                    ctx.unknown("value-roundtrip", cls.name, f"reading raises {n!r}")
                continue
            if n == NONE:
                ctx.bad("value-roundtrip", cls.name, "the stored value is read as None",
                        f"{reader.module.path}:{reader.node.lineno}", s2)
                continue
            if not isinstance(n, O) or s2.h(n).kind != "inst":
                ctx.unknown("value-roundtrip", cls.name, f"result {n!r}")
                continue
            seen += 1
            cmp = Comparison(p, eng, s2)
            if s2.h(n).cls is not cls:
                cmp.note("", f"restored as {s2.h(n).cls.name}")
            for name, value in list(s2.h(n).attrs.items()):
                cmp.compare(value, s2.h(o).attrs.get(name, T("attr", o, name)), "." + name)
            report(ctx, "value-roundtrip", cls.name, cmp, s2, f"{reader.module.path}:{reader.node.lineno}")
    return seen


def check_c01(ctx):
    ctx.rule("for every class with a registered mapper: the attribute values after map_in(map_out(x)) are the value "
             "numbers of the attributes of x, sub-objects carry the references that their write_out returned")
    ctx.rule("for every class with to_json_*/from_json_*: from_json(to_json(x)) has the attribute values of x")
    p = ctx.p
    seen = 0
    classes = concrete_mappable(p)
    for cls in classes:
        if p.is_subclass(cls, "MTreeNode"):
            for leaf in ("Metadata", "MetadataRootRecord", "Text"):
                if leaf in p.classes:
                    seen += mappable_roundtrip(ctx, cls, leaf)
                    mappable_roundtrip(ctx, cls, leaf, True)
        else:
            seen += mappable_roundtrip(ctx, cls)
            mappable_roundtrip(ctx, cls, None, True)
    if seen < len(classes):
        raise BrokenAnchor(f"only {seen} complete round trips analysed")
    for cls in p.classes.values():
        if p.is_abstract(cls):
            continue
        w, r = p.find_method(cls, "to_json_str"), p.find_method(cls, "from_json_str")
        if w is not None and r is not None:
            value_roundtrip(ctx, cls, w, r, True)
        w, r = p.find_method(cls, "to_json_obj"), p.find_method(cls, "from_json_obj")
        if w is not None and r is not None:
            value_roundtrip(ctx, cls, w, r, False)
