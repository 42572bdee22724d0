"""Rules about the modification and load state of mappable objects."""
from ..callers import (
    PROTOCOL_ATTRIBUTES, argument_variants, existing_variants, model_instances, public_methods, saved,
)
from ..engine import Limit, Unsupported
from ..model import *
from ..shapes import shapes, sym

D = T("sym", "realm")


def content_names(p, cls):
    """Attributes that hold the content of a class: set by the constructor, not part of the protocol."""
    import ast
    names = []
    for c in p.mro(cls):
        init = c.methods.get("__init__")
        if init is None:
            continue
        for n in ast.walk(init.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) \
                    and isinstance(n.value, ast.Name) and n.value.id == "self" \
                    and n.attr not in PROTOCOL_ATTRIBUTES and n.attr not in names:
                names.append(n.attr)
    return names


def snapshot(p, st, v, depth=0):
    """Structure of a value; mappable objects are represented by their identity."""
    if not isinstance(v, O) or depth > 8:
        return v
    h = st.h(v)
    if h.kind == "inst":
        if mappable_like(p, h.cls):
            return v
        return (h.cls.name, v if h.opaque else None,
                tuple(sorted((k, repr(snapshot(p, st, x, depth + 1))) for k, x in h.attrs.items())))
    if h.kind == "dict":
        return ("dict", tuple((snapshot(p, st, k, depth + 1), snapshot(p, st, x, depth + 1), t, s)
                              for k, x, t, s in h.segs))
    return (h.kind, tuple((snapshot(p, st, x, depth + 1), t, s) for x, t, s in h.segs))


def content(p, st, obj):
    h = st.h(obj)
    return {n: snapshot(p, st, h.attrs.get(n, T("attr", obj, n))) for n in content_names(p, h.cls)}


def owner_of(p, eng, st, recv):
    """Mappable object whose content contains a container term."""
    x = recv
    while isinstance(x, T) and x.args:
        if x.op == "attr":
            base = x.args[0]
            cls = None
            if isinstance(base, O):
                h = st.heap.get(base)
                cls = h.cls if h is not None and h.kind == "inst" else None
            elif isinstance(base, T):
                cls = eng.type_class(eng.typeof(st, base))[0]
            if cls is not None and p.is_subclass(cls, "MappableObject"):
                return (base, x.args[1]) if x.args[1] in content_names(p, cls) else None
        x = x.args[0]
    return None


def is_unsaved(st, obj):
    """True / False / None (unknown) for: the object is marked as unsaved."""
    if isinstance(obj, O):
        v = st.h(obj).attrs.get("saved_on")
    else:
        v = st.ov.get(("attr", obj, "saved_on"))
    if v is None:
        term = T("attr", obj, "saved_on")
        names = [e.name for e in st.events() if e.kind == "mut" and e.recv == term]
        return bool(names) and names[-1] == "clear"
    if isinstance(v, O):
        return not st.h(v).segs
    return None


def registered_objects(p, st):
    return [o for o, h in st.heap.items() if h.kind == "inst" and h.cls is not None
            and p.is_subclass(h.cls, "MappableObject")]


NO_LOAD = {
    ".read_in": None, ".ensure_mapped": None,
}


def keep_loaded(eng, st, recv, args, kw, node):
    """read_in of an object that is in memory."""
    return [(st, recv)]


def public_call(ctx, eng, st, cls, obj, name, f, kwargs):
    try:
        return ctx.run(eng, st, f, obj, [], kwargs)
    except (Limit, Unsupported):
        return None


def check_c06(ctx):
    ctx.rule("on every path through a public method of a model class that changes the content of a mappable "
             "object, the object is marked as unsaved at the end of the path, also if the path raises")
    p = ctx.p
    hooks = {
        "MappableObject.read_in": keep_loaded,
        "MTreeProxy.read_in": keep_loaded,
        "MappableObject.ensure_mapped": ret(FALSE),
        "MTreeProxy.ensure_mapped": ret(FALSE),
        ".write_out": child_writer(ctx, None, False),
        ".purge": ret(NONE),
    }
    changed = 0
    for cls_name, method in sorted({
            (c.name, n) for b in ("MappableObject", "MTreeProxy") for c in p.concrete_subclasses(b)
            for n in public_methods(p, c)}):
        f = public_methods(p, p.cls(cls_name))[method]
        eng = ctx.engine(hooks, assert_raises=False)
        st0 = ctx.state()
        st0.types[D] = "str"
        st0.facts[D] = True
        for s0, cls, obj, sh in model_instances(ctx, eng, st0):
            if cls.name != cls_name:
                continue
            for s, args, kwargs, label in argument_variants(ctx, eng, s0, f, True):
                targets = [o for o in [sh.obj] + sh.children if p.is_subclass(s.h(o).cls, "MappableObject")]
                for o in targets:
                    saved(ctx, s, o, D)
                before = {o: content(p, s, o) for o in targets}
                calls = [(kwargs, label)]
                if "[" not in label:
                    calls += [(k, label + " [existing]") for k in existing_variants(ctx, eng, s, f, sh, kwargs)]
                for kw, label in calls:
                    outs = public_call(ctx, eng, s.copy(), cls, obj, method, f, kw)
                    if outs is None:
                        ctx.unknown("marks-unsaved", f"{cls_name}.{method}", "not analysed")
                        continue
                    for s2, v in outs:
                        mutated = [o for o in before if content(p, s2, o) != before[o]]
                        for e in s2.events():
                            if e.kind == "mut":
                                own = owner_of(p, eng, s2, e.recv)
                                if own is not None and own[0] not in mutated:
                                    mutated.append(own[0])
                        for o in mutated:
                            changed += 1
                            u = is_unsaved(s2, o)
                            where = f"{cls_name}.{method}"
                            ctx.check(u, "marks-unsaved", where,
                                      f"{o!r} is changed, but still regarded as saved"
                                      + (f" when {v!r} is raised" if isinstance(v, Exc) else "") + f" [{label}]",
                                      f"{f.module.path}:{f.node.lineno}", s2)
                        if not mutated:
                            ctx.ok("no-change", f"{cls_name}.{method}")
    if changed < 6:
        raise BrokenAnchor(f"only {changed} modifications found")


LOADERS = {"read_in", "purge", "purge_impl", "is_saved_on", "modifiable_sub_objects",
           "modifiable_sub_objects_impl", "write_out", "map_in", "map_in_impl", "__init__",
           "_get_sub_locations", "init_from_json", "set_unsaved"}


def early_reads(ctx, eng, st, watched):
    """Content reads of objects that are not in memory at that point: (event, object, attribute)."""
    p = ctx.p
    status = dict(watched)
    inside = 0
    found = []
    stack = []
    for e in st.events():
        if e.kind == "enter":
            last = (e.name or "").split(".")[-1]
            stack.append(last in LOADERS)
            inside += stack[-1]
        elif e.kind == "leave":
            if stack:
                inside -= stack.pop()
        elif e.kind == "setattr" and e.name == "mapped" and e.recv in status:
            status[e.recv] = e.args[0] != FALSE
        elif e.kind == "loaded":
            status[e.recv] = True
        elif e.kind in ("getattr", "mut", "loop") and not inside:
            if e.kind == "getattr":
                x, name = e.recv, e.name
            else:
                own = owner_of(p, eng, st, e.recv)
                if own is None:
                    continue
                x, name = own
            if status.get(x) is False and isinstance(x, O) and name in content_names(p, st.h(x).cls):
                found.append((e, x, name))
    return found


def hook_map_in(eng, st, recv, args, kw, node):
    st.emit(Ev("loaded", None, arg(args, kw, 0, "mappable_object"), (), eng.loc(st, node)))
    return [(st, NONE)]


def hook_load(eng, st, recv, args, kw, node):
    """read_in: the object is in memory afterwards."""
    st.emit(Ev("loaded", None, recv, (), eng.loc(st, node)))
    if isinstance(recv, O):
        st.update(recv).attrs["mapped"] = TRUE
    return [(st, recv)]


def hook_ensure(eng, st, recv, args, kw, node):
    """ensure_mapped: loads the object if necessary, and reports whether it did."""
    out = []
    if isinstance(recv, O):
        m = st.h(recv).attrs.get("mapped")
        states = [(st, m == TRUE)] if m in (TRUE, FALSE) else eng.branch(st, T("attr", recv, "mapped"))
    else:
        states = eng.branch(st, T("attr", recv, "mapped"))
    for s, loaded in states:
        if not loaded:
            s.emit(Ev("loaded", None, recv, (), eng.loc(s, node)))
        if isinstance(recv, O):
            s.update(recv).attrs["mapped"] = TRUE
        out.append((s, Const(not loaded)))
    return out


def check_read_in(ctx):
    """read_in and ensure_mapped of an object that is not in memory."""
    p = ctx.p
    ctx.rule("read_in and ensure_mapped pass an object that is not in memory to the mapper registered for its class, "
             "with its own realm and reference, and mark it as loaded")
    for cls in p.concrete_subclasses("MappableObject"):
        for name in ("read_in", "ensure_mapped"):
            f = p.find_method(cls, name)
            for none in (False, True):
                eng = ctx.engine({".map_in": hook_map_in}, assert_raises=False)
                st = ctx.state()
                st.types[D] = "str"
                st.facts[D] = True
                obj = ctx.obj(st, cls)
                if p.is_subclass(cls, "MTreeNode"):
                    st.update(obj).attrs.update(leaf_class=ClsV(p.cls("Metadata")), leaf_class_name=Const("Metadata"))
                ref = saved(ctx, st, obj, D)
                loc = st.h(ref).attrs["location"]
                if none:
                    st.update(ref).attrs["location"] = NONE_LOCATION
                else:
                    st.facts[eng.eq_term(loc, NONE_LOCATION)] = False
                st.update(obj).attrs["mapped"] = FALSE
                outs = ctx.run(eng, st, f, obj, [])
                where = f"{cls.name}.{name}"
                if outs is None:
                    ctx.unknown("loads", where, "not analysed")
                    continue
                for s, v in outs:
                    if isinstance(v, Exc):
                        if v.kind in ("AssertionError", "AttributeError", "TypeError", "KeyError"):
                            ctx.bad("loads", where, f"a stored object cannot be loaded: {v!r}", v.loc, s)
                        continue
                    loads = [e for e in s.events() if e.kind == "loaded"]
                    line = f"{f.module.path}:{f.node.lineno}"
                    if s.h(obj).attrs.get("mapped") == FALSE:
                        ctx.bad("loads", where, "the object is not marked as loaded", line, s)
                    elif none:
                        ctx.ok("loads", where)
                    elif not loads:
                        ctx.bad("loads", where, "the object is marked as loaded, but it was not read", line, s)
                    else:
                        ctx.ok("loads", where)
                    if name == "read_in" and v != obj:
                        ctx.check(None if isinstance(v, T) else False, "loads", where,
                                  f"returns {v!r} instead of the object", line, s)
                    if name == "ensure_mapped":
                        ctx.check(None if isinstance(v, T) else v == TRUE, "loads", where,
                                  f"returns {v!r} although the object was loaded", line, s)
        for name in ("read_in", "ensure_mapped"):
            # an object that is in memory is never read again, its modifications would be lost
            f = p.find_method(cls, name)
            eng = ctx.engine({".map_in": hook_map_in}, assert_raises=False)
            st = ctx.state()
            obj = ctx.obj(st, cls, mapped=TRUE)
            before = content(p, st, obj)
            for s, v in ctx.run(eng, st, f, obj, []) or ():
                line = f"{f.module.path}:{f.node.lineno}"
                if any(e.kind == "loaded" for e in s.events()) or content(p, s, obj) != before:
                    ctx.bad("loads-once", f"{cls.name}.{name}", "an object that is in memory is read again", line, s)
                elif name == "ensure_mapped":
                    ctx.check(None if isinstance(v, T) else v == FALSE, "loads-once", f"{cls.name}.{name}",
                              f"returns {v!r} although nothing was loaded", line, s)
                else:
                    ctx.ok("loads-once", f"{cls.name}.{name}")


def check_c07(ctx):
    check_read_in(ctx)
    ctx.rule("on every path through a public method of a model class, the content of an object that is not in memory "
             "is read only after a call that loads it")
    p = ctx.p
    hooks = {
        ".map_in": hook_map_in,
        "MappableObject.read_in": hook_load,
        "MappableObject.ensure_mapped": hook_ensure,
        ".write_out": child_writer(ctx, None, False),
    }
    reads = 0
    for base in ("MappableObject", "MTreeProxy"):
        for cls in p.concrete_subclasses(base):
            methods = dict(public_methods(p, cls))
            for extra in ("deepcopy", "__eq__", "to_json", "__len__"):
                f = p.find_method(cls, extra)
                if f is not None:
                    methods[extra] = f
            for name, f in sorted(methods.items()):
                for loaded in (False, True):
                    n = unloaded_calls(ctx, hooks, cls, name, f, loaded)
                    reads += n
    if reads < 20:
        raise BrokenAnchor(f"only {reads} content reads found")


def unloaded_calls(ctx, hooks, cls, name, f, loaded):
    p = ctx.p
    eng = ctx.engine(hooks, assert_raises=False, track_reads=True)
    st0 = ctx.state()
    st0.types[D] = "str"
    st0.facts[D] = True
    st0.facts[T("is_remote", D)] = False
    reads = 0
    starts = []
    if loaded:
        for s, c, obj, sh in model_instances(ctx, eng, st0):
            if c is cls and sh.children:
                starts.append((s, obj, [o for o in sh.children if p.is_subclass(s.h(o).cls, "MappableObject")]
                               + [s.h(o).attrs["mtree"] for o in sh.children
                                  if p.is_subclass(s.h(o).cls, "MTreeProxy")]))
    else:
        s = st0.copy()
        if p.is_subclass(cls, "MTreeProxy"):
            from ..shapes import proxy
            obj = proxy(ctx, s, cls.name, cls.name)
            starts.append((s, obj, [s.h(obj).attrs["mtree"]]))
        else:
            for leaf in (("Metadata", "MetadataRootRecord") if p.is_subclass(cls, "MTreeNode") else (None,)):
                s2 = s.copy()
                obj = ctx.obj(s2, cls)
                if leaf:
                    s2.update(obj).attrs.update(leaf_class=ClsV(p.cls(leaf)), leaf_class_name=Const(leaf))
                starts.append((s2, obj, [obj]))
    for s0, obj, watched in starts:
        for s, args, kwargs, label in argument_variants(ctx, eng, s0, f):
            for o in watched:
                saved(ctx, s, o, D)
                s.update(o).attrs["mapped"] = FALSE
            if name == "__eq__":
                other = ctx.obj(s, cls, "other")
                saved(ctx, s, other, D)
                s.update(other).attrs["mapped"] = FALSE
                kwargs = {f.node.args.args[1].arg: other}
                watched = [*watched, other]
            outs = public_call(ctx, eng, s.copy(), cls, obj, name, f, kwargs)
            if outs is None:
                ctx.unknown("loads-first", f"{cls.name}.{name}", "not analysed")
                continue
            for s2, v in outs:
                bad = early_reads(ctx, eng, s2, {o: False for o in watched})
                reads += sum(e.kind == "getattr" and e.recv in watched and isinstance(e.recv, O)
                             and e.name in content_names(p, s2.h(e.recv).cls) for e in s2.events())
                if not bad:
                    ctx.ok("loads-first", f"{cls.name}.{name}")
                for e, x, attr in bad[:1]:
                    ctx.bad("loads-first", f"{cls.name}.{name}:{attr}",
                            f"{x!r}.{attr} is read although the object is not loaded [{label}]", e.loc, s2)
    return reads
