"""Rules about is_saved_on, purge and write_out."""
from ..callers import mappable_node, saved
from ..model import *
from ..shapes import explicit_list, explicit_set, mappable, proxy, shapes, sym
from .state import D, content, content_names, hook_map_in

E2 = T("sym", "other_realm")


def start(ctx, eng):
    st = ctx.state()
    for t in (D, E2):
        st.types[t] = "str"
        st.facts[t] = True
        st.facts[T("is_remote", t)] = False
    st.facts[eng.eq_term(D, E2)] = False
    return st


def stored_shapes(ctx, eng, st, realms=(D,), mapped=TRUE, classes=None):
    """Stored objects with sub-objects that have been stored as well."""
    p = ctx.p
    for cls in classes or p.concrete_subclasses("MappableObject"):
        for s, sh in shapes(ctx, eng, st, cls, mapped=mapped):
            saved(ctx, s, sh.obj, D)
            s.update(sh.obj).attrs["saved_on"] = explicit_set(s, list(realms))
            locs = []
            for i, c in enumerate(sh.children):
                o = s.h(c).attrs["mtree"] if p.is_subclass(s.h(c).cls, "MTreeProxy") else c
                loc = sym(s, f"childloc{i}", "str", True)
                s.facts[eng.eq_term(loc, NONE_LOCATION)] = False
                for other in locs:
                    s.facts[eng.eq_term(loc, other)] = False
                locs.append(loc)
                ref = ctx.obj(s, "Reference", "stored", opaque=False,
                              class_name=Const(stored_name(p, s.h(c).cls)), location=loc)
                s.update(o).attrs.update(realm=D, reference=ref)
            yield s, cls, sh, locs


def is_saved_hook(root, status):
    """is_saved_on of the sub-objects: status(child, destination)."""
    def hook(eng, st, recv, args, kw, node):
        if recv == root:
            return None
        dest = arg(args, kw, 0, "destination")
        r = status(recv, dest)
        if r is None:
            return [(s, Const(b)) for s, b in eng.branch(st, T("saved", recv, dest))]
        return [(st, Const(r))]
    return hook


def truth(v):
    return v.v if isinstance(v, Const) and isinstance(v.v, bool) else None


def tree_of(p, st, o):
    return st.h(o).attrs["mtree"] if p.is_subclass(st.h(o).cls, "MTreeProxy") else o


def check_c08(ctx):
    ctx.rule("is_saved_on(D) is False on every path if D is not a destination the object was saved on, if any loaded "
             "sub-object is not saved on D, or if the stored version refers to another version of a sub-object; it is "
             "True otherwise")
    p = ctx.p
    probe = ctx.engine()
    count = 0
    st0 = start(ctx, probe)
    for s0, cls, sh, locs in stored_shapes(ctx, probe, st0):
        kids = [tree_of(p, s0, c) for c in sh.children]
        cases = []      # label, saved_on, child status, stored locations, expected
        true = lambda c, d: True
        cases.append(("never saved", (), true, None, False))
        cases.append(("saved elsewhere", (E2,), true, None, False))
        cases.append(("saved", (D,), true, None, True))
        cases.append(("saved twice", (E2, D), true, None, True))
        cases.append(("saved, sub-objects recorded", (D,), true, locs, True))
        for i, k in enumerate(kids):
            kk = {k, sh.children[i]}
            cases.append((f"sub-object {sh.children[i]!r} is not saved", (D,),
                          lambda c, d, kk=kk: c not in kk, None, False))
            cases.append((f"sub-object {sh.children[i]!r} is saved elsewhere", (E2, D),
                          lambda c, d, kk=kk: not (c in kk and d == D), locs, False))
            other = list(locs)
            other[i] = sym(s0, "older", "str", True)
            for x in locs:
                s0.facts[probe.eq_term(other[i], x)] = False
            cases.append((f"the stored version refers to another version of {sh.children[i]!r}", (D,),
                          true, other, False))
            cases.append((f"sub-object {sh.children[i]!r} is not saved on the destination, but on the realm", (D, E2),
                          lambda c, d, kk=kk: not (c in kk and d == E2), None, False, E2))
        cases.append(("saved on another realm than its own", (D, E2), lambda c, d: d == E2, None, True, E2))
        for label, saved_on, status, recorded, want, *dest in cases:
            dest = dest[0] if dest else D
            targets = [(cls, sh.obj)]
            if p.is_subclass(cls, "MTreeNode"):
                targets += [(c, None) for c in p.concrete_subclasses("MTreeProxy")
                            if (c.name == "FileTree") == ("Metadata)" in sh.label)]
            for tcls, obj in targets:
                eng = ctx.engine({".is_saved_on": None}, assert_raises=False)
                s = s0.copy()
                s.update(sh.obj).attrs["saved_on"] = explicit_set(s, saved_on)
                s.update(sh.obj).attrs["stored_sub_locations"] = \
                    NONE if recorded is None else explicit_list(s, recorded)
                eng.hooks[".is_saved_on"] = is_saved_hook(sh.obj, status)
                o = obj if obj is not None else ctx.obj(s, tcls, mtree=sh.obj)
                f = p.find_method(tcls, "is_saved_on")
                outs = ctx.run(eng, s, f, o, [dest])
                for s2, v in outs or ():
                    count += 1
                    got = truth(v)
                    where = f"{tcls.name}.is_saved_on"
                    if isinstance(v, Exc):
                        ctx.bad("saved-status", where, f"raises {v!r}: {label}", v.loc, s2)
                    elif got is None:
                        ctx.unknown("saved-status", where, f"{label}: {v!r}")
                    elif got is want:
                        ctx.ok("saved-status", where, label)
                    elif want is False:
                        ctx.bad("saved-status", where, f"reports a saved object although: {label}",
                                f"{f.module.path}:{f.node.lineno}", s2)
                    else:
                        ctx.bad("saved-status", where, f"reports an unsaved object although: {label}",
                                f"{f.module.path}:{f.node.lineno}", s2)
    if count < 50:
        raise BrokenAnchor("is_saved_on not analysed")


def empty_content(p, st, obj):
    """True / False / None: the object holds no content."""
    res = True
    if len(content_names(p, st.h(obj).cls)) == 1:
        v = next((st.h(obj).attrs.get(n) for n in content_names(p, st.h(obj).cls)), None)
        if v is None or isinstance(v, T) and v.op == "attr" and v.args[0] == obj:
            return False
    for n in content_names(p, st.h(obj).cls):
        v = st.h(obj).attrs.get(n, T("attr", obj, n))
        if v == NONE:
            continue
        if isinstance(v, O) and st.h(v).kind in ("dict", "list", "set"):
            if st.h(v).segs:
                return False
            continue
        if isinstance(v, O):
            return False
        if isinstance(v, T) and v.op == "attr" and v.args[0] == obj:
            continue        # scalar values may be kept
        res = None
    return res


def check_c09(ctx):
    ctx.rule("purge of a loaded object that is unsaved, or that has an unsaved sub-object, raises and changes nothing; "
             "purge of a saved object drops its content, purges all its sub-objects, and keeps realm and reference")
    p = ctx.p
    probe = ctx.engine()
    st0 = start(ctx, probe)
    count = 0
    for s0, cls, sh, locs in stored_shapes(ctx, probe, st0):
        true = lambda c, d: True
        cases = [("it was never saved", (), true, True), ("it is saved", (D,), true, False),
                 ("it is saved on two realms", (D, E2), true, False)]
        for i, c in enumerate(sh.children):
            kk = {c, tree_of(p, s0, c)}
            cases.append((f"sub-object {c!r} is not saved", (D,), lambda x, d, kk=kk: x not in kk, True))
            cases.append((f"sub-object {c!r} is only saved on another realm", (D,),
                          lambda x, d, kk=kk: not (x in kk and d == D), True))
        if len(sh.children) > 1:
            a, b = ({c, tree_of(p, s0, c)} for c in sh.children[:2])
            cases.append(("no realm holds all sub-objects", (D, E2),
                          lambda x, d, a=a, b=b: not (x in a and d == D or x in b and d == E2), True))
        for label, saved_on, status, refuse in cases:
            for mapped in (TRUE, FALSE):
                if mapped == FALSE and (refuse or len(saved_on) != 1):
                    continue
                purged = []

                def hook_purge(eng, st, recv, args, kw, node):
                    if recv == sh.obj:
                        return None
                    st.emit(Ev("purged", None, recv, (), eng.loc(st, node)))
                    return [(st, NONE)]

                eng = ctx.engine({".is_saved_on": is_saved_hook(sh.obj, status), ".purge": hook_purge},
                                 assert_raises=False)
                s = s0.copy()
                attrs = s.update(sh.obj).attrs
                attrs["saved_on"] = explicit_set(s, saved_on)
                attrs["mapped"] = mapped
                before = content(p, s, sh.obj)
                ref, realm = attrs["reference"], attrs["realm"]
                f = p.find_method(cls, "purge")
                for s2, v in ctx.run(eng, s, f, sh.obj, []) or ():
                    count += 1
                    where = f"{cls.name}.purge"
                    line = f"{f.module.path}:{f.node.lineno}"
                    same = content(p, s2, sh.obj) == before
                    m = s2.h(sh.obj).attrs.get("mapped")
                    if refuse:
                        if not isinstance(v, Exc):
                            ctx.bad("refuses", where, f"purges the object although {label}", line, s2)
                        elif not same or m != TRUE:
                            ctx.bad("refuses", where, f"raises, but content was dropped although {label}", v.loc, s2)
                        elif [e for e in s2.events() if e.kind == "purged"]:
                            ctx.bad("refuses", where, f"raises, but sub-objects were purged although {label}",
                                    v.loc, s2)
                        else:
                            ctx.ok("refuses", where, label)
                        continue
                    if isinstance(v, Exc):
                        ctx.bad("purges", where, f"cannot purge the object although {label}: {v!r}", v.loc, s2)
                        continue
                    if mapped == FALSE:
                        ctx.check(m == FALSE, "purges", where, "an object that is not in memory is changed by purge",
                                  line, s2)
                        continue
                    if m != FALSE:
                        ctx.bad("purges", where, "the object is still marked as loaded", line, s2)
                    elif empty_content(p, s2, sh.obj) is False:
                        ctx.bad("purges", where, "content is kept in memory, later loads add to it", line, s2)
                    else:
                        done = {e.recv for e in s2.events() if e.kind == "purged"}
                        missing = [c for c in sh.children if c not in done and tree_of(p, s2, c) not in done]
                        ctx.check(not missing, "purges", where,
                                  f"sub-objects {missing!r} are not purged", line, s2)
                    now = s2.h(sh.obj).attrs
                    ctx.check(now.get("reference") == ref and now.get("realm") == realm, "purges", where,
                              "realm or reference are lost", line, s2)
    for cls in p.concrete_subclasses("MTreeProxy"):
        f = p.find_method(cls, "purge")

        def hook_node(eng, st, recv, args, kw, node):
            st.emit(Ev("purged", None, recv, (), eng.loc(st, node)))
            return [(st, NONE), (st.copy(), Exc("ValueError", None, "purge"))]

        eng = ctx.engine({"MappableObject.purge": hook_node}, assert_raises=False)
        s = start(ctx, eng)
        o = proxy(ctx, s, cls.name, cls.name)
        for s2, v in ctx.run(eng, s, f, o, []) or ():
            done = [e for e in s2.events() if e.kind == "purged"]
            ctx.check(bool(done), "purges", f"{cls.name}.purge", "the tree is not purged",
                      f"{f.module.path}:{f.node.lineno}", s2)
    if count < 30:
        raise BrokenAnchor("purge not analysed")


PROTO = ("realm", "reference", "mapped")


def protocol_state(st, obj):
    a = st.h(obj).attrs
    s = a.get("saved_on")
    if isinstance(s, O):
        s = tuple(sorted(repr(x[0]) for x in st.h(s).segs))
    return tuple(a.get(n, T("attr", obj, n)) for n in PROTO) + (s,)


def failing_map_out(eng, st, recv, args, kw, node):
    st.emit(Ev("mapout", None, arg(args, kw, 0, "mappable_object"), tuple(args[1:]), eng.loc(st, node)))
    return [(st, Exc("RuntimeError", None, eng.loc(st, node)))]


def git_fails(sub, st):
    return True


def check_c10(ctx):
    ctx.rule("on every path on which write_out raises because the mapper or one of its git commands fails, the "
             "content, realm, reference, load state and saved destinations of the object are those from before the "
             "call; if the write cache of a file tree cannot be flushed, no node of the tree is regarded as saved")
    p = ctx.p
    count = 0
    for saved_on in ((), (D,)):
        for whole in (False, True):
            hooks = {".write_out": child_writer(ctx, None, False)} if whole else {".map_out": failing_map_out}
            eng = ctx.engine(hooks, assert_raises=False)
            if whole:
                eng.git_may_fail = git_fails
                eng.hooks[".is_saved_on"] = lambda e, st, r, a, k, n: None
            st0 = start(ctx, eng)
            for s, cls, sh, locs in stored_shapes(ctx, eng, st0):
                f = p.find_method(cls, "write_out")
                s.update(sh.obj).attrs["saved_on"] = explicit_set(s, saved_on)
                status = is_saved_hook(sh.obj, lambda c, d: True)
                eng.hooks[".is_saved_on"] = status
                if whole:
                    writer = child_writer(ctx, None, False)
                    eng.hooks[".write_out"] = \
                        lambda e, st, r, a, k, n, o=sh.obj: None if r == o else writer(e, st, r, a, k, n)
                for dest, force in ((D, TRUE), (E2, FALSE)):
                    s1 = s.copy()
                    before = content(p, s1, sh.obj), protocol_state(s1, sh.obj)
                    outs = ctx.run(eng, s1, f, sh.obj, [dest], {"force_write": force})
                    if outs is None:
                        ctx.unknown("unchanged-on-failure", f"{cls.name}.write_out", "not analysed")
                        continue
                    for s2, v in outs:
                        if not isinstance(v, Exc):
                            if not whole:
                                ctx.bad("unchanged-on-failure", f"{cls.name}.write_out",
                                        "the failure of the mapper is not reported",
                                        f"{f.module.path}:{f.node.lineno}", s2)
                            continue
                        count += 1
                        after = content(p, s2, sh.obj), protocol_state(s2, sh.obj)
                        if before == after:
                            ctx.ok("unchanged-on-failure", f"{cls.name}.write_out")
                        else:
                            what = [n for n, x, y in zip(PROTO + ("saved_on",), before[1], after[1]) if x != y] \
                                or ["content"]
                            ctx.bad("unchanged-on-failure", f"{cls.name}.write_out:{what[0]}",
                                    f"a failing write_out changes {', '.join(what)}", v.loc, s2)
    count += flush_failure(ctx)
    if count < 20:
        raise BrokenAnchor("no failing write analysed")


def flush_failure(ctx):
    p = ctx.p
    cls = p.cls("FileTree")
    f = p.find_method(cls, "write_out")
    eng = ctx.engine({"Metadata.to_json": lambda e, st, r, a, k, n: [(st, T("json", r))]}, assert_raises=False)
    eng.git_may_fail = git_fails
    eng.opaque_globals = False
    st = start(ctx, eng)
    count = 0
    for s, sh in shapes(ctx, eng, st, p.cls("MTreeNode"), "Metadata"):
        inner = ctx.obj(s, "Metadata", "inner", mapped=TRUE)
        sub = sh.children[0]
        from ..shapes import explicit_dict
        s.update(sub).attrs.update(mapped=TRUE, child_nodes=explicit_dict(s, [(Const("x"), inner)]))
        for c in sh.children:
            s.update(c).attrs["mapped"] = TRUE
        nodes = [sh.obj, inner, *sh.children]
        for o in nodes:
            s.update(o).attrs.update(saved_on=explicit_set(s, []), realm=NONE, reference=NONE,
                                     stored_sub_locations=NONE)
        o = ctx.obj(s, cls, cls.name, mtree=sh.obj)
        outs = ctx.run(eng, s, f, o, [D])
        for s2, v in outs or ():
            fails = [e for e in s2.events() if e.kind == "gitfail" and e.name == "hash-object"]
            if not fails:
                continue
            count += 1
            if not isinstance(v, Exc):
                ctx.bad("flush-failure", "FileTree.write_out", "a failing flush of the write cache is not reported",
                        f"{f.module.path}:{f.node.lineno}", s2)
                continue
            kept = [x for x in nodes if s2.h(s2.h(x).attrs["saved_on"]).segs]
            ctx.check(not kept, "flush-failure", "FileTree.write_out",
                      f"{kept!r} are regarded as saved although the write cache could not be flushed", v.loc, s2)
    return count


def mapper_result(eng, st, recv, args, kw, node):
    loc = T("sym", "new_location")
    st.types[loc] = "str"
    ref = st.alloc(HObj("inst", cls=eng.p.cls("Reference"), attrs={
        "class_name": T("sym", "new_class"), "location": loc}), "NewReference")
    st.emit(Ev("mapout", None, arg(args, kw, 0, "mappable_object"),
               (arg(args, kw, 1, "realm"), arg(args, kw, 2, "force_write", FALSE), ref), eng.loc(st, node)))
    return [(st, ref)]


def check_c11(ctx):
    ctx.rule("write_out(D) returns normally only if the object is stored on D: an object that is unsaved on D is passed "
             "to its mapper with destination D, afterwards it is saved on D, its realm is D and its reference is the "
             "one the mapper returned; a saved object is not written again unless forced; D defaults to the realm")
    ctx.rule("every mapper writes all sub-objects, to the realm it was given")
    ctx.rule("blobs are written, not only hashed, and without content filters")
    p = ctx.p
    count = 0
    true = lambda c, d: True
    for saved_on, dest, force, mapped in [
            ((), D, FALSE, TRUE), ((D,), D, FALSE, TRUE), ((D,), D, TRUE, TRUE), ((D,), E2, FALSE, TRUE),
            ((), None, FALSE, TRUE), ((D,), None, FALSE, TRUE), ((D, E2), E2, FALSE, TRUE),
            ((D,), D, FALSE, FALSE), ((D,), E2, FALSE, FALSE), ((), D, FALSE, FALSE), ((D,), None, FALSE, FALSE)]:
        eng = ctx.engine({".map_out": mapper_result}, assert_raises=False)
        st0 = start(ctx, eng)
        for s, cls, sh, locs in stored_shapes(ctx, eng, st0):
            f = p.find_method(cls, "write_out")
            eng.hooks[".is_saved_on"] = is_saved_hook(sh.obj, true)
            attrs = s.update(sh.obj).attrs
            attrs["saved_on"] = explicit_set(s, saved_on)
            attrs["mapped"] = mapped
            old_ref = attrs["reference"]
            target = dest or D
            args = [dest] if dest is not None else []
            for s2, v in ctx.run(eng, s, f, sh.obj, args, {"force_write": force} if force == TRUE else {}) or ():
                count += 1
                where = f"{cls.name}.write_out"
                line = f"{f.module.path}:{f.node.lineno}"
                writes = [e for e in s2.events() if e.kind == "mapout"]
                is_saved = target in saved_on
                if isinstance(v, Exc):
                    if mapped == FALSE and not is_saved:
                        ctx.ok("write-out", where, "an unloaded object cannot be written to another realm")
                    else:
                        ctx.bad("write-out", where, f"raises {v!r}", v.loc, s2)
                    continue
                if mapped == FALSE:
                    if writes:
                        ctx.bad("write-out", where, "an object that is not in memory is written", line, s2)
                    elif not is_saved:
                        ctx.bad("write-out", where, "returns a reference for a realm that does not hold the object",
                                line, s2)
                    else:
                        ctx.check(v == old_ref, "write-out", where, "returns another reference", line, s2)
                    continue
                now = s2.h(sh.obj).attrs
                if not is_saved or force == TRUE:
                    if not writes:
                        ctx.bad("write-out", where, "an unsaved object is not written"
                                if not is_saved else "a forced write is skipped", line, s2)
                        continue
                    w = writes[0]
                    if w.recv != sh.obj:
                        ctx.bad("write-out", where, "another object is passed to the mapper", w.loc, s2)
                    if w.args[0] != target:
                        ctx.bad("write-out", where, f"the mapper is called for {w.args[0]!r}, not for the destination",
                                w.loc, s2)
                    ctx.check(now.get("reference") == w.args[2] and v == w.args[2], "write-out", where,
                              "the reference of the stored version is not kept and returned", line, s2)
                    on = now.get("saved_on")
                    have = [x[0] for x in s2.h(on).segs] if isinstance(on, O) else None
                    ctx.check(None if have is None else target in have, "write-out", where,
                              "the object is not marked as saved on the destination", line, s2)
                else:
                    ctx.check(not writes, "write-out", where, "a saved object is written again", line, s2)
                    ctx.check(v == old_ref and now.get("reference") == old_ref, "write-out", where,
                              "the reference is changed without a write", line, s2)
                ctx.check(now.get("realm") == target, "write-out", where,
                          f"the realm is {now.get('realm')!r} afterwards, not the destination", line, s2)
                ctx.check(now.get("mapped") == TRUE, "write-out", where, "the load state is changed", line, s2)
    # saved directly afterwards
    for cls in p.concrete_subclasses("MappableObject"):
        eng = ctx.engine({".map_out": mapper_result}, assert_raises=False)
        st0 = start(ctx, eng)
        for s, c, sh, locs in stored_shapes(ctx, eng, st0, (), TRUE, [cls]):
            eng.hooks[".is_saved_on"] = is_saved_hook(sh.obj, true)
            f, g = p.find_method(cls, "write_out"), p.find_method(cls, "is_saved_on")
            for s2, v in ctx.run(eng, s, f, sh.obj, [D]) or ():
                if isinstance(v, Exc):
                    continue
                for s3, r in ctx.run(eng, s2, g, sh.obj, [D]) or ():
                    t = None if isinstance(r, Exc) else truth(r)
                    ctx.check(t, "saved-after-write", f"{cls.name}.write_out",
                              "the object is not regarded as saved directly after it was written",
                              f"{f.module.path}:{f.node.lineno}", s3)
    count += mapper_children(ctx)
    from .store import check_stored_blobs
    check_stored_blobs(ctx, "stored-blobs")
    if count < 40:
        raise BrokenAnchor("write_out not analysed")


def mapper_children(ctx):
    p = ctx.p
    count = 0
    for cls in p.concrete_subclasses("MappableObject"):
        eng = ctx.engine({".write_out": child_writer(ctx, None, False)}, assert_raises=False)
        st0 = start(ctx, eng)
        for s, c, sh, locs in stored_shapes(ctx, eng, st0, (), TRUE, [cls]):
            for s1, m in ctx.mapper(eng, s, cls.name) or ():
                if not isinstance(m, O):
                    continue
                f = p.find_method(s1.h(m).cls, "map_out")
                for s2, v in ctx.run(eng, s1, f, m, [sh.obj, E2, FALSE]) or ():
                    if isinstance(v, Exc):
                        continue
                    count += 1
                    where = f"{s1.h(m).cls.name}.map_out"
                    line = f"{f.module.path}:{f.node.lineno}"
                    written = {}
                    for e in s2.events():
                        if e.kind == "childwrite":
                            written[e.recv] = e
                    for k in sh.children:
                        e = written.get(k) or written.get(tree_of(p, s2, k))
                        if e is None:
                            ctx.bad("sub-objects", where, f"sub-object {k!r} is not written", line, s2)
                            continue
                        dest = [a for a in e.args if not (isinstance(a, T) and a.op == "kw")]
                        kws = {a.args[0]: a.args[1] for a in e.args if isinstance(a, T) and a.op == "kw"}
                        d = dest[0] if dest else kws.get("destination_realm", kws.get("destination", NONE))
                        if d == E2:
                            ctx.ok("sub-objects", where, f"{k!r} is written to the realm of its container")
                        elif d in (D, NONE) or isinstance(d, Const):
                            ctx.bad("sub-objects", where, f"sub-object {k!r} is written to {d!r}, "
                                    "not to the destination of its container", e.loc, s2)
                        else:
                            ctx.unknown("sub-objects", where, f"destination {d!r}")
    return count
