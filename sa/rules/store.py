"""Rules about the git backend: failures, command lines, remote realms, root references, reachability."""
from ..callers import saved
from ..library import READ_ONLY_GIT
from ..model import *
from ..shapes import explicit_set, proxy, shapes, sym
from .protocol import E2, git_fails, start
from .roundtrip import hook_cache_blob
from .state import D

SUBPROCESS = "mapper.gitmapper.gitbackend.subprocess"
REMOTES = ("git@host.org:u/x", "git://host.org/x", "http://host.org/x", "https://host.org/x",
           "ssh://host.org/x")
PROBES = {"cat-file": {"-e", "-t", "-s"}, "rev-parse": {"--verify", "-q", "--quiet"}, "show-ref": {"--verify", "-q", "--quiet", "--exists"}}
HEX = "0123456789abcdef0123456789abcdef01234567"


def git_events(s, kind="git"):
    return [e for e in s.events() if e.kind == kind]


def is_probe(e):
    flags = {a.v for a in e.args if isinstance(a, Const)}
    return bool(PROBES.get(e.name, set()) & flags)


def is_write(e):
    return e.name not in READ_ONLY_GIT


def plain(v):
    while isinstance(v, T) and v.op in ("str", "path") and len(v.args) == 1:
        v = v.args[0]
    return v


def line(f):
    return f"{f.module.path}:{f.node.lineno}"


def backend_functions(ctx):
    """Functions of the backend that run a git command themselves."""
    p = ctx.p
    m = p.module(SUBPROCESS)
    for name, f in sorted(m.functions.items()):
        if f.node.args.args and f.node.args.args[0].arg in ("repo_dir", "realm", "repo"):
            yield f


def params(ctx, st, f):
    args = []
    a = f.node.args
    for x in a.args[:len(a.args)]:
        ann = "" if x.annotation is None else ast_text(x.annotation)
        t = T("sym", "p_" + x.arg)
        if "List" in ann or "Iterable" in ann or "list" in ann:
            st.types[t] = "list"
        elif "bool" in ann:
            pass
        else:
            st.types[t] = "str"
        args.append(t)
    return args


def ast_text(node):
    import ast
    return ast.unparse(node)


# -- sequences of runs of the backend ----------------------------------------
def object_runs(ctx, eng, remote=False):
    """Load and save operations of all mappers: (label, function, outcomes, shape)."""
    p = ctx.p
    for cls in concrete_mappable(p):
        st = start(ctx, eng)
        for s, m in ctx.mapper(eng, st, cls.name) or ():
            if not isinstance(m, O):
                continue
            mc = s.h(m).cls
            f_out, f_in = p.find_method(mc, "map_out"), p.find_method(mc, "map_in")
            for s1, sh in shapes(ctx, eng, s, cls):
                writer = child_writer(ctx, None, False)
                eng.hooks[".write_out"] = writer
                yield f"{cls.name}.map_out", f_out, ctx.run(eng, s1, f_out, m, [sh.obj, D, FALSE]), sh, cls
            s2 = s.copy()
            ref = ctx.obj(s2, "Reference", "stored", opaque=False, class_name=Const(stored_name(p, cls)),
                          location=sym(s2, "stored_location", "str", True))
            s2.facts[eng.eq_term(T("sym", "stored_location"), NONE_LOCATION)] = False
            for s3, n in construct(ctx, eng, s2, cls, D, ref):
                if isinstance(n, O):
                    yield f"{cls.name}.map_in", f_in, ctx.run(eng, s3, f_in, m, [n, D, ref]), None, cls
                break


def other_runs(ctx, eng):
    """Functions of the package that run git commands besides the mappers."""
    p = ctx.p
    for f in backend_functions(ctx):
        st = start(ctx, eng)
        args = params(ctx, st, f)
        st.facts[T("is_remote", args[0])] = False
        yield f.name, f, ctx.run(eng, st, f, None, args)
    m = p.modules.get("mapper.gitmapper.localcache")
    if m is not None and "cache_object" in m.functions:
        for ref in ("refs/datalad/x", HEX):
            f = m.functions["cache_object"]
            st = start(ctx, eng)
            yield "cache_object", f, ctx.run(eng, st, f, None, [sym(st, "remote", "str", True), Const(ref)])
    for name in ("write_object_to", "copy_object_to"):
        for cls in p.concrete_subclasses("MetadataSource"):
            f = cls.methods.get(name)
            if f is None:
                continue
            st = start(ctx, eng)
            o = ctx.obj(st, cls)
            yield f"{cls.name}.{name}", f, ctx.run(eng, st, f, o, [sym(st, "target")])
    cls = p.classes.get("GitBlobCache")
    if cls is not None and "flush" in cls.methods:
        f = cls.methods["flush"]
        st = start(ctx, eng)
        for s, o in eng.instantiate(st, cls, [D], {}, None):
            if not isinstance(o, O):
                continue
            cache = p.find_method(cls, "cache_blob")
            for s2, v in ctx.run(eng, s, cache, o, [D, sym(s, "blob", "str", True)]) or ():
                if not isinstance(v, Exc):
                    yield "GitBlobCache.flush", f, ctx.run(eng, s2, f, o, [])
        cls = p.classes.get("MetadataGitMapper")
        if cls is not None and "flush_realm" in cls.methods:
            f = cls.methods["flush_realm"]
            eng.opaque_globals = False
            st = start(ctx, eng)
            for s, v in ctx.run(eng, st, cls.methods["cache_realm"], ClsV(cls), [D]) or ():
                for s2, c in ctx.run(eng, s, cls.methods["get_cache"], ClsV(cls), [D]) or ():
                    if not isinstance(c, O):
                        continue
                    for s3, v2 in ctx.run(eng, s2, p.find_method(s2.h(c).cls, "cache_blob"), c,
                                          [D, sym(s2, "blob", "str", True)]) or ():
                        yield "flush_realm", f, ctx.run(eng, s3, f, ClsV(cls), [D])
            eng.opaque_globals = True


def check_c18(ctx):
    ctx.rule("on every path on which a git command exits with an error, except for tests for existence, the calling "
             "operation raises and runs no further git command that writes")
    eng = ctx.engine({".cache_blob": None}, assert_raises=False)
    eng.git_may_fail = git_fails
    count = 0
    runs = [(l, f, o) for l, f, o, _, _ in object_runs(ctx, eng)]
    eng.hooks.pop(".write_out", None)
    runs += list(other_runs(ctx, eng))
    for label, f, outs in runs:
        for s, v in outs or ():
            failed = None
            later = []
            for e in s.events():
                if e.kind == "gitfail" and not is_probe(e):
                    failed = failed or e
                elif failed is not None and e.kind == "git" and is_write(e):
                    later.append(e)
            if failed is None:
                continue
            count += 1
            if not isinstance(v, Exc):
                ctx.bad("failure-raises", f"{label}:{failed.name}",
                        f"succeeds although git {failed.name} failed", failed.loc or line(f), s)
            elif later:
                ctx.bad("failure-stops", f"{label}:{later[0].name}",
                        f"git {later[0].name} is run although git {failed.name} failed before", later[0].loc, s)
            else:
                ctx.ok("failure-raises", label, f"failure of git {failed.name}")
    if count < 15:
        raise BrokenAnchor(f"only {count} failing commands analysed")


def check_c19(ctx):
    ctx.rule("every process is started from a list of arguments, without a shell; text that comes from callers is never "
             "split or quoted into a command line")
    p = ctx.p
    eng = ctx.engine({}, assert_raises=False)
    runs = [(l, f, o) for l, f, o, _, _ in object_runs(ctx, eng)]
    eng.hooks.pop(".write_out", None)
    runs += list(other_runs(ctx, eng))
    count = 0
    quoting = ("shlex.quote", "shlex.split", "shlex.join", "pipes.quote")
    for label, f, outs in runs:
        for s, v in outs or ():
            for e in s.events():
                if e.kind == "call" and isinstance(e.name, str) and e.name in (
                        "os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput",
                        "asyncio.create_subprocess_shell"):
                    ctx.bad("no-shell", label, f"{e.name} runs a shell", e.loc, s)
                if e.kind not in ("git", "proc"):
                    continue
                count += 1
                terms = list(e.args)
                if e.kind == "git":
                    terms.append(e.recv)
                    if e.extra.get("stdin") is not None:
                        pass
                wrapped = [x for t in terms for x in subterms(t)
                           if isinstance(x, T) and x.op == "call" and x.args[0] in quoting
                           and any(isinstance(y, T) and y.op == "sym" for a in x.args[1:] for y in subterms(a))]
                argv = e.args[0] if e.kind == "proc" and e.args else None
                if e.extra.get("shell") not in (FALSE, NONE, None):
                    if isinstance(e.extra["shell"], Const):
                        ctx.bad("no-shell", label, "the command is run by a shell", e.loc, s)
                    else:
                        ctx.unknown("no-shell", label, f"shell={e.extra['shell']!r}")
                elif wrapped:
                    ctx.bad("no-splitting", label, f"arguments are quoted or split: {wrapped[0]!r}", e.loc, s)
                elif e.kind == "proc" and argv is not None and not e.extra.get("list") and (
                        eng.typeof(s, argv) == "str" or isinstance(argv, T) and argv.op in ("concat", "fstr")):
                    ctx.bad("no-shell", label, "the command line is a single text", e.loc, s)
                elif e.kind == "proc" and shell_list(s, argv):
                    ctx.bad("no-shell", label, "the command is run by a shell", e.loc, s)
                else:
                    ctx.ok("no-shell", label, f"git {e.name}")
    for f in backend_functions(ctx):
        st = start(ctx, eng)
        args = params(ctx, st, f)
        st.facts[T("is_remote", args[0])] = False
        for s, v in ctx.run(eng, st, f, None, args) or ():
            for e in git_events(s):
                for a in args[1:]:
                    if st.types.get(a) != "str":
                        continue
                    for x in e.args:
                        if x == a or not contains(x, a):
                            continue
                        ok = isinstance(x, T) and x.op == "concat" and all(
                            y in args or isinstance(y, Const) and not any(c.isspace() or c in "'\"" for c in str(y.v))
                            for y in x.args)
                        if isinstance(x, T) and x.op == "concat" and not ok and all(
                                y in args or isinstance(y, Const) for y in x.args):
                            ctx.bad("no-splitting", f.name, f"{a!r} is embedded in the argument {x!r}", e.loc, s)
                        else:
                            ctx.ok("no-splitting", f.name)
    if count < 30:
        raise BrokenAnchor(f"only {count} processes analysed")


def shell_list(s, argv):
    vals = None
    if isinstance(argv, Tup):
        vals = argv.items
    elif isinstance(argv, T) and argv.op == "fz":
        vals = [x.args[0] for x in argv.args[1:]]
    return bool(vals) and isinstance(vals[0], Const) and str(vals[0].v).split("/")[-1] in ("sh", "bash", "dash") \
        and Const("-c") in vals[1:3]


# -- C17 ------------------------------------------------------------------------
def check_c17(ctx):
    ctx.rule("write_out to a remote realm raises if there is something to write, and no git command that writes gets a "
             "remote realm as its repository")
    ctx.rule("reading from a remote realm reads from a local cache of exactly this remote; a named reference is fetched, "
             "with force and under its own name, before every read; an object is fetched unless the cache has it")
    p = ctx.p
    count = 0
    for remote in REMOTES:
        R = Const(remote)
        eng = ctx.engine({}, assert_raises=False)
        st0 = start(ctx, eng)
        targets = []
        for cls in concrete_mappable(p):
            for s, sh in shapes(ctx, eng, st0, cls):
                targets.append((cls, s, sh.obj, sh))
                if p.is_subclass(cls, "MTreeNode"):
                    leaf = "FileTree" if "Metadata)" in sh.label else "DatasetTree"
                    s2 = s.copy()
                    targets.append((p.cls(leaf), s2, ctx.obj(s2, leaf, mtree=sh.obj), sh))
                break
        for cls, s0, obj, sh in targets:
            for saved_on in ((), (R,)):
                for explicit in (True, False):
                    s = s0.copy()
                    saved(ctx, s, sh.obj, D)
                    attrs = s.update(sh.obj).attrs
                    attrs["saved_on"] = explicit_set(s, saved_on)
                    attrs["realm"] = D if explicit else R
                    eng = ctx.engine({}, assert_raises=False)
                    status = lambda e, st, r, a, k, n: None if r == sh.obj else [(st, TRUE)]
                    eng.hooks[".is_saved_on"] = status
                    writer = child_writer(ctx, None, False)
                    own = {obj, sh.obj}
                    eng.hooks[".write_out"] = lambda e, st, r, a, k, n: None if r in own else writer(e, st, r, a, k, n)
                    f = p.find_method(cls, "write_out")
                    for s2, v in ctx.run(eng, s, f, obj, [R] if explicit else []) or ():
                        count += 1
                        bad = [e for e in git_events(s2) if is_write(e) and remote_repo(e.recv)]
                        where = f"{cls.name}.write_out"
                        if bad:
                            ctx.bad("remote-not-written", where, f"runs git {bad[0].name} on the remote realm "
                                    f"{remote}", bad[0].loc, s2)
                        elif not isinstance(v, Exc) and not saved_on:
                            ctx.bad("remote-refused", where, f"does not raise for the remote realm {remote}",
                                    line(f), s2)
                        else:
                            ctx.ok("remote-not-written", where, remote)
    count += remote_reads(ctx)
    if count < 20:
        raise BrokenAnchor("remote realms not analysed")


def remote_repo(repo):
    """The repository is a remote one (and no cache directory with a name that is derived from a remote)."""
    while isinstance(repo, T) and repo.op in ("concat", "gitdir", "str", "path", "div") and repo.args:
        repo = repo.args[0]
    return isinstance(repo, Const) and isinstance(repo.v, str) and repo.v.startswith(REMOTE_PREFIXES)


REMOTE_PREFIXES = ("git@", "git:", "http:", "https:", "ssh:")
REMOTES = ("https://host.org/a", "ssh://host.org/a", "https://host.org/a/", "https://host.org/b/a", "http://host.org/a",
           "https://host.org/A", "https://HOST.org/A/b", "https://host.org/A/B", "https://host.org/a_b", "https://host.org/a/b",
           "https://host.org/a%20b", "https://host.org/a b", "https://host.org/a+b", "https://host.org/a?b", "https://host.org/a#b",
           "https://host.org/a.git", "https://other.org/a", "https://host.org:8080/a", "https://user@host.org/a", "https://other@host.org/a", "ssh://user@host.org/a", "ssh://git@host.org:a",
           "git@host.org:a", "git@host.org:/a", "git://host.org/a", "https://host.org/\u00e4", "https://host.org/a\u0308",
           *("https://host.org/" + "long/" * 60 + x for x in "abcdefghijklmnop"))
NAMED = "refs/datalad/some-reference"


def remote_reads(ctx):
    p = ctx.p
    m = p.module(SUBPROCESS)
    count = 0
    caches = {}
    for name in ("git_load_str", "git_load_json", "git_read_tree_node", "git_ls_tree", "git_ls_tree_recursive"):
        f = m.functions.get(name)
        if f is None:
            continue
        for remote in REMOTES if name == "git_load_str" else REMOTES[:4]:
            for ref in (NAMED, HEX):
                eng = ctx.engine({}, assert_raises=False)
                eng.git_may_fail = lambda sub, st: sub == "cat-file"
                st = start(ctx, eng)
                for s, v in ctx.run(eng, st, f, None, [Const(remote), Const(ref)]) or ():
                    if isinstance(v, Exc):
                        continue
                    count += 1
                    events = git_events(s)
                    reads = [i for i, e in enumerate(events) if not is_write(e) and not is_probe(e)]
                    if not reads:
                        ctx.unknown("remote-read", name, "no git command that reads")
                        continue
                    i = reads[-1]
                    repo = plain(events[i].recv)
                    where = name
                    if remote_repo(events[i].recv):
                        ctx.bad("remote-read", where, f"git {events[i].name} is run on the remote realm",
                                events[i].loc, s)
                        continue
                    caches.setdefault(repo, set()).add(remote)
                    probes = [e for e in events[:i] if is_probe(e) and plain(e.recv) == repo]
                    fetches = [e for e in events[:i] if e.name == "fetch" and plain(e.recv) == repo]
                    failed = {(e.name, e.args) for e in git_events(s, "gitfail")}
                    spec = [t for e in fetches for t in fetch_specs(e, remote)]
                    force = any(Const(x) in e.args for e in fetches for x in ("-f", "--force"))
                    if ref == NAMED:
                        match = [t for t in spec if t.lstrip("+") == f"{ref}:{ref}"]
                        if not match:
                            if all(t is not None for t in spec):
                                ctx.bad("remote-refresh", where, f"reads {ref} from the cache without fetching it "
                                        "under this name", events[i].loc, s)
                            else:
                                ctx.unknown("remote-refresh", where, f"{spec!r}")
                        elif not force and not match[0].startswith("+"):
                            ctx.bad("remote-refresh", where, "references are fetched without force, updates that are "
                                    "no fast-forwards are rejected", fetches[0].loc, s)
                        else:
                            ctx.ok("remote-refresh", where, ref)
                    else:
                        present = any((e.name, e.args) not in failed for e in probes)
                        ctx.check(present or any(t.split(":")[0].lstrip("+") == ref for t in spec),
                                  "remote-fetch", where, "reads an object that was not fetched and that was not found "
                                  "in the cache", events[i].loc, s)
    for repo, remotes in caches.items():
        ctx.check(len(remotes) == 1, "remote-cache", "cache of a remote",
                  f"{sorted(remotes)} share one cache", None)
    return count


def fetch_specs(e, remote):
    args = list(e.args)
    if Const(remote) not in args:
        return []
    rest = [a for a in args[args.index(Const(remote)) + 1:] if not (isinstance(a, Const) and a.v.startswith("-"))]
    return [a.v for a in rest if isinstance(a, Const) and isinstance(a.v, str)]


# -- C14 ------------------------------------------------------------------------
ROOTS = ("TreeVersionList", "UUIDSet")


def root_names(ctx):
    """Names of the root references, as they are used for loading."""
    p = ctx.p
    f = p.function("common", "get_top_level_metadata_objects")
    eng = ctx.engine({"MappableObject.read_in": lambda e, st, r, a, k, n: [(st, r)]}, assert_raises=False)
    st = start(ctx, eng)
    names = {}
    for s, v in ctx.run(eng, st, f, None, [Const("git"), D]) or ():
        if not isinstance(v, Tup):
            continue
        for o in v.items:
            if isinstance(o, O) and isinstance(s.h(o).attrs.get("reference"), O):
                ref = s.h(o).attrs["reference"]
                names.setdefault(s.h(o).cls.name, set()).add(s.h(ref).attrs["location"])
    return names


def check_c14(ctx):
    ctx.rule("saving a tree version list or UUID set updates exactly the reference that the top-level loader reads, "
             "once, with the returned location, after all other writes; saving anything else updates no reference")
    p = ctx.p
    names = root_names(ctx)
    for cls in ROOTS:
        if cls not in names or len(names[cls]) != 1 or not isinstance(next(iter(names[cls])), Const):
            raise BrokenAnchor(f"reference of {cls} is not known: {names!r}")
    root = {c: next(iter(n)) for c, n in names.items()}
    ctx.check(len(set(root.values())) == len(root), "root-names", "top-level references",
              "two top-level objects use the same reference")
    count = 0
    for fails in (False, True):
        eng = ctx.engine({}, assert_raises=False)
        if fails:
            eng.git_may_fail = git_fails
        for label, f, outs, sh, cls in object_runs(ctx, eng):
            if sh is None:
                continue
            for s, ref in outs or ():
                events = [e for e in s.events() if e.kind in ("git", "gitfail", "childwrite")]
                updates = [e for e in events if e.kind == "git" and e.name in ("update-ref", "symbolic-ref", "push", "tag",
                                                                              "branch", "commit", "reset")]
                count += 1
                if cls.name not in root:
                    ctx.check(not updates, "no-reference", label,
                              f"updates the reference {updates[0].args[0]!r}" if updates else "",
                              updates[0].loc if updates else None, s)
                    continue
                if isinstance(ref, Exc):
                    if any(e.kind == "gitfail" and e.name != "update-ref" for e in events):
                        ctx.check(not updates, "not-after-failure", label,
                                  "the reference is updated although a write failed", updates[0].loc if updates else None, s)
                    continue
                if fails:
                    continue
                if not updates:
                    ctx.bad("published", label, f"{root[cls.name].v} is not updated", line(f), s)
                    continue
                e = updates[-1]
                wrong = [u for u in updates if u.args[:1] != (root[cls.name],)]
                args = tuple(a for a in e.args if not (isinstance(a, Const) and str(a.v).startswith("-")))
                if wrong and isinstance(wrong[0].args[0], Const):
                    ctx.bad("published", label, f"updates {wrong[0].args[0]!r}, {root[cls.name]!r} is loaded",
                            wrong[0].loc, s)
                    continue
                i = events.index(updates[0])
                late = [x for x in events[i + 1:] if x.kind == "childwrite" or x.kind == "git" and x not in updates
                        and is_write(x)]
                if late:
                    ctx.bad("published-last", label, f"{late[0].kind} {late[0].name} follows the update of the reference",
                            late[0].loc, s)
                    continue
                ctx.check(plain(e.recv) == D, "published", label,
                          f"the reference is updated in {e.recv!r}, not on the destination", e.loc, s)
                if isinstance(ref, O):
                    got = s.h(ref).attrs.get("location")
                    ctx.check(len(args) > 1 and (args[1] == got), "published", label,
                              f"the reference is set to {args[1:2]!r}, the saved object is {got!r}", e.loc, s)
    if count < 10:
        raise BrokenAnchor("no save analysed")


# -- C15 ------------------------------------------------------------------------
def registered(s, eng, loc):
    """Entries of global containers that hold the location."""
    def contains(x, loc):
        return loc in outer_ids(x) or loc in shallow(x)

    res = []
    for key, v in s.glob.items():
        if isinstance(v, O) and v in s.heap and s.h(v).kind in ("set", "dict", "list"):
            for seg in s.h(v).segs:
                x = seg[0]
                if isinstance(x, (T, Tup, Const)) and contains(x, loc):
                    res.append(x)
                elif isinstance(x, O) and contains(eng.freeze(s, x), loc):
                    res.append(eng.freeze(s, x))
                elif s.h(v).kind == "dict" and isinstance(seg[1], (T, Tup, Const)) and contains(seg[1], loc):
                    res.append(Tup((x, seg[1])))
                elif s.h(v).kind == "dict" and isinstance(seg[1], O) and contains(eng.freeze(s, seg[1]), loc):
                    res.append(eng.freeze(s, seg[1]))
    return res


def shallow(x):
    """Values in an entry, without the ones that an object id is made of."""
    todo, res = [x], []
    while todo:
        x = todo.pop()
        res.append(x)
        if isinstance(x, T) and x.op not in ("objid", "loc"):
            todo.extend(a for a in x.args if not isinstance(a, (str, int)))
        elif isinstance(x, Tup):
            todo.extend(x.items)
    return res


def entry_kinds(entries):
    return {t.args[1] for x in entries for t in subterms(x) if isinstance(t, T) and t.op == "enum"}


def global_writer(ctx, kids, on_tree):
    """write_out of sub-objects; proxies register their tree if their write_out does that."""
    inner = child_writer(ctx, None, False)
    return inner


def proxies_register(ctx):
    """Classes of trees that register the trees they write."""
    p = ctx.p
    res = {}
    for cls in p.concrete_subclasses("MTreeProxy"):
        def node_out(eng, st, recv, args, kw, node):
            out = []
            for none in (False, True):
                s = st.copy()
                loc = NONE_LOCATION if none else sym(s, "tree_location", "str", True)
                if not none:
                    s.facts[eng.eq_term(loc, NONE_LOCATION)] = False
                ref = ctx.obj(s, "Reference", "written", opaque=False, class_name=Const("MTreeNode"), location=loc)
                if isinstance(recv, O):
                    s.update(recv).attrs["reference"] = ref
                out.append((s, ref))
            return out

        eng = ctx.engine({"MappableObject.write_out": node_out}, assert_raises=False)
        eng.opaque_globals = False
        st = start(ctx, eng)
        o = proxy(ctx, st, cls.name, cls.name, TRUE)
        f = p.find_method(cls, "write_out")
        good = None
        for s, v in ctx.run(eng, st, f, o, [D]) or ():
            if isinstance(v, Exc) or not isinstance(v, O):
                continue
            loc = s.h(v).attrs["location"]
            if loc == NONE_LOCATION:
                ctx.check(not registered(s, eng, loc), "no-none-marker", f"{cls.name}.write_out",
                          "the marker of empty objects is registered as an object", line(f), s)
                continue
            entries = registered(s, eng, loc)
            ok = bool(entries) and entry_kinds(entries) <= {"Directory"}
            good = ok if good is None else good and ok
        res[cls.name] = good
    return res


def check_c15(ctx):
    ctx.rule("every object id that is written into the text of a blob is in the object references (trees as "
             "directories, blobs as files) when the save returns; ids in trees are reachable through the tree")
    p = ctx.p
    own = proxies_register(ctx)
    for name, good in own.items():
        if good is None:
            ctx.unknown("proxies", name, "write_out not analysed")
    count = 0
    eng = ctx.engine({".cache_blob": hook_cache_blob}, assert_raises=False)
    eng.opaque_globals = False
    cached = ctx.engine({".cache_blob": hook_cache_blob, ".get_cache": hook_get_cache(ctx)}, assert_raises=False)
    cached.opaque_globals = False
    for e in (eng, cached):
        for label, f, outs, sh, cls in object_runs(ctx, e):
            if sh is None:
                continue
            for s, ref in outs or ():
                if not isinstance(ref, O):
                    continue
                child = {}
                for c in sh.children:
                    child[child_location(c)] = c
                texts = [x.extra.get("stdin") for x in git_events(s)
                         if x.name == "hash-object" and Const("--stdin-paths") not in x.args]
                texts += [x.args[0] for x in s.events() if x.kind == "cacheblob"]
                for text in texts:
                    ids = [x for x in outer_ids(text) if x != NONE_LOCATION]
                    for loc in ids:
                        count += 1
                        entries = registered(s, e, loc)
                        tree = isinstance(loc, T) and loc.op == "objid" and loc.args[0] == "tree"
                        c = child.get(loc)
                        if c is not None:
                            tree = stored_name(p, s.h(c).cls) == "MTreeNode"
                        what = f"{s.h(c).cls.name}" if c is not None else "tree" if tree else "blob"
                        where = f"{cls.name}:{what}"
                        if c is not None and p.is_subclass(s.h(c).cls, "MTreeProxy") and own.get(s.h(c).cls.name):
                            ctx.ok("reachable", where, "registered by the tree")
                            continue
                        if c is not None and own.get(s.h(c).cls.name, 1) is None:
                            ctx.unknown("reachable", where, "write_out of the sub-object")
                            continue
                        if not entries:
                            ctx.bad("reachable", where, f"saving a {cls.name} stores the id of a {what} in a text only, "
                                    "it is not added to the object references and subject to garbage collection",
                                    line(f), s)
                            continue
                        kinds = entry_kinds(entries)
                        want = "Directory" if tree else "File"
                        ctx.check(not kinds or want in kinds and len(kinds) == 1, "kind", where,
                                  f"the {what} is registered as {sorted(kinds)}", line(f), s)
                # what is stored nowhere must not be registered
                ctx.check(not registered(s, e, NONE_LOCATION), "no-none-marker", label,
                          "the marker of empty objects is registered as an object", line(f), s)
    if count < 4:
        raise BrokenAnchor(f"only {count} ids in texts found")


def outer_ids(text):
    """Ids that are written in a text (not the ones in the content they stand for)."""
    res = []
    todo = [text]
    while todo:
        x = todo.pop()
        if isinstance(x, T) and x.op in ("objid", "loc"):
            if x not in res:
                res.append(x)
            continue
        if isinstance(x, T):
            todo.extend(a for a in x.args if not isinstance(a, (str, int)))
        elif isinstance(x, Tup):
            todo.extend(x.items)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
    return res


def hook_get_cache(ctx):
    def hook(eng, st, recv, args, kw, node):
        return [(st, ctx.obj(st, "GitBlobCache", "cache", realm=D))]
    return hook


def check_stored_blobs(ctx, rule):
    """Blobs are written, not only hashed, and without content filters."""
    eng = ctx.engine({".cache_blob": hook_cache_blob}, assert_raises=False)
    runs = [(l, f, o) for l, f, o, _, _ in object_runs(ctx, eng)]
    eng = ctx.engine({}, assert_raises=False)
    runs += list(other_runs(ctx, eng))
    for label, f, outs in runs:
        for s, v in outs or ():
            for e in git_events(s):
                if e.name != "hash-object":
                    continue
                flags = [a.v for a in e.args if isinstance(a, Const)]
                if len(flags) != len(e.args):
                    ctx.unknown(rule, label, f"{e.args!r}")
                elif "-w" not in flags:
                    ctx.bad(rule, label, "git hash-object calculates an id, but stores nothing (no -w)", e.loc, s)
                elif ("--stdin-paths" in flags or any(x.startswith("--path") for x in flags)) \
                        and "--no-filters" not in flags:
                    ctx.bad(rule, label, "the stored content is changed by the filters of the repository "
                            "(no --no-filters)", e.loc, s)
                else:
                    ctx.ok(rule, label)
