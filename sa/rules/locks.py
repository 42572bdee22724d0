"""Rules about the write lock, the write cache and the store of object references."""
import hashlib

from ..model import *
from ..scenario import probes, scenario
from ..shapes import explicit_list, proxy
from .state import D
from .protocol import E2, start
from .store import git_events, is_write, line, plain
from .updater import const_rows, digest, flatten, store_spec

UTILS = "mapper.gitmapper.utils"
ACQUIRE = ("acquire", "__enter__", "acquire_write_lock")
RELEASE = ("release", "__exit__", "release_write_lock")


def realm_path(st, name):
    r = T("sym", name)
    st.types[r] = "=Path"
    return r


def lock_events(s, realms):
    """(operation, realm or None, event) for all operations on lock objects."""
    for e in s.events():
        if e.kind != "call" or e.name not in ACQUIRE + RELEASE or not is_lock(e.recv):
            continue
        hit = [r for r in realms if contains(e.recv, r)]
        yield ("acquire" if e.name in ACQUIRE else "release", hit[0] if len(hit) == 1 else None, e)


def is_lock(t):
    return any(isinstance(x, T) and x.op in ("call", "ext") and isinstance(x.args[0], str)
               and "lock" in x.args[0].lower() for x in subterms(t))


def hook_acquire(mode):
    """mode: "ok", "fail" (raises), "times out" (returns False if it does not block forever)."""
    def hook(eng, st, recv, args, kw, node):
        if not is_lock(recv):
            return None
        st.emit(Ev("call", "acquire", recv, tuple(args), eng.loc(st, node), extra=dict(kw)))
        blocking = arg(args, kw, 0, "blocking")
        limited = blocking == FALSE or kw.get("timeout") not in (None, NONE)
        if mode == "fail":
            s2 = st.copy()
            return [(s2, Exc("OSError", None, eng.loc(st, node)))]
        if limited:
            s2 = st.copy()
            s2.glob[("lock", "timeout")] = True
            return [(st, TRUE), (s2, FALSE)]
        return [(st, TRUE)]
    return hook


def check_c13(ctx):
    ctx.rule("for all nestings of locks of two repositories: the lock file of a repository is acquired exactly when the "
             "first lock is taken, released exactly when the last one is given back, also if the locked code raises, "
             "and never touched by operations on another repository")
    p = ctx.p
    m = p.module(UTILS)
    depth = 7 if ctx.tier == "thorough" else 5
    lock, unlock = m.functions.get("lock_backend"), m.functions.get("unlock_backend")
    if lock is None or unlock is None:
        raise BrokenAnchor("lock_backend and unlock_backend not found")
    eng = ctx.engine({".acquire": hook_acquire("ok")}, assert_raises=False)
    eng.opaque_globals = False
    st = ctx.state()
    A, B = realm_path(st, "repository_a"), realm_path(st, "repository_b")
    st.facts[eng.eq_term(A, B)] = False
    names = {A: "a", B: "b"}
    seen = [0, 0]

    def walk(states, held, ops):
        if len(ops) >= depth:
            return
        for f, delta in ((lock, 1), (unlock, -1)):
            for r in (A, B):
                # the second repository is used after the first one, the rest is symmetric
                if held[r] + delta < 0 or (r == B and not ops):
                    continue
                label = ops + (("lock " if delta > 0 else "unlock ") + names[r],)
                nxt = []
                for s0 in states:
                    s = s0.copy()
                    base = s.nev
                    for s2, v in ctx.run(eng, s, f, None, [r]) or ():
                        if isinstance(v, Exc):
                            if v.kind != "AssertionError":
                                ctx.bad("lock-works", f.name, f"raises {v!r} ({', '.join(label)})", v.loc, s2)
                            continue
                        if s2.glob.get(("lock", "timeout")):
                            ctx.bad("lock-held", f.name, "returns although the lock was not acquired", line(f), s2)
                            continue
                        ops2 = list(lock_events_since(s2, base, (A, B)))
                        seen[0] += len(ops2)
                        want = [("acquire", r)] if delta > 0 and held[r] == 0 else \
                            [("release", r)] if delta < 0 and held[r] == 1 else []
                        got = [(o, x) for o, x, _ in ops2]
                        seen[1] += 1
                        if got != want:
                            if any(x is None for _, x in got):
                                if lock_is_shared(ops2):
                                    ctx.bad("lock-per-repository", f.name, "the lock file does not depend on the "
                                            "repository", ops2[0][2].loc, s2)
                                else:
                                    ctx.unknown("lock-nesting", f.name, "lock object not identified")
                                continue
                            shown = [f"{o} {names[x]}" for o, x in got] or "no lock operation"
                            expected = [f"{o} {names[x]}" for o, x in want] or "no lock operation"
                            ctx.bad("lock-nesting", f.name, f"{', '.join(label)}: {shown}, expected {expected}",
                                    ops2[0][2].loc if ops2 else line(f), s2)
                            continue
                        ctx.ok("lock-nesting", f.name, ", ".join(label))
                        nxt.append(s2)
                if nxt:
                    walk(nxt[:2], {**held, r: held[r] + delta}, label)

    walk([st], {A: 0, B: 0}, ())
    if not seen[0] and seen[1]:
        ctx.unknown("lock-nesting", "lock_backend", "no operation on a lock seen")
    check_lock_failure(ctx)
    check_locked_context(ctx)
    check_locked_flush(ctx)


def lock_events_since(s, base, realms):
    new = {id(e) for e in list(s.events())[base:]}
    for o, r, e in lock_events(s, realms):
        if id(e) in new:
            yield o, r, e


def lock_is_shared(ops):
    return all(not any(isinstance(x, T) and x.op == "sym" for x in subterms(e.recv)) for _, _, e in ops)


def check_lock_failure(ctx):
    """A lock that could not be acquired is not held."""
    f = scenario('''
        def scenario(a):
            try:
                lock_backend(a)
            except OSError:
                pass
            probes.again()
            lock_backend(a)
    ''', "lock")
    tries = []

    def hook(eng, st, recv, args, kw, node):
        if not is_lock(recv):
            return None
        n = st.glob.get(("lock", "tries"), 0)
        st.glob[("lock", "tries")] = n + 1
        return hook_acquire("ok" if n else "fail")(eng, st, recv, args, kw, node)

    eng = ctx.engine({".acquire": hook}, assert_raises=False)
    eng.opaque_globals = False
    st = ctx.state()
    A = realm_path(st, "repository_a")
    for s, v in ctx.run(eng, st, f, None, [A]) or ():
        if isinstance(v, Exc) or s.glob.get(("lock", "tries"), 0) == 0:
            continue
        ctx.check(s.glob[("lock", "tries")] == 2, "lock-failure", "lock_backend",
                  "after a failure to acquire the lock, it is regarded as held", None, s)


def check_locked_context(ctx):
    """locked_backend holds the lock in its body and releases it on all exits."""
    cases = (
        ("normal end", "with locked_backend(a):\n    probes.body()\nprobes.after()"),
        ("exception", "with locked_backend(a):\n    probes.body()\n    raise KeyError('x')\nprobes.after()"),
        ("caught exception", "try:\n    with locked_backend(a):\n        probes.body()\n        raise KeyError('x')\n"
                             "except KeyError:\n    pass\nprobes.after()"),
        ("return", "with locked_backend(a):\n    probes.body()\n    return 1\nprobes.after()"),
        ("break", "for x in (1, 2):\n    with locked_backend(a):\n        probes.body()\n        break\nprobes.after()"),
        ("nested", "with locked_backend(a):\n    with locked_backend(a):\n        pass\n    probes.body()\nprobes.after()"),
        ("nested exception", "with locked_backend(a):\n    try:\n        with locked_backend(a):\n            raise KeyError()\n"
                             "    except KeyError:\n        pass\n    probes.body()\nprobes.after()"),
        ("two repositories", "with locked_backend(a):\n    with locked_backend(b):\n        pass\n    probes.body()\n"
                             "probes.after()"),
    )
    for label, body in cases:
        f = scenario("def scenario(a, b):\n" + "\n".join("    " + x for x in body.splitlines()), "lock")
        eng = ctx.engine({".acquire": hook_acquire("ok")}, assert_raises=False)
        eng.opaque_globals = False
        st = ctx.state()
        A, B = realm_path(st, "repository_a"), realm_path(st, "repository_b")
        st.facts[eng.eq_term(A, B)] = False
        for s, v in ctx.run(eng, st, f, None, [A, B]) or ():
            if isinstance(v, Exc) and v.kind == "AssertionError":
                continue
            held = {A: 0, B: 0}
            bad = unknown = None
            ops = {id(e): (o, r) for o, r, e in lock_events(s, (A, B))}
            for e in s.events():
                if id(e) in ops:
                    o, r = ops[id(e)]
                    if r is None:
                        unknown = "lock object not identified"
                        break
                    held[r] += 1 if o == "acquire" else -1
                elif e.kind == "call" and e.name == "probes.body" and held[A] != 1:
                    bad = bad or "the lock is not held in the locked block"
            if unknown or not ops:
                ctx.unknown("locked-block", "locked_backend", unknown or "no operation on a lock seen")
                continue
            if not bad and (held[A] or held[B]):
                bad = "the lock is still held after the locked block"
            ctx.check(not bad, "locked-block", "locked_backend", f"{label}: {bad}", None, s, label)


STORE_REF = "refs/datalad/object-references-2.0"
LEGACY = {"refs/datalad/object-references/trees": "T", "refs/datalad/object-references/blobs": "B"}


class Store:
    """Constant trees and references of a repository; git commands that use them."""

    def __init__(self, tree=None, legacy=None):
        self.trees = {}
        self.refs = {}
        if tree is not None:
            self.refs[STORE_REF] = store_spec(tree, self.trees)
        for name, entries in (legacy or {}).items():
            rows = tuple(("040000" if k == "T" else "100644", "tree" if k == "T" else "blob", h, h) for k, h in entries)
            self.refs[name] = digest(f"legacy {name} {rows!r}")
            self.trees[self.refs[name]] = rows

    def hooks(self, fail=()):
        """Hooks for the functions of the backend; fail: commands that may fail."""
        def may_fail(eng, st, name, recv, args, node, possible=True):
            st.emit(Ev("git", name, recv, args, eng.loc(st, node), extra={}))
            if name not in fail or not possible:
                return []
            s = st.copy()
            s.emit(Ev("gitfail", name, recv, args, eng.loc(st, node)))
            return [(s, Exc("RuntimeError", None, eng.loc(st, node)))]

        def current(st, repo, ref):
            return st.glob.get(("ref", repo, ref), self.refs.get(ref))

        def read(eng, st, recv, args, kw, node):
            repo, h = plain(arg(args, kw, 0, "repo_dir")), arg(args, kw, 1, "object_reference")
            if not isinstance(h, Const):
                return None
            known = h.v not in LEGACY and (not h.v.startswith("refs/") or current(st, repo, h.v))
            bad = may_fail(eng, st, "ls-tree", repo, (h,), node, known)
            trees = {**self.trees, **st.glob.get(("trees",), {})}
            k = current(st, repo, h.v) if h.v.startswith("refs/") else h.v
            if k not in trees:
                return [(st, Exc("RuntimeError", None, eng.loc(st, node)))]
            return bad + [(st, explicit_list(st, [Const(f"{m} {t} {i}\t{n}") for m, t, i, n in trees[k]]))]

        def save(eng, st, recv, args, kw, node):
            rows = const_rows(st, arg(args, kw, 1, "entry_set"))
            if rows is None:
                return None
            repo = plain(arg(args, kw, 0, "repo_dir"))
            bad = may_fail(eng, st, "mktree", repo, (), node)
            h = digest("new" + repr(rows))
            st.glob[("trees",)] = {**st.glob.get(("trees",), {}), h: tuple(rows)}
            return bad + [(st, Const(h))]

        def update(eng, st, recv, args, kw, node):
            repo, ref, h = (plain(arg(args, kw, i, n)) for i, n in enumerate(("repo_dir", "ref_name", "location")))
            if not isinstance(ref, Const) or not isinstance(h, Const):
                return None
            bad = may_fail(eng, st, "update-ref", repo, (ref, h), node)
            st.glob[("ref", repo, ref.v)] = h.v
            return bad + [(st, NONE)]

        def delete(eng, st, recv, args, kw, node):
            repo, ref = (plain(arg(args, kw, i, n)) for i, n in enumerate(("repo_dir", "ref_name")))
            if not isinstance(ref, Const):
                return None
            bad = may_fail(eng, st, "update-ref -d", repo, (ref,), node)
            st.glob[("ref", repo, ref.v)] = ""
            return bad + [(st, NONE)]

        def run(eng, st, recv, args, kw, node):
            sub, repo, rest, _ = eng.parse_argv(st, arg(args, kw, 0, "args"))
            names = [a.v for a in rest or () if isinstance(a, Const) and str(a.v).startswith("refs/")]
            if sub not in ("rev-parse", "show-ref", "for-each-ref", "cat-file") or len(names) != 1:
                return None
            if sub == "cat-file" and Const("-e") not in rest:
                return None
            h = current(st, plain(repo), names[0])
            out = {"rev-parse": f"{h}\n", "cat-file": "", "show-ref": f"{h} {names[0]}\n"}.get(
                sub, f"{names[0]}\n" if Const("--format=%(refname)") in rest else f"{h} tree\t{names[0]}\n") if h else ""
            text = any(k in kw and kw[k] not in (FALSE, NONE) for k in ("text", "universal_newlines", "encoding"))
            code = 0 if h or sub == "for-each-ref" else 1
            st.emit(Ev("git", sub, plain(repo), tuple(rest), eng.loc(st, node), extra={"stdin": None}))
            o = st.alloc(HObj("inst", cls=eng.p.cls("Reference"), attrs={
                "returncode": Const(code), "stdout": Const(out if text else out.encode()),
                "stderr": Const("" if text else b"")}), "process")
            return [(st, o)]

        return {"ext subprocess.run": run, "git_read_tree_node": read, "git_ls_tree": read, "git_save_tree_node": save, "git_save_tree": save,
                "git_update_ref": update, "git_delete_ref": delete, ".acquire": hook_acquire("ok")}

    def published(self, st, repo):
        """Path -> (kind, id) of the published tree; None if it is unknown."""
        h = st.glob.get(("ref", repo, STORE_REF), self.refs.get(STORE_REF))
        if h is None:
            return {}
        trees = {**self.trees, **st.glob.get(("trees",), {})}
        return flatten(trees, h) if h in trees else None


def start_at(ctx, eng, *names):
    st = ctx.state()
    realms = [realm_path(st, n) for n in names]
    for i, r in enumerate(realms):
        st.facts[T("is_remote", T("str", r))] = st.facts[T("is_remote", r)] = False
        for q in realms[:i]:
            st.facts[eng.eq_term(r, q)] = False
    return st, realms


def check_locked_flush(ctx):
    """The store of object references is read, extended and published under the lock."""
    f = scenario('''
        def scenario(a):
            add_tree_reference("0123456789012345678901234567890123456789")
            flush_object_references(a)
    ''', "references")
    for tree in (None, {"abc": {"def": {"012": {"x": "T"}}}}):
        for fails in ((), ("mktree",), ("update-ref",), ("ls-tree",)):
            eng = ctx.engine(Store(tree).hooks(fails), assert_raises=False)
            eng.opaque_globals = False
            st, (A,) = start_at(ctx, eng, "repository_a")
            for s, v in ctx.run(eng, st, f, None, [A]) or ():
                if isinstance(v, Exc) and v.kind == "AssertionError":
                    continue
                locked_flush(ctx, s, v, A)


def locked_flush(ctx, s, v, A):
    ops = {id(e): o for o, r, e in lock_events(s, (A,))}
    events = [e for e in s.events() if id(e) in ops or e.kind == "git"]
    update = [i for i, e in enumerate(events) if e.kind == "git" and e.name == "update-ref"
              and e.args[:1] == (Const(STORE_REF),)]
    read = [i for i, e in enumerate(events) if e.kind == "git" and not is_write(e) and Const(STORE_REF) in e.args]
    level = 0
    levels = []
    for e in events:
        level += {"acquire": 1, "release": -1}.get(ops.get(id(e)), 0)
        levels.append(level)
    where = "flush_object_references"
    if not ops:
        if update:
            ctx.bad("locked-update", where, "the store is updated without the lock", events[update[0]].loc, s)
        return
    if update:
        first = min(read + update)
        held = [levels[i] > 0 for i in range(first, update[-1] + 1)]
        ctx.check(all(held), "locked-update", where, "the lock is not held from reading the store up to its update",
                  events[first].loc, s)
    ctx.check(level == 0, "locked-update", where,
              "the lock is still held after the update" + (" failed" if isinstance(v, Exc) else ""), None, s)


# -- C12 ------------------------------------------------------------------------
DATA = (b"abc\xff\x00\r\n\x85", b"", b"abc")
TEXTS = ("abc", "abd", "", "zwei\nZeilen\n", "äöü ✓", '{"a": "x\\ty"}')


def blob_id(data):
    return hashlib.sha1(b"blob %d\0" % len(data) + data).hexdigest()


def fold_hash(t):
    """Constant value of a hash of constants."""
    if isinstance(t, Const):
        return t.v
    if isinstance(t, T) and t.op == "mcall" and t.args[1] == "hexdigest":
        h = t.args[0]
        if isinstance(h, T) and h.op == "call" and str(h.args[0]).startswith("hashlib.") and len(h.args) == 2 \
                and isinstance(h.args[1], Const) and isinstance(h.args[1].v, bytes):
            try:
                return hashlib.new(h.args[0].split(".")[1], h.args[1].v).hexdigest()
            except ValueError:
                return None
    return None


def written_blobs(s, eng):
    """[(repository, bytes or None, event)] for all objects that git hash-object writes, and what is wrong with it."""
    files, handles, res = {}, {}, []
    for e in s.events():
        if e.kind == "call" and e.name in ("open", "builtins.open"):
            plain_args = [a for a in e.args if not (isinstance(a, T) and a.op == "kw")]
            path, args = (e.recv, plain_args) if e.recv is not None else (plain_args[0], plain_args[1:])
            mode = args[0].v if args and isinstance(args[0], Const) else None
            extra = keywords(e)
            mode = mode if mode is not None else getattr(extra.get("mode"), "v", "r")
            h = {"path": plain(path), "mode": mode, "open": True, "kw": extra}
            handles.setdefault(plain(path), []).append(h)
            if "w" in mode or "x" in mode:
                files[plain(path)] = []
        elif e.kind == "call" and e.name in ("write", "writelines") and isinstance(e.recv, T):
            hs = [h for p, l in handles.items() if contains(e.recv, p) for h in l[-1:]]
            if len(hs) == 1 and e.args:
                files.setdefault(hs[0]["path"], []).append(content_bytes(e.args[0], hs[0]))
        elif e.kind == "call" and e.name in ("write_text", "write_bytes") and e.args:
            extra = keywords(e)
            files[plain(e.recv)] = [content_bytes(e.args[0], {"mode": e.name, "kw": extra})]
        elif e.kind == "call" and e.name in ("__exit__", "close", "flush") and isinstance(e.recv, T):
            for p, l in handles.items():
                if contains(e.recv, p):
                    l[-1]["open"] = False
        elif e.kind == "git" and e.name == "hash-object":
            flags = {a.v for a in e.args if isinstance(a, Const)}
            problem = None
            if "-w" not in flags:
                problem = "git hash-object only calculates the ids (no -w)"
            if "--stdin-paths" in flags:
                if "--no-filters" not in flags:
                    problem = problem or "the content is changed by the filters of the repository (no --no-filters)"
                for path in stdin_lines(s, e):
                    path = plain(path)
                    data = files.get(path)
                    if data is None:
                        res.append((e.recv, None, e, problem))
                        continue
                    if any(h["open"] for h in handles.get(path, ())):
                        problem = problem or "the file is still open, its content may not have been written yet"
                    if WRONG in data:
                        problem = problem or "content of the wrong type is written to a file, this raises TypeError"
                    res.append((e.recv, None if None in data or WRONG in data else b"".join(data), e, problem))
            else:
                res.append((e.recv, content_bytes(e.extra.get("stdin"), {"mode": "b", "kw": {}}), e, problem))
    return res


def keywords(e):
    return {a.args[0]: a.args[1] for a in e.args if isinstance(a, T) and a.op == "kw"}


WRONG = "content of the wrong type"


def as_bytes(content):
    return content.encode() if isinstance(content, str) else content


def content_bytes(v, handle):
    enc = handle["kw"].get("encoding")
    if isinstance(v, Const) and isinstance(v.v, (str, bytes)) and handle["mode"] != "b" \
            and isinstance(handle["mode"], str):
        binary = handle["mode"] != "write_text" and "b" in handle["mode"]
        if binary != isinstance(v.v, bytes):
            return WRONG
    while isinstance(v, T) and v.op == "encode" and len(v.args) == 1:
        v = v.args[0]
    if not isinstance(v, Const) or not isinstance(v.v, (str, bytes)):
        return None
    if isinstance(v.v, bytes):
        return v.v
    text = v.v
    newline = handle["kw"].get("newline")
    if isinstance(newline, Const) and newline.v:
        text = text.replace("\n", newline.v)
    try:
        return text.encode(enc.v if isinstance(enc, Const) and enc.v else "utf-8")
    except (UnicodeError, LookupError):
        return None


def stdin_lines(s, e):
    """Values of the lines of the standard input."""
    v = e.extra.get("stdin")
    while isinstance(v, T) and v.op == "encode":
        v = v.args[0]
    parts = list(v.args) if isinstance(v, T) and v.op == "concat" else [v]
    return [x for x in parts if not (isinstance(x, Const) and str(x.v).strip() == "")]


def check_c12(ctx):
    ctx.rule("every content that is given to the cache is written by git, unchanged, when the cache is full or flushed; "
             "the id that the cache returns is the id that git calculates")
    ctx.rule("a cache that could not be flushed by itself keeps its content, caching of a realm ends with its flush, "
             "successful or not; a realm is not cached twice, content for other realms is refused")
    count = 0
    for n in (1, 2, 4, 6):
        for size in (None, 1, 2, 3, 6, 7):
            texts = TEXTS[:n]
            body = "".join(f"\n    probes.id(c.cache_blob(r, {t!r}))" for t in texts)
            f = scenario(f"def scenario(r):\n    c = GitBlobCache(r{'' if size is None else f', {size}'})" + body
                         + "\n    c.flush()\n    probes.flushed()\n    c.flush()\n    probes.end()", "cache")
            count += cache_run(ctx, f, texts, f"{n} contents, size {size}")
    for texts in [(x,) for x in DATA] + [DATA, ("abc", b"abd", "abe"), (b"abc", "abc"), ("", b"")]:
        for size in (None, 1):
            body = "".join(f"\n    probes.id(c.cache_blob(r, {t!r}))" for t in texts)
            f = scenario(f"def scenario(r):\n    c = GitBlobCache(r{'' if size is None else f', {size}'})" + body
                         + "\n    c.flush()\n    probes.end()", "cache")
            count += cache_run(ctx, f, texts, f"{len(texts)} contents, text and bytes, size {size}")
    for text in TEXTS:
        f = scenario("def scenario(r):\n    MetadataGitMapper.cache_realm(r)\n    c = MetadataGitMapper.get_cache(r)\n"
                     f"    probes.id(c.cache_blob(r, {text!r}))\n    probes.id(c.cache_blob(r, 'second'))\n"
                     "    MetadataGitMapper.flush_realm(r)\n    probes.cache(MetadataGitMapper.get_cache(r))\n"
                     "    MetadataGitMapper.cache_realm(r)\n    MetadataGitMapper.flush_realm(r)\n    probes.end()",
                     "cache")
        count += cache_run(ctx, f, (text, "second"), "realm cache")
    f = scenario("def scenario(r):\n    c = GitBlobCache(r)\n    c.cache_blob(r, 'abc')\n    try:\n        c.flush()\n"
                 "    except RuntimeError:\n        probes.failed()\n    c.flush()\n    probes.end()", "cache")
    count += cache_run(ctx, f, ("abc",), "flush again after a failure", fails=True)
    f = scenario("def scenario(r):\n    c = GitBlobCache(r, 1)\n    c.cache_blob(r, 'abc')\n    try:\n"
                 "        c.cache_blob(r, 'def')\n    except RuntimeError:\n        probes.failed()\n"
                 "        c.cache_blob(r, 'def')\n    c.flush()\n    probes.end()", "cache")
    count += cache_run(ctx, f, ("abc", "def"), "add again after a failure", fails=True)
    # failing flush of a realm
    f = scenario("def scenario(r):\n    MetadataGitMapper.cache_realm(r)\n    MetadataGitMapper.get_cache(r).cache_blob("
                 "r, 'abc')\n    try:\n        MetadataGitMapper.flush_realm(r)\n    except RuntimeError:\n"
                 "        probes.failed()\n        probes.cache(MetadataGitMapper.get_cache(r))\n"
                 "        MetadataGitMapper.cache_realm(r)\n        probes.again()", "cache")
    for s, v in cache_outs(ctx, f, True):
        if probes(s, "failed"):
            count += 1
            ok = probes(s, "again") and all(x == (NONE,) for x in probes(s, "cache"))
            ctx.check(bool(ok), "cache-ends", "MetadataGitMapper.flush_realm",
                      "a realm cannot be cached any more after a failing flush", None, s)
        elif not isinstance(v, Exc) and git_events(s, "gitfail"):
            ctx.bad("cache-failure", "MetadataGitMapper.flush_realm", "a failing flush is not reported", None, s)
    # nested caching, other realms
    f = scenario("def scenario(r, q):\n    MetadataGitMapper.cache_realm(r)\n    c = MetadataGitMapper.get_cache(r)\n"
                 "    c.cache_blob(r, 'abc')\n    try:\n        MetadataGitMapper.cache_realm(r)\n"
                 "        probes.nested()\n    except RuntimeError:\n        pass\n"
                 "    MetadataGitMapper.flush_realm(r)\n    probes.end()", "cache")
    for s, v in cache_outs(ctx, f, False):
        blobs = [b for r, b, e, p in written_blobs(s, None)]
        if isinstance(v, Exc) or None in blobs or not probes(s, "end"):
            continue
        count += 1
        ctx.check(b"abc" in blobs, "cache-nested", "MetadataGitMapper.cache_realm",
                  "caching a realm that is already cached drops the cached content", None, s)
    f = scenario("def scenario(r, q):\n    MetadataGitMapper.cache_realm(r)\n    MetadataGitMapper.cache_realm(q)\n"
                 "    MetadataGitMapper.get_cache(r).cache_blob(r, 'for r')\n"
                 "    MetadataGitMapper.get_cache(q).cache_blob(q, 'for q')\n"
                 "    MetadataGitMapper.flush_realm(r)\n    probes.other(MetadataGitMapper.get_cache(q))\n"
                 "    MetadataGitMapper.flush_realm(q)\n    probes.end()", "cache")
    for s, v in cache_outs(ctx, f, False):
        if isinstance(v, Exc):
            if v.kind != "AssertionError":
                ctx.bad("cache-realms", "MetadataGitMapper", f"caching two realms raises {v!r}", v.loc, s)
            continue
        got = {(plain(r), b) for r, b, e, p in written_blobs(s, None)}
        if any(b is None for _, b in got):
            ctx.unknown("cache-realms", "MetadataGitMapper", "content not known")
            continue
        count += 1
        want = {(D, b"for r"), (E2, b"for q")}
        ctx.check(got == want, "cache-realms", "MetadataGitMapper", f"two realms: {got!r} is written", None, s)
    f = scenario("def scenario(r, q):\n    c = GitBlobCache(r)\n    c.cache_blob(q, 'for q')\n    c.flush()", "cache")
    for s, v in cache_outs(ctx, f, False, True):
        blobs = [(plain(r), b) for r, b, e, p in written_blobs(s, None)]
        count += 1
        ctx.check(not any(b == (D, b"for q") for b in blobs), "cache-realms", "GitBlobCache.cache_blob",
                  "content for one realm is written to another one", None, s)
    if not count:
        raise BrokenAnchor("write cache not analysed")


def cache_outs(ctx, f, fails, assert_raises=False):
    eng = ctx.engine({}, assert_raises=assert_raises)
    eng.opaque_globals = False
    if fails:
        eng.git_may_fail = lambda sub, st: sub == "hash-object" and not any(e.kind == "gitfail" for e in st.events())
    st = start(ctx, eng)
    args = [D, E2][:len(f.node.args.args)]
    return ctx.run(eng, st, f, None, args) or ()


def cache_run(ctx, f, texts, label, fails=False):
    count = 0
    where = "GitBlobCache"
    for s, v in cache_outs(ctx, f, fails):
        if isinstance(v, Exc):
            if v.kind not in ("AssertionError",) and not git_events(s, "gitfail"):
                ctx.bad("cache-works", where, f"{label}: raises {v!r}", v.loc, s)
            continue
        if git_events(s, "gitfail") and not probes(s, "failed"):
            ctx.bad("cache-failure", where, f"{label}: a failing command is not reported",
                    git_events(s, "gitfail")[0].loc, s)
            continue
        count += 1
        for text, (value,) in zip(texts, probes(s, "id")):
            got = fold_hash(value)
            if got is None:
                ctx.unknown("cache-id", where, f"{value!r}")
            else:
                ctx.check(got == blob_id(as_bytes(text)), "cache-id", where,
                          f"the id of {text!r} is not the one that git calculates", None, s)
        for (value,) in probes(s, "cache"):
            ctx.check(value == NONE, "cache-ends", "MetadataGitMapper.flush_realm",
                      "the cache is still active after its flush", None, s)
        blobs = written_blobs(s, None)
        if not blobs:
            ctx.bad("cache-complete", where, f"{label}: nothing is written", None, s)
            continue
        problem = [(p, e) for r, b, e, p in blobs if p]
        if problem:
            ctx.bad("cache-content", where, problem[0][0], problem[0][1].loc, s)
            continue
        # a command that failed wrote nothing
        failed = {(e.name, e.args, repr(e.recv)) for e in git_events(s, "gitfail")}
        got = [b for r, b, e, p in blobs]
        if failed:
            first = blobs[0][2]
            got = [b for r, b, e, p in blobs if e is not first]
        if None in got:
            ctx.unknown("cache-content", where, f"{label}: content not known")
            continue
        want = {as_bytes(t) for t in texts}
        ctx.check(set(got) >= want, "cache-complete", where,
                  f"{label}: {sorted(want - set(got))!r} is never written", blobs[0][2].loc, s, label)
        ctx.check(set(got) <= want, "cache-content", where,
                  f"{label}: {sorted(set(got) - want)!r} is written instead", blobs[0][2].loc, s)
        ctx.check(all(plain(r) == D for r, b, e, p in blobs), "cache-realms", where,
                  "the content is written to another realm", blobs[0][2].loc, s)
    return count


# -- C16 ------------------------------------------------------------------------
def h40(prefix, n):
    return prefix + digest(f"{prefix}{n}")[len(prefix):]


OLD_STORE = {"abc": {"def": {"012": {h40("abcdef012", 1)[9:]: "T"}}, "123": {"456": {h40("abc123456", 1)[9:]: "B"}}},
             "fed": {"cba": {"987": {h40("fedcba987", 1)[9:]: "B", h40("fedcba987", 2)[9:]: "T"}}}}
ADDED = (
    ("one tree", (("T", h40("1", 1)),)),
    ("one blob", (("B", h40("2", 1)),)),
    ("several", (("T", h40("3", 1)), ("B", h40("4", 1)), ("B", h40("5", 1)))),
    ("common prefixes", (("T", h40("7777", 1)), ("B", h40("777777", 2)), ("B", h40("777777777", 3)),
                         ("T", h40("777777777", 4)))),
    ("prefixes of stored ones", (("T", h40("abc", 3)), ("B", h40("abcdef", 4)), ("B", h40("abcdef012", 5)),
                                 ("T", h40("fedcba987", 6)))),
    ("the same twice", (("T", h40("8", 1)), ("T", h40("8", 1)), ("B", h40("9", 1)))),
)
LEGACY_ENTRIES = {
    "refs/datalad/object-references/trees": (("T", h40("1234", 1)), ("T", h40("abcdef", 9))),
    "refs/datalad/object-references/blobs": (("B", h40("1234", 2)),),
}


def adds(entries, indent):
    return "".join(" " * indent + ("add_tree_reference" if k == "T" else "add_blob_reference") + f"({h!r})\n"
                   for k, h in entries)


def ids(found):
    return {v for v in found.values()}


def check_c16(ctx):
    ctx.rule("after a flush the published tree holds all entries it had before, unchanged, and all ids that were "
             "registered or in a legacy store, with their kind, and nothing else; a further flush changes nothing")
    ctx.rule("after a failure the published tree is complete or as before, legacy stores are kept, and a repeated flush "
             "publishes everything; legacy stores are only deleted after their entries were published")
    count = 0
    legacies = ({}, {k: v for k, v in list(LEGACY_ENTRIES.items())[:1]},
                {k: v for k, v in list(LEGACY_ENTRIES.items())[1:]}, LEGACY_ENTRIES)
    for tree in (None, OLD_STORE):
        for legacy in legacies:
            for label, entries in (("nothing", ()),) + ADDED:
                text = f"{label}, {'with' if tree else 'no'} store, {len(legacy)} legacy stores"
                f = scenario("def scenario(a):\n" + adds(entries, 4) + "    flush_object_references(a)\n"
                             "    probes.flushed()\n    flush_object_references(a)\n", "references")
                count += flush_run(ctx, f, tree, legacy, entries, (), text)
    for tree in (None, OLD_STORE):
        for legacy in (legacies[0], legacies[3]):
            for label, entries in ADDED[2:5]:
                for command in ("mktree", "update-ref") + (("ls-tree",) if tree else ()):
                    f = scenario("def scenario(a):\n" + adds(entries, 4) + "    try:\n"
                                 "        flush_object_references(a)\n    except RuntimeError:\n"
                                 "        probes.failed()\n    flush_object_references(a)\n    probes.flushed()\n",
                                 "references")
                    count += flush_run(ctx, f, tree, legacy, entries, (command,), f"{label}, failing {command}")
    f = scenario("def scenario(a):\n" + adds(ADDED[2][1], 4) + "    flush_object_references(a)\n"
                 + adds(ADDED[3][1], 4) + "    flush_object_references(a)\n    probes.flushed()\n", "references")
    count += flush_run(ctx, f, OLD_STORE, {}, ADDED[2][1] + ADDED[3][1], (), "two flushes")
    check_two_realms(ctx)
    if not count:
        raise BrokenAnchor("flush_object_references not analysed")


def flush_run(ctx, f, tree, legacy, entries, fail, label):
    store = Store(tree, legacy)
    hooks = store.hooks(())
    once = store.hooks(fail)
    where = "flush_object_references"
    if fail:
        def failing(name):
            def hook(eng, st, recv, args, kw, node):
                if any(e.kind == "gitfail" for e in st.events()):
                    return hooks[name](eng, st, recv, args, kw, node)
                return once[name](eng, st, recv, args, kw, node)
            return hook
        eng = ctx.engine({k: failing(k) for k in hooks}, assert_raises=False)
    else:
        eng = ctx.engine(hooks, assert_raises=False)
    eng.opaque_globals = False
    st, (A,) = start_at(ctx, eng, "repository_a")
    repo = plain(T("str", A))
    before = store.published(st, repo)
    old_ids = {v for l in legacy.values() for v in l}
    want = ids(before) | set(entries) | old_ids
    count = 0
    for s, v in ctx.run(eng, st, f, None, [A]) or ():
        failed = git_events(s, "gitfail")
        if isinstance(v, Exc):
            if not failed and v.kind != "AssertionError":
                ctx.bad("flush-works", where, f"{label}: raises {v!r}", v.loc, s)
            continue
        if fail and not failed:
            continue
        if failed and not probes(s, "failed"):
            ctx.bad("flush-failure", where, f"{label}: the failure is not reported", failed[0].loc, s)
            continue
        count += 1
        found = store.published(s, repo)
        if found is None:
            ctx.unknown("published", where, f"{label}: published tree not known")
            continue
        got = ids(found)
        lost = sorted(want - got)
        changed = sorted(k for k in before if found.get(k) != before[k])
        extra = sorted(got - want)
        ctx.check(not changed, "published-kept", where, f"{label}: stored entries {changed[:2]!r} are lost or changed",
                  line(f), s)
        ctx.check(not lost, "published", where, f"{label}: {[(k, h[:12]) for k, h in lost[:3]]!r} is not published",
                  line(f), s, label)
        ctx.check(not extra, "published-only", where, f"{label}: {extra[:2]!r} is published, but was not registered",
                  line(f), s)
        # legacy stores are deleted at the end, when everything is published
        for name in legacy:
            deleted = [e for e in git_events(s) if e.name == "update-ref -d" and e.args == (Const(name),)]
            if not deleted:
                if not fail:
                    ctx.bad("legacy-converted", where, f"{label}: {name} is converted, but not deleted", line(f), s)
                continue
            events = list(git_events(s))
            done = [i for i, e in enumerate(events) if e.name == "update-ref" and e.args[0] == Const(STORE_REF)
                    and not any(x.args == e.args and x.name == e.name for x in failed)]
            trees = {**store.trees, **s.glob.get(("trees",), {})}
            published = any(i < events.index(deleted[0]) and set(legacy[name]) <= ids(flatten(trees, events[i].args[1].v))
                            for i in done if events[i].args[1].v in trees)
            ctx.check(published, "legacy-kept", where, f"{label}: {name} is deleted before its entries are published",
                      deleted[0].loc, s)
        if not fail:
            updates = [e for e in git_events(s) if e.name == "update-ref" and e.args[0] == Const(STORE_REF)]
            if not entries and not legacy:
                ctx.check(not updates, "flush-once", where, "the store is updated although nothing is registered",
                          updates[0].loc if updates else None, s)
            elif label != "two flushes":
                ctx.check(len(updates) == 1, "flush-once", where, f"{label}: the store is updated {len(updates)} times",
                          updates[0].loc if updates else None, s)
    return count


def check_two_realms(ctx):
    """What is saved on a realm is published on this realm."""
    p = ctx.p
    cls = p.cls("FileTree")
    f = scenario("def scenario(t, a, b, pa, pb):\n    t.write_out(a)\n    flush_object_references(pb)\n"
                 "    flush_object_references(pa)\n", "references")
    loc = h40("42", 1)

    def node_out(eng, st, recv, args, kw, node):
        ref = ctx.obj(st, "Reference", "written", opaque=False, class_name=Const("MTreeNode"), location=Const(loc))
        if isinstance(recv, O):
            st.update(recv).attrs["reference"] = ref
        return [(st, ref)]

    store = Store()
    eng = ctx.engine({**store.hooks(), "MappableObject.write_out": node_out}, assert_raises=False)
    eng.opaque_globals = False
    st, (PA, PB) = start_at(ctx, eng, "repository_a", "repository_b")
    tree = proxy(ctx, st, cls.name, cls.name, TRUE)
    a, b = T("str", PA), T("str", PB)
    for t in (a, b):
        st.facts[t] = True
    for s, v in ctx.run(eng, st, f, None, [tree, a, b, PA, PB]) or ():
        if isinstance(v, Exc):
            continue
        found = store.published(s, plain(a))
        if found is None:
            ctx.unknown("realms", "flush_object_references", "published tree not known")
            continue
        other = store.published(s, plain(b)) or {}
        ctx.check(("T", loc) in ids(found), "realms", "objectreference.cached_object_references",
                  "a tree that was saved on one realm is published on another realm, whose references are flushed first, "
                  "and not on its own one" if ("T", loc) in ids(other) else
                  "a tree that was saved is not published", None, s)
