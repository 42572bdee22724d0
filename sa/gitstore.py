"""A model of git repositories for client programs: objects, trees and references, by repository.

Contents are terms; the id of an object is a digest of its content term, so
that equal contents have equal ids.
"""
import hashlib

from .library import codec_of, recoded
from .model import *
from .rules.locks import hook_acquire, keywords
from .rules.names import const_bytes, git_mktree, git_quote
from .shapes import explicit_list

QUIET = ("-f", "--force", "--no-tags", "--no-recurse-submodules", "-q", "--quiet", "-n", "--no-write-fetch-head", "--recurse-submodules",
         "--depth", "--no-auto-maintenance", "--no-auto-gc")
PROBE = ("rev-parse", "show-ref", "for-each-ref", "ls-remote")


def plain(v):
    while isinstance(v, T) and v.op in ("str", "path") and len(v.args) == 1:
        v = v.args[0]
    return v


def text_of(v):
    """Content term without encoding."""
    while isinstance(v, T) and v.op in ("encode", "decode") and len(v.args) == 1:
        v = v.args[0]
    if isinstance(v, Const) and isinstance(v.v, bytes):
        try:
            return Const(v.v.decode())
        except UnicodeDecodeError:
            return v
    return v


class Frozen:
    """A content term that may mention heap objects is described by its text."""


def object_id(kind, content):
    return hashlib.sha1(f"{kind} {content!r}".encode()).hexdigest()


class GitStore:
    """Hooks for git commands; the content of the repositories is part of the analysed state."""

    def __init__(self, ctx, fail=None):
        self.ctx = ctx
        self.fail = fail        # (state, sub-command) -> whether the command may fail
        self.unknown = []
        self.remotes = []       # their caches do not exist at first

    # -- state -------------------------------------------------------------
    @staticmethod
    def objects(st, repo):
        return st.glob.get(("objects", plain(repo)), {})

    @staticmethod
    def add(st, repo, kind, content):
        h = object_id(kind, content)
        key = ("objects", plain(repo))
        st.glob[key] = {**st.glob.get(key, {}), h: (kind, content)}
        return h

    @staticmethod
    def refs(st, repo):
        return st.glob.get(("refs", plain(repo)), {})

    def resolve(self, st, repo, name):
        """Id for a reference or an id that is present; None if it is missing."""
        name = self.refs(st, repo).get(name, name)
        return name if name in self.objects(st, repo) else None

    # -- hooks -------------------------------------------------------------
    def hooks(self):
        return {"ext subprocess.run": self.run, "ext subprocess.check_output": self.variant("stdout"),
                "ext subprocess.check_call": self.variant("checked"), "ext subprocess.call": self.variant("returncode"),
                ".check_returncode": self.check_returncode, ".acquire": hook_acquire("ok"), "hash_blob": self.hash_blob,
                **{k: self.exists for k in (".exists", ".is_dir", "ext os.path.exists", "ext os.path.isdir")}}

    def exists(self, eng, st, recv, args, kw, node):
        """The directories of the repositories exist, those of caches after they were created."""
        path = plain(recv if recv is not None else args[0] if args else None)
        if isinstance(path, T) and not any(isinstance(x, Const) and x.v == ".git" for x in subterms(path)) \
                and any(contains(path, r) for r in self.remotes):
            if ("init", path) not in st.glob:
                st.glob[("absent", path)] = True
            return [(st, Const(("init", path) in st.glob))]
        return [(st, TRUE)] if isinstance(recv, T) and any(
            isinstance(x, Const) and x.v == ".git" for x in subterms(recv)) else None

    def hash_blob(self, eng, st, recv, args, kw, node):
        return [(st, Const(object_id("blob", text_of(arg(args, kw, 0, "blob")))))]

    def result(self, eng, st, code, out, kw):
        """A completed process; out: text, bytes or content term."""
        text = any(k in kw and kw[k] not in (FALSE, NONE) for k in ("text", "universal_newlines", "encoding"))
        if isinstance(out, (str, bytes)):
            data = out.encode() if isinstance(out, str) else out
            codec = codec_of((), kw) if "encoding" in kw else "utf-8"
            value = Const(data.decode(codec or "utf-8", errors="replace") if text else data)
        else:
            if text:
                # line breaks of text streams are translated; texts that json.dumps made have no carriage returns
                value = T("newlines", out) if isinstance(out, T) and out.op == "sym" else out if not isinstance(out, Const) \
                    or not isinstance(out.v, str) else Const(out.v.replace("\r\n", "\n").replace("\r", "\n"))
                if "encoding" in kw:
                    value = recoded(value, codec_of((), kw))
            else:
                value = T("encode", out) if not isinstance(out, Const) else Const(
                    out.v.encode() if isinstance(out.v, str) else out.v)
        return [(st, st.alloc(HObj("inst", cls=eng.p.cls("Reference"), attrs={
            "returncode": Const(code), "stdout": value, "stderr": Const("" if text else b"")}), "process"))]

    def run(self, eng, st, recv, args, kw, node):
        res = self.start(eng, st, recv, args, kw, node)
        if res is None or kw.get("check", FALSE) != TRUE:
            return res
        return [(s, v if s.h(v).attrs["returncode"] == Const(0) else Exc("CalledProcessError", None, eng.loc(s, node)))
                for s, v in res]

    def variant(self, what):
        def hook(eng, st, recv, args, kw, node):
            kw = {**kw, "check": FALSE if what == "returncode" else TRUE}
            if what != "returncode":
                kw.pop("capture_output", None)
            res = self.run(eng, st, recv, args, kw, node)
            return res and [(s, v if isinstance(v, Exc) else s.h(v).attrs["stdout" if what == "stdout" else "returncode"])
                            for s, v in res]
        return hook

    @staticmethod
    def check_returncode(eng, st, recv, args, kw, node):
        code = st.h(recv).attrs.get("returncode") if isinstance(recv, O) else None
        if code is None:
            return None
        return [(st, NONE if code == Const(0) else Exc("CalledProcessError", None, eng.loc(st, node)))]

    def start(self, eng, st, recv, args, kw, node):
        sub, repo, rest, _ = eng.parse_argv(st, arg(args, kw, 0, "args"))
        if sub is None:
            return None
        stdin = kw.get("input", NONE)
        words = [plain(a).v if isinstance(plain(a), Const) else None for a in rest]
        repo = plain(repo)
        st.emit(Ev("git", sub, repo, tuple(rest), eng.loc(st, node), extra={"stdin": stdin, **({"stdout": kw["stdout"]} if isinstance(kw.get("stdout"), (T, O)) and
                                        not (isinstance(kw["stdout"], T) and kw["stdout"].op in ("ext", "attr")) else {})}))
        failed = st.copy() if self.fail and self.fail(st, sub) else None
        if (("absent", repo) in st.glob or repo not in self.remotes and any(contains(repo, r) for r in self.remotes)) and ("init", repo) not in st.glob and sub != "init":
            return self.result(eng, st, 128, "", kw)
        handler = getattr(self, "git_" + sub.replace("-", "_"), None)
        if handler is None and sub in PROBE:
            handler = self.probe
        r = handler(eng, st, sub, repo, words, stdin, rest) if handler else None
        if r is None:
            self.unknown.append(f"git {sub} {words}")
            return None
        code, out = r
        outs = []
        if failed is not None and code == 0:
            failed.glob["failed"] = f"{sub} {words}"
            failed.emit(Ev("gitfail", sub, repo, tuple(rest), eng.loc(st, node)))
            outs = self.result(eng, failed, 128, "", kw)
        return outs + self.result(eng, st, code, out, kw)

    def git_hash_object(self, eng, st, sub, repo, words, stdin, rest):
        write = "-w" in words
        if "--stdin-paths" in words:
            res = []
            for content in file_contents(st, stdin):
                if content is None:
                    return None
                res.append(self.add(st, repo, "blob", content) if write else object_id("blob", content))
            return 0, "".join(h + "\n" for h in res)
        if "--stdin" not in words or stdin == NONE:
            return None
        content = text_of(stdin)
        return 0, (self.add(st, repo, "blob", content) if write else object_id("blob", content)) + "\n"

    def git_mktree(self, eng, st, sub, repo, words, stdin, rest):
        spec = const_bytes(stdin)
        if spec is None:
            return None
        rows = git_mktree(spec, "-z" in words)
        if isinstance(rows, str):
            return 128, ""
        if "--missing" not in words:
            if any(self.resolve(st, repo, h) is None for _, _, h, _ in rows):
                return 128, ""
        return 0, self.add(st, repo, "tree", tuple(sorted(rows, key=lambda r: r[3]))) + "\n"

    def git_ls_tree(self, eng, st, sub, repo, words, stdin, rest):
        names = [w for w in words if w is None or not w.startswith("-")]
        if len(names) != 1 or names[0] is None or set(words) - {"-z", names[0]}:
            return None
        h = self.resolve(st, repo, names[0])
        if h is None or self.objects(st, repo)[h][0] != "tree":
            return 128, ""
        return 0, self.listing(self.objects(st, repo)[h][1], "-z" in words)

    @staticmethod
    def listing(rows, nul):
        if nul:
            return b"".join(f"{m} {t} {h}\t".encode() + n + b"\0" for m, t, h, n in rows)
        return "".join(f"{m} {t} {h}\t{git_quote(n)}\n" for m, t, h, n in rows)

    def git_cat_file(self, eng, st, sub, repo, words, stdin, rest):
        names = [w for w in words if w is None or not w.startswith("-")]
        if not names or None in names:
            return None
        h = self.resolve(st, repo, names[-1])
        if h is None:
            return 128, ""
        if "-e" in words:
            return 0, ""
        kind, content = self.objects(st, repo)[h]
        if "-t" in words:
            return 0, kind + "\n"
        if kind == "blob":
            return 0, content
        return 0, self.listing(content, False)

    def git_show(self, eng, st, sub, repo, words, stdin, rest):
        names = [w for w in words if w is None or not w.startswith("-")]
        if len(names) != 1 or names[0] is None:
            return None
        h = self.resolve(st, repo, names[0])
        if h is None:
            return 128, ""
        kind, content = self.objects(st, repo)[h]
        return (0, content) if kind == "blob" else None

    def git_update_ref(self, eng, st, sub, repo, words, stdin, rest):
        if None in words:
            return None
        key = ("refs", repo)
        if "-d" in words:
            st.glob[key] = {k: v for k, v in self.refs(st, repo).items() if k not in words}
            return 0, ""
        names = [w for w in words if not w.startswith("-")]
        h = self.refs(st, repo).get(names[1], names[1])
        if h not in self.objects(st, repo):
            return 128, ""
        st.glob[key] = {**self.refs(st, repo), names[0]: h}
        return 0, ""

    def git_init(self, eng, st, sub, repo, words, stdin, rest):
        names = [plain(a) for a, w in zip(rest, words) if w is None or not w.startswith("-")]
        if len(names) + (repo is not None) != 1 or "--bare" in words:
            return None
        st.glob[("init", names[0] if names else repo)] = True
        return 0, ""

    def closure(self, st, repo, h, res):
        """Objects that are reachable from an object; missing parts of trees are missing."""
        found = self.objects(st, repo).get(h)
        if found and h not in res:
            res[h] = found
            if found[0] == "tree":
                for row in found[1]:
                    self.closure(st, repo, row[2], res)
        return res

    def git_fetch(self, eng, st, sub, repo, words, stdin, rest):
        """References of the source are copied to references of the repository, with everything that is reachable."""
        values = [plain(a) for a, w in zip(rest, words) if w is None or not w.startswith("-")]
        if not values or any(w is not None and w.split("=")[0] not in QUIET for w in words if w and w.startswith("-")) or not all(
                isinstance(v, Const) for v in values[1:]) or len(values) == 1:
            return None
        source, specs = values[0], [v.v for v in values[1:]]
        for spec in specs:
            src, _, dst = spec.lstrip("+").partition(":")
            h = self.resolve(st, source, src)
            if h is None:
                return 128, ""
            if dst and (dst.startswith("refs/heads/") or dst.startswith("refs/tags/")) or "*" in spec:
                return None
            key = ("objects", repo)
            st.glob[key] = {**st.glob.get(key, {}), **self.closure(st, source, h, {})}
            if dst:
                st.glob[("refs", repo)] = {**self.refs(st, repo), dst: h}
        return 0, ""

    def probe(self, eng, st, sub, repo, words, stdin, rest):
        names = [w for w in words if w and w.startswith("refs/")]
        if sub == "rev-parse" and not names and "--verify" in words:
            names = [w for w in words if w is None or not w.startswith("-")]
            if len(names) != 1 or not names[0]:
                return None
            h, _, kind = names[0].partition("^")
            if kind not in ("{object}", "{blob}", "{tree}") and (kind or len(h) != 40):
                return None
            # a complete id without a type is valid, whether the object exists or not
            found = self.objects(st, repo).get(h)
            ok = not kind or found and kind in ("{object}", "{" + found[0] + "}")
            return (0, h + "\n") if ok else (1, "")
        if sub == "ls-remote" and not names:
            far = [plain(a) for a, w in zip(rest, words) if w is None or not w.startswith("-")]
            return (0, "".join(f"{h}\t{ref}\n" for ref, h in sorted(self.refs(st, far[0]).items()))) if len(far) == 1 else None
        if len(names) != 1:
            return None
        if sub == "ls-remote":
            repo = next((plain(a) for a, w in zip(rest, words) if w is None or not w.startswith("-")), repo)
        ref = names[0]
        h = self.refs(st, repo).get(ref)
        if not h:
            return (0 if sub == "for-each-ref" or sub == "ls-remote" and "--exit-code" not in words else 1), ""
        return 0, {"rev-parse": f"{h}\n", "show-ref": f"{h} {ref}\n", "ls-remote": f"{h}\t{ref}\n"}.get(
            sub, f"{ref}\n" if "--format=%(refname)" in words else f"{h} blob\t{ref}\n")


def file_contents(st, stdin):
    """Content terms of the files whose names are given on the standard input."""
    while isinstance(stdin, T) and stdin.op == "encode":
        stdin = stdin.args[0]
    parts = list(stdin.args) if isinstance(stdin, T) and stdin.op == "concat" else [stdin]
    wanted = [plain(x) for x in parts if not (isinstance(x, Const) and str(x.v).strip() == "")]
    files, last = {}, {}
    for e in st.events():
        if e.kind != "call":
            continue
        if e.name in ("open", "builtins.open"):
            values = [a for a in e.args if not (isinstance(a, T) and a.op == "kw")]
            path, values = (e.recv, values) if e.recv is not None else (values[0], values[1:])
            mode = values[0] if values else keywords(e).get("mode")
            last[plain(path)] = True
            if isinstance(mode, Const) and ("w" in mode.v or "x" in mode.v):
                files[plain(path)] = []
        elif e.name == "write" and isinstance(e.recv, T) and e.args:
            hit = [p for p in last if contains(e.recv, p)]
            if len(hit) == 1:
                files.setdefault(hit[0], []).append(text_of(e.args[0]))
        elif e.name in ("write_text", "write_bytes") and e.args:
            files[plain(e.recv)] = [text_of(e.args[0])]
    for w in wanted:
        found = files.get(w)
        yield found[0] if found and len(found) == 1 else None


def start_store(ctx, eng, *names):
    """A state with empty repositories; their realms are texts."""
    st = ctx.state()
    realms = []
    for n in names:
        t = T("sym", n)
        st.types[t] = "str"
        st.facts[t] = True
        st.facts[T("is_remote", t)] = False
        for other in realms:
            st.facts[eng.eq_term(t, other)] = False
        realms.append(t)
    return st, realms
