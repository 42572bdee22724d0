"""Rules that analyse whole client programs on modelled repositories, for properties that also have local rules."""
import itertools

from ..gitstore import PROBE, plain
from ..model import *
from ..scenario import probes
from .system import ADD_RUN, HOLLOW, KINDS, MORE, Run, diff, seen

STORE = "end-to-end"


def fill(kind, text, **more):
    """Program text for a kind of objects: {create}, {load}, {see}; {change x} changes an object."""
    for name in ("x", "y", "z", "o"):
        text = text.replace(f"{{change {name}}}", kind.change.replace("{x}", name))
        text = text.replace(f"{{mapped {name}}}", f"{name}.mtree.mapped" if "Tree" == kind.name[-4:] else f"{name}.mapped")
    for k, v in dict(create=kind.create, load=kind.load, see=kind.see, **more).items():
        text = text.replace("{" + k + "}", v)
    return text


def judge(ctx, run, where, label, pairs, extra=None, rule=STORE, loc=None, failing=False):
    """Compare observations of all paths: pairs of (expected, observed, message); extra(run, s) -> message."""
    outs = run.paths()
    if run.store.unknown:
        ctx.unknown(rule, where, f"{label}: {run.store.unknown[0]}")
        return 0
    count = 0

    def alone(s):
        """There is one path only, or one with this failing command."""
        return len(outs) == 1 or failing and s.glob.get("failed") and sum(failure(o) == failure(s) for o, _ in outs) == 1
    for s, v in outs or ():
        if isinstance(v, Exc):
            if alone(s):
                ctx.bad(rule, where, f"{label}: raises {v!r}", v.loc or loc, s)
            else:
                ctx.unknown(rule, where, f"{label}: {v!r}")
            continue
        if failing and not s.glob.get("failed"):
            continue
        count += 1
        bad = None
        for want, got, text in pairs:
            d = diff(seen(run.eng, s, want), seen(run.eng, s, got))
            bad = bad or d and f"{text}: {d}"
        if not bad and extra:
            bad = extra(run, s)
        if bad is False:
            ctx.unknown(rule, where, f"{label}: {extra.__name__}")
            continue
        at = s.glob.get("failed")
        ctx.check(not bad, rule, where, f"{label}{f', git {at} fails' if at else ''}: {bad}", loc, s, label)
    if outs is None:
        ctx.unknown(rule, where, f"{label}: limit")
    return count


def failure(s):
    """Position of the failing command."""
    kinds = [e.kind for e in s.events() if e.kind in ("git", "gitfail")]
    return kinds.index("gitfail") if "gitfail" in kinds else None


def probing(command):
    """Commands that test whether something exists."""
    return command.split(" ")[0] in PROBE or any(command.startswith(f"cat-file ['{x}'") for x in ("-e", "-t", "-s"))


def values(s, name):
    """Arguments of the first call of a probe; None if they are not known."""
    args = probes(s, name)
    if not args or any(isinstance(x, T) for x in args[0]):
        return None
    return [x.v if isinstance(x, Const) else x for x in args[0]]


def expect(name, want, text):
    def f(run, s):
        got = values(s, name)
        if got is None:
            return False
        return None if got == list(want) else f"{text}: {got}"
    f.__name__ = name
    return f


def all_of(*fs):
    def f(run, s):
        res = None
        for g in fs:
            r = g(run, s)
            if r:
                return r
            if r is False:
                res = False
        return res
    f.__name__ = "+".join(g.__name__ for g in fs)
    return f


# -- C01 ------------------------------------------------------------------------
ODD = '''m = Metadata()
m.add_extractor_run(0, "a", "", "", ExtractorConfiguration("", {}), {})
m.add_extractor_run(-1.5, "a", "A \\u00e9 \\n", "x@y", ExtractorConfiguration("1", {"": None, "1": True}), None)
m.add_extractor_run(1, "a", "A", "x@y", ExtractorConfiguration("1", {"": None, "1": 1.0}), [])
m.add_extractor_run(stamp, "b/c", "A", "x@y", ExtractorConfiguration("1", {"list": [1, [2, {"x": [None]}]]}), content)
m.add_extractor_run(stamp, "", "A", "x@y", ExtractorConfiguration("2", {"content": content}), {"a": [content, 1.5, False, {"b": ""}]})
m.add_extractor_run(10 ** 20, "z", "A", "x@y", ExtractorConfiguration("1", {}), "text")
m.add_extractor_run(stamp, "b/c", "B", "y@x", ExtractorConfiguration("0", {"a": 1}), 0)
'''


def more_c01(ctx):
    ctx.rule("a program that saves an object, loads it, changes and saves the loaded object and loads it again observes "
             "the same content as in memory each time")
    for kind in KINDS + MORE:
        f = ctx.p.find_method(ctx.p.cls(kind.name), "write_out")
        text = fill(kind, """o = {create}
{see}('before', 0, o)
x = {create}
ref = x.write_out(a)
realm = a
{see}('kept', 0, x)
y = {load}
{see}('after', 0, y)
{change o}
{see}('want', 0, o)
{change y}
y.write_out(a)
ref = y.reference
z = {load}
{see}('changed', 0, z)
""")
        judge(ctx, Run(ctx, text), f"{kind.name}", f"{kind.create}", (
            ("before", "after", "the loaded object differs"), ("before", "kept", "saving changes the object"),
            ("want", "changed", "the object that was changed after loading differs")), loc=None)
    judge(ctx, Run(ctx, ODD + """see_metadata('before', 0, m)
ref = m.write_out(a)
see_metadata('after', 0, Metadata(a, ref))
"""), "Metadata", "unusual values", (("before", "after", "the loaded object differs"),))


# -- C06 ------------------------------------------------------------------------
NEW = "MetadataPath('new/er')"
MUTATORS = {
    "Metadata": ("{x}.add_extractor_run(stamp, 'core', 'author', 'mail', ExtractorConfiguration('1', {'key': ['value']}), 'new')",
                 "{x}.add_extractor_run(stamp, 'new', 'author', 'mail', ExtractorConfiguration('1', {'key': 'value'}), {})"),
    "FileTree": (f"{{x}}.add_metadata({NEW}, new_metadata(stamp, content))",
                 f"{{x}}.add_extractor_run({NEW}, stamp, 'n', 'a', 'm', ExtractorConfiguration('1', {{}}), {{}})",
                 "{x}.add_extractor_run(MetadataPath('sub/b c'), stamp, 'n', 'a', 'm', ExtractorConfiguration('1', {}), {})",
                 "{x}.add_metadata(MetadataPath('sub/deep/e'), new_metadata(stamp, content))"),
    "MetadataRootRecord": ("{x}.set_file_tree(small_record(5, 'v', stamp, content).get_file_tree())",
                           "{x}.set_dataset_level_metadata(many_runs(stamp, content))"),
    "DatasetTree": (f"{{x}}.add_dataset({NEW}, small_record(5, 'v', stamp, content))",
                    f"{{x}}.add_subtree(small_datasets('v5', stamp, content), {NEW})",
                    "{x}.delete_subtree(MetadataPath('sub/ds'))", "{x}.delete_subtree(MetadataPath('sub'))"),
    "VersionList": ("{x}.set_versioned_element('v1', 'time9', MetadataPath('pre'), small_record(5, 'v', stamp, content))",
                    "{x}.set_versioned_element('v1', 'time9', MetadataPath('new'), small_record(5, 'v', stamp, content))",
                    "{x}.set_versioned_element('v9', 'time9', MetadataPath('pre'), small_record(5, 'v', stamp, content))",
                    "{x}.set_versioned_element('v1', 'time9', MetadataPath('pre'), "
                    "{x}.get_versioned_element('v1', MetadataPath('pre'))[2])"),
    "TreeVersionList": (
        "{x}.set_dataset_tree('v1', 'time9', MetadataPath('pre'), small_datasets('v5', stamp, content))",
        "{x}.set_dataset_tree('v9', 'time9', MetadataPath('pre'), small_datasets('v5', stamp, content))",
        "{x}.set_dataset_tree('v2', 'time9', MetadataPath('pre'), {x}.get_dataset_tree('v2', MetadataPath('pre'))[2])"),
    "UUIDSet": ("{x}.set_version_list(UUID(int=9), new_versions(stamp, content))",
                "{x}.set_version_list(UUID(int=1), new_versions(stamp, content))",
                "{x}.set_version_list(UUID(int=1), VersionList())"),
}
STARTS = (("saved object", "x = {create}\nx.write_out(a)"),
          ("object that is not loaded", "x = {create}\nref = x.write_out(a)\nrealm = a\nx = {load}"),
          ("loaded object", "x = {create}\nref = x.write_out(a)\nrealm = a\nx = {load}\n{see}('loaded', 0, x)"))


def more_c06(ctx):
    ctx.rule("an object that is changed after it was saved or loaded is not regarded as saved; after the next save, the stored "
             "version has the content that the same change gives to an object in memory")
    for kind in KINDS:
        for change in (kind.change, *MUTATORS.get(kind.name, ())):
            for start, setup in STARTS:
                text = fill(kind, "o = {create}\n" + change.replace("{x}", "o") + "\n{see}('want', 0, o)\n" + setup + "\n"
                            + change.replace("{x}", "x") + """
probes.saved(x.is_saved_on(a))
x.write_out(a)
probes.again(x.is_saved_on(a))
realm = a
ref = x.reference
y = {load}
{see}('got', 0, y)
{see}('memory', 0, x)
""")
                judge(ctx, Run(ctx, text), kind.name, f"{start}, {change.replace('{x}.', '')}", (
                    ("want", "got", "the stored content is not the changed content"),
                    ("want", "memory", "the content of the object is not the changed content")),
                    all_of(expect("saved", [False], "the changed object is regarded as saved"),
                           expect("again", [True], "the object is not regarded as saved after the next save")))


# -- C07 ------------------------------------------------------------------------
def more_c07(ctx):
    ctx.rule("all accessors of an object that is not loaded give the same results as those of the object that was saved")
    for kind in KINDS + MORE:
        text = fill(kind, """x = {create}
{see}('want', 0, x)
ref = x.write_out(a)
realm = a
y = {load}
lazy_{see}('got', 0, y)
probes.saved(y.is_saved_on(a))
z = {load}
lazy_{see}('got2', 0, z)
lazy_{see}('got3', 0, z)
""")
        judge(ctx, Run(ctx, text, lazy=True), kind.name, kind.create, (
            ("want", "got", "an object that is not loaded gives other results"),
            ("want", "got3", "an object that was used once gives other results")),
            expect("saved", [True], "the object is not regarded as saved after it was used"))


# -- C08 ------------------------------------------------------------------------
LEVELS = {
    "FileTree": ("{x}.get_metadata(MetadataPath('sub/deep/d'))",),
    "MetadataRootRecord": ("{x}.get_file_tree()", "{x}.get_file_tree().get_metadata(MetadataPath('sub/deep/d'))"),
    "DatasetTree": ("{x}.get_metadata_root_record(MetadataPath('sub/ds'))",
                    "{x}.get_metadata_root_record(MetadataPath('sub/ds')).get_dataset_level_metadata()"),
    "VersionList": ("{x}.get_versioned_element('v1', MetadataPath('pre'))[2]",
                    "{x}.get_versioned_element('v1', MetadataPath('pre'))[2].get_dataset_level_metadata()"),
    "TreeVersionList": ("{x}.get_dataset_tree('v1', MetadataPath('pre'))[2]",
                        "{x}.get_dataset_tree('v1', MetadataPath('pre'))[2].get_metadata_root_record(MetadataPath('sub/ds'))"),
    "UUIDSet": ("{x}.get_version_list(UUID(int=2))",
                "{x}.get_version_list(UUID(int=2)).get_versioned_element('v1', MetadataPath('pre'))[2]",
                "{x}.get_version_list(UUID(int=2)).get_versioned_element('v1', MetadataPath('pre'))[2].get_file_tree()"),
}


SIDE = {"UUIDSet": [False, False, False, True]}     # the file tree is beside the change


SWAPS = (
    ("FileTree", """{x} = FileTree()
p, q = new_metadata(stamp, {one}), new_metadata(stamp, {two})
{x}.add_metadata(MetadataPath('p'), p)
{x}.add_metadata(MetadataPath('q'), q)
""", "{x}.add_extractor_run(stamp, 'core', 'author', 'mail', ExtractorConfiguration('1', {'key': ['value']}), {'data': [{one}]})\n"),
    ("VersionList", """{x} = VersionList()
p, q = small_record(1, 'v', stamp, {one}), small_record(1, 'v', stamp, {two})
{x}.set_versioned_element('v', 'time', MetadataPath('p'), p)
{x}.set_versioned_element('v', 'time', MetadataPath('q'), q)
""", "{x}.set_file_tree(small_record(1, 'v', stamp, {one}).get_file_tree())\n{x}.set_dataset_level_metadata(new_metadata(stamp, {one}))\n"),
    ("UUIDSet", """{x} = UUIDSet()
p, q = new_versions(stamp, {one}), new_versions(stamp, {two})
{x}.set_version_list(UUID(int=1), p)
{x}.set_version_list(UUID(int=2), q)
""", "".join(f"{{x}}.set_versioned_element('v{v}', {t!r}, MetadataPath({path!r}), small_record(1, 'v{v}', stamp, {{one}}))\n"
             for v, t, path in ((1, "1675113291.25", "pre"), (1, "", ""), (2, "2023-01-30 22:14 +01:00", "pre")))),
)


def put(text, **names):
    for k, v in names.items():
        text = text.replace("{" + k + "}", v)
    return text


def exchanges():
    """Containers with two sub-objects, one or both of which get the content of the other one and are saved on their own."""
    for name, create, change in SWAPS:
        kind = next(k for k in KINDS if k.name == name)
        for label, one, two in (("two sub-objects exchange their contents", "'two'", "'one'"),
                                ("a sub-object gets the content of another one", "'two'", "'two'"),
                                ("another sub-object gets the content of one", "'one'", "'one'")):
            yield kind, label, put(create, x="o", one=one, two=two) + "{see}('want', 0, o)\n" + \
                put(create, x="x", one="'one'", two="'two'") + "x.write_out(a)\n" + \
                ("" if one == "'one'" else put(change, x="p", one=one)) + ("" if two == "'two'" else put(change, x="q", one=two)) + \
                "p.write_out(a)\nq.write_out(a)\n"


def swapped(ctx):
    """Two sub-objects exchange their contents and are saved on their own."""
    for kind, label, program in exchanges():
        for start, unload in (("", ""), (", unloaded", "p.purge()\nq.purge()\n")):
            text = program + "probes.part(x.is_saved_on(a))\n" + unload + """x.write_out(a)
probes.end(x.is_saved_on(a))
realm = a
ref = x.reference
y = {load}
{see}('got', 0, y)
"""
            judge(ctx, Run(ctx, fill(kind, text)), kind.name, label + start, (
                ("want", "got", "the stored content is not the changed content"),), all_of(
                expect("part", [False], "the container is regarded as saved"), expect("end", [True], "the container is not saved")))


def parts_saved(ctx):
    """Containers whose parts were changed and saved on their own can not be unloaded."""
    programs = [(kind, label, program) for kind, label, program in exchanges()]
    for kind in KINDS:
        for part in LEVELS.get(kind.name, ()):
            programs.append((kind, f"changed part that is saved, {part}", "o = {create}\n{change o}\n{see}('want', 0, o)\nx = {create}\n"
                             "x.write_out(a)\n{change x}\n" + part.replace("{x}", "x") + ".write_out(a)\n"))
    for kind, label, program in programs:
        text = program + """try:
    x.purge()
    probes.purged()
except Exception:
    probes.refused()
{see}('kept', 0, x)
x.write_out(a)
x.purge()
{see}('got', 0, x)
"""

        def refused(run, s):
            return "the object is unloaded although its stored version is outdated" if probes(s, "purged") else None
        judge(ctx, Run(ctx, fill(kind, text)), kind.name, label, (
            ("want", "kept", "a refused purge changes the content"), ("want", "got", "a purged object is not loaded again")), refused)


def stale(ctx):
    """A part is changed and saved on its own on one realm, then the object is saved on another one."""
    for kind in KINDS:
        levels = [x.replace("{x}", "x") for x in LEVELS.get(kind.name, ())]
        everything = ", ".join(f"{t}.is_saved_on({{r}})" for t in ["x"] + [f"s{k}" for k in range(len(levels))])
        for i, part in enumerate(levels, 1):
            text = fill(kind, "x = {create}\nx.write_out(b)\n{change x}\n{see}('want', 0, x)\n" + "".join(
                f"s{k} = {t}\n" for k, t in enumerate(levels)) + f"""s{i - 1}.write_out(b)
probes.part({everything.replace("{r}", "b")})
x.write_out(a)
probes.other({everything.replace("{r}", "a")})
probes.stale({everything.replace("{r}", "b")})
x.write_out(b)
probes.end({everything.replace("{r}", "b")}, x.is_saved_on(a))
probes.forget(a)
realm = b
ref = x.reference
y = {kind.load}
{kind.see}('got', 0, y)
""")
            n = len(levels) + 1
            below = [k >= i or kind.name in SIDE and SIDE[kind.name][k] for k in range(n)]
            judge(ctx, Run(ctx, text), kind.name, f"saved on another realm after its part {part}", (
                ("want", "got", "the object is not complete on the first realm"),), all_of(
                expect("part", below, f"the saved states after only {part} was saved"),
                expect("other", [True] * n, "the saved states on the other realm"),
                expect("stale", below, "the saved states on the first realm after saving on another realm"),
                expect("end", [True] * (n + 1), "the saved states after saving on both realms")))


def two_realms(ctx):
    """All short sequences of saving an object and two of its parts on two realms, after a change of the inner part."""
    ops = list(itertools.product(range(3), "ab"))
    for name in ("FileTree", "MetadataRootRecord", "VersionList"):
        kind = next(k for k in KINDS if k.name == name)
        parts = ["x", *(t.replace("{x}", "x") for t in LEVELS[name])][:3]
        if name == "FileTree":
            parts.insert(1, "x.mtree.get_object_at_path(MetadataPath('sub'))")
        for sequence in itertools.product(ops, repeat=3 if ctx.tier == "quick" else 4):
            if any(x == y for x, y in zip(sequence, sequence[1:])):
                continue
            text = "x = {create}\nx.write_out(a)\n{change x}\n{see}('want', 0, x)\n" + "".join(f"s{k} = {t}\n" for k, t in enumerate(parts))
            saved, want = [set() for _ in parts], []
            for n, (level, realm) in enumerate(sequence):
                text += f"s{level}.write_out({realm})\nprobes.states{n}({', '.join(f's{k}.is_saved_on({r})' for k in range(len(parts)) for r in 'ab')})\n"
                for k in range(level, len(parts)):
                    saved[k].add(realm)
                want.append(expect(f"states{n}", [r in s for s in saved for r in "ab"], f"the saved states after step {n + 1}"))
            last = next((r for _, r in reversed(sequence) if r in saved[0]), None)
            pairs = ()
            if last is not None:
                text += f"probes.forget({'b' if last == 'a' else 'a'})\nrealm = {last}\nref = x.reference\ny = {{load}}\n{{see}}('got', 0, y)\n"
                pairs = (("want", "got", "the object is not complete on a realm"),)
            judge(ctx, Run(ctx, fill(kind, text)), name, "saved " + ", ".join(f"{parts[k]} on {r}" for k, r in sequence), pairs, all_of(*want))


def more_c08(ctx):
    ctx.rule("after a change deep inside of a saved or loaded object, all objects above it are unsaved, they stay unsaved when "
             "only a part is saved, and they are saved on a realm exactly after they were saved there")
    swapped(ctx)
    stale(ctx)
    two_realms(ctx)
    for kind in KINDS:
        levels = [x.replace("{x}", "x") for x in LEVELS.get(kind.name, ())]
        for start, setup in STARTS:
            for i, part in enumerate(["x", *levels]):
                below = levels[i:]
                text = fill(kind, setup + """
probes.start(x.is_saved_on(a), x.is_saved_on(b))
{change x}
""" + "".join(f"s{n} = {t}\n" for n, t in enumerate(levels)) + f"""
probes.changed({", ".join(f"{t}.is_saved_on(a)" for t in ["x"] + [f"s{n}" for n in range(len(levels))])})
{f"s{i - 1}" if i else "x"}.write_out(a)
probes.part({", ".join(f"{t}.is_saved_on(a)" for t in ["x"] + [f"s{n}" for n in range(len(levels))])})
x.write_out(a)
probes.end({", ".join(f"{t}.is_saved_on(a)" for t in ["x"] + [f"s{n}" for n in range(len(levels))])}, x.is_saved_on(b))
""")
                n = len(levels) + 1
                # the change is below all of the listed levels or concerns the last one
                judge(ctx, Run(ctx, text), kind.name, f"{start}, part {part}", (), all_of(
                    expect("start", [True, False], "the saved state before the change"),
                    expect("changed", [False] * n if kind.name not in SIDE else SIDE[kind.name],
                           "some objects above a change are regarded as saved"),
                    expect("part", [k >= i if kind.name not in SIDE else k >= i or SIDE[kind.name][k] for k in range(n)],
                           f"the saved states after only {part} was saved"),
                    expect("end", [True] * n + [False], "the saved states after saving")))


# -- C10 ------------------------------------------------------------------------
def fail_once(st, sub):
    return bool(st.glob.get("armed")) and not st.glob.get("failed")


def arm(eng, st, recv, args, kw, node):
    st.glob["armed"] = args[0] == TRUE
    return [(st, NONE)]


def full(eng, st, recv, args, kw, node):
    """The first write to a file fails."""
    if not st.glob.get("armed"):
        return None
    st.glob["armed"] = False
    return [(st, Exc("OSError", None, eng.loc(st, node)))]


def more_c10(ctx):
    ctx.rule("for every git command of a save: if it fails, the object has its former content, realm, reference, load state and "
             "saved state; saving again stores it completely")
    for kind in KINDS:
        for start, setup, dest in (("new object", "x = {create}", "b"), ("changed object", STARTS[0][1] + "\n{change x}", "a"),
                                   ("object saved elsewhere", STARTS[0][1], "b")):
            state = "x.is_saved_on(a), x.is_saved_on(b), {mapped x}, x.realm if {has realm} else 0, x.reference is old"
            state = state.replace("{has realm}", "not isinstance(x, (FileTree, DatasetTree))")
            text = fill(kind, setup + "\nold = x.reference\n{see}('before', 0, x)\nprobes.state1(" + state + f""")
probes.arm(True)
try:
    x.write_out({dest})
except Exception:
    probes.arm(False)
    probes.state2({state})
    {kind.see}('kept', 0, x)
    x.write_out({dest})
probes.arm(False)
probes.end(x.is_saved_on({dest}))
""" + ("probes.forget(a)\n" if dest == "b" else "") + f"""
realm = {dest}
ref = x.reference
y = {kind.load}
{kind.see}('retry', 0, y)
""")

            def same(run, s):
                one, two = probes(s, "state1"), probes(s, "state2")
                if one and two and one[0] != two[0]:
                    return f"the state of the object is changed: {one[0]} -> {two[0]}"
            judge(ctx, Run(ctx, text, fail=fail_once, hooks={"ext probes.arm": arm}), kind.name, start, (
                ("before", "kept", "the content of the object is changed"),
                ("before", "retry", "the repeated save is not complete")),
                all_of(same, expect("end", [True], "the object is not saved after the repeated save")), failing=True)
        text = fill(kind, STARTS[0][1] + """
{see}('before', 0, x)
probes.arm(True)
try:
    x.write_out(b)
except Exception:
    probes.arm(False)
    x.purge()
    {see}('kept', 0, x)
    realm = a
    ref = x.reference
    y = {load}
    {see}('stored', 0, y)
""")
        judge(ctx, Run(ctx, text, fail=fail_once, hooks={"ext probes.arm": arm}), kind.name, "object saved elsewhere, then unloaded", (
            ("before", "kept", "the content of the object is changed"), ("before", "stored", "the reference of the object is changed")),
            failing=True)
        for part in LEVELS.get(kind.name, ()):
            text = fill(kind, "x = {create}\nx.write_out(b)\n{change x}\n" + part.replace("{x}", "x") + """.write_out(b)
{see}('before', 0, x)
probes.arm(True)
try:
    x.write_out(a)
except Exception:
    probes.arm(False)
    probes.part(x.is_saved_on(a), x.is_saved_on(b))
    x.write_out(b)
    realm = b
    ref = x.reference
    y = {load}
    {see}('stored', 0, y)
""")
            judge(ctx, Run(ctx, text, fail=fail_once, hooks={"ext probes.arm": arm}), kind.name, f"a part that was saved elsewhere, {part}", (
                ("before", "stored", "the object is not stored by the next save"),),
                expect("part", [False, False], "the saved states after the failing save"), failing=True)
        text = fill(kind, STARTS[0][1] + """
{change x}
{see}('before', 0, x)
probes.arm(True)
try:
    x.write_out(a)
except Exception:
    probes.failed(x.is_saved_on(a), x.is_saved_on(b))
probes.arm(False)
{see}('kept', 0, x)
x.write_out(a)
probes.end(x.is_saved_on(a))
realm = a
ref = x.reference
y = {load}
{see}('stored', 0, y)
""")

        def unsaved(run, s):
            got = values(s, "failed")
            return f"the saved states after the failing save: {got}" if got and got != [False, False] else None
        judge(ctx, Run(ctx, text, hooks={"ext probes.arm": arm, ".write": full, ".write_text": full, ".write_bytes": full}), kind.name,
              "no space for temporary files", (("before", "kept", "the content of the object is changed"),
                                               ("before", "stored", "the repeated save is not complete")),
              all_of(unsaved, expect("end", [True], "the object is not saved after the repeated save")))


# -- C11 ------------------------------------------------------------------------
def mark(name):
    def f(eng, st, recv, args, kw, node):
        st.glob[name] = sum(1 for e in st.events() if e.kind == "git")
        return [(st, NONE)]
    return f


def more_c11(ctx):
    ctx.rule("a saved object is complete on its destination, even if all other repositories are lost; saving it again runs no git "
             "command unless it is forced")
    for kind in KINDS + MORE:
        for start, setup in (("object in memory", "x = {create}"), ("saved elsewhere", STARTS[0][1]),
                             ("saved elsewhere, then changed", STARTS[0][1] + "\n{change x}"),
                             ("loaded from elsewhere", STARTS[2][1])):
            text = fill(kind, setup + """
{see}('want', 0, x)
try:
    r = x.write_out(b)
except RuntimeError:
    {see}('kept', 0, x)
    probes.raised(x.is_saved_on(b))
    return
probes.state(x.is_saved_on(b), r is x.reference, x.is_saved_on(a))
probes.realm(x.realm if not isinstance(x, (FileTree, DatasetTree)) else x.mtree.realm)
probes.mark1()
r2 = x.write_out(b)
probes.mark2()
probes.same(r2 is r)
x.write_out(b, force_write=True)
probes.mark3()
probes.forget(a)
realm = b
ref = r
y = {load}
{see}('got', 0, y)
""")

            def counts(run, s):
                raised = values(s, "raised")
                if raised and start == "loaded from elsewhere":
                    # parts that are not loaded are not copied
                    return "the object is regarded as saved" if raised[0] else diff(
                        seen(run.eng, s, "want"), seen(run.eng, s, "kept")) or None
                d = "saving raises" if raised else diff(seen(run.eng, s, "want"), seen(run.eng, s, "got"))
                if d:
                    return f"the object is not complete on its destination: {d}"
                g = s.glob
                if g.get("m1") != g.get("m2"):
                    return "saving a saved object writes again"
                if g.get("m2") == g.get("m3"):
                    return "a forced save writes nothing"
                r = probes(s, "realm")
                if r and plain(r[0][0]) != run.b:
                    return f"the realm of the object is {r[0][0]!r}"

            def state(run, s):
                v = values(s, "state") or probes(s, "raised") and [True, True]
                return False if v is None else None if v[:2] == [True, True] else f"state after saving: {v}"
            judge(ctx, Run(ctx, text, hooks={f"ext probes.mark{i}": mark(f"m{i}") for i in (1, 2, 3)}), kind.name, start, (), all_of(counts, state))
    for kind in KINDS + MORE:
        judge_elsewhere(ctx, kind, "not loaded", fill(kind, """o = {create}
{see}('want', 0, o)
realm = a
ref = o.write_out(a)
x = {load}
"""))
    for name, part, container in NOT_LOADED:
        kind = next(k for k in KINDS if k.name == name)
        judge_elsewhere(ctx, kind, f"part that is not loaded, {container}", fill(
            kind, f"o = {container.replace('{part}', part)}\n{{see}}('want', 0, o)\no.write_out(a)\np = {part}\nq = p.write_out(a)\np.purge()\n"
                  f"x = {container.replace('{part}', 'p')}\n"))


SET = "(lambda x: (x.{call}, x)[1])({new})"
RECORD = "small_record(1, 'v1', stamp, content)"
NOT_LOADED = (
    ("FileTree", "new_metadata(stamp, content)", SET.format(call="add_metadata(MetadataPath('d/f'), {part})", new="FileTree()")),
    ("MetadataRootRecord", "new_metadata(stamp, content)", "MetadataRootRecord(UUID(int=1), 'v1', {part}, new_files(stamp, content))"),
    ("MetadataRootRecord", "new_files(stamp, content)", "MetadataRootRecord(UUID(int=1), 'v1', new_metadata(stamp, content), {part})"),
    ("DatasetTree", RECORD, SET.format(call="add_dataset(MetadataPath('d'), {part})", new="DatasetTree()")),
    ("VersionList", RECORD, SET.format(call="set_versioned_element('v', 'time', MetadataPath('p'), {part})", new="VersionList()")),
    ("TreeVersionList", "small_datasets('v1', stamp, content)",
     SET.format(call="set_dataset_tree('v', 'time', MetadataPath('p'), {part})", new="TreeVersionList()")),
    ("UUIDSet", "new_versions(stamp, content)", SET.format(call="set_version_list(UUID(int=1), {part})", new="UUIDSet()")),
)


def judge_elsewhere(ctx, kind, label, program):
    """Saving an object on b that is not loaded, or has parts that are not loaded, raises or stores it completely."""
    text = program + fill(kind, """try:
    r = x.write_out(b)
except Exception:
    probes.raised(x.is_saved_on(b))
    {see}('kept', 0, x)
    return
probes.saved(x.is_saved_on(b))
probes.forget(a)
realm = b
ref = r
y = {load}
{see}('got', 0, y)
""")

    def complete(run, s):
        raised = values(s, "raised")
        if raised:
            return "the object is regarded as saved" if raised[0] else diff(seen(run.eng, s, "want"), seen(run.eng, s, "kept"))
        d = diff(seen(run.eng, s, "want"), seen(run.eng, s, "got"))
        return d and f"the object is not complete on its destination: {d}"
    judge(ctx, Run(ctx, text), kind.name, label, (), complete)


# -- C14 ------------------------------------------------------------------------
TOP = """t1, u1 = get_top_level_metadata_objects('git', a)
"""


def more_c14(ctx):
    ctx.rule("programs that save top-level objects: the top-level loader returns what was saved last; other classes change no "
             "reference")
    tree, uuids = next(k for k in KINDS if k.name == "TreeVersionList"), next(k for k in KINDS if k.name == "UUIDSet")
    for kind, pick, other in ((tree, "t1", "u1"), (uuids, "u1", "t1")):
        text = fill(kind, f"""x = {{create}}
{{see}}('first', 0, x)
x.write_out(a)
{TOP}{{see}}('got first', 0, {pick})
probes.other({other} is None)
{{change x}}
{{see}}('second', 0, x)
r = x.write_out(a)
{TOP}{{see}}('got second', 0, {pick})
y = {pick}
{{change y}}
{{see}}('third', 0, y)
y.write_out(a)
{TOP}{{see}}('got third', 0, {pick})
z = {{create}}
z.write_out(b)
{TOP}{{see}}('got third again', 0, {pick})
o = {pick}.deepcopy(new_destination=b)
t1, u1 = get_top_level_metadata_objects('git', b)
{{see}}('got copy', 0, {pick})
""")
        judge(ctx, Run(ctx, text), kind.name, "saved, changed and saved, loaded, changed and saved", (
            ("first", "got first", "the saved object is not found"),
            ("second", "got second", "the changed object is not found"),
            ("third", "got third", "the object that was loaded and changed is not found"),
            ("third", "got third again", "saving on another realm changes the reference"),
            ("third", "got copy", "the copy is not found on its destination")),
            expect("other", [True], "the other top-level element exists"))
        text = fill(kind, f"""x = {{create}}
{{see}}('first', 0, x)
x.write_out(a)
{{change x}}
{{see}}('second', 0, x)
probes.arm(True)
try:
    x.write_out(a)
    probes.worked()
except Exception:
    probes.arm(False)
    {TOP.strip()}
    {{see}}('kept', 0, {pick})
    {{see}}('first again', 0, {pick})
    x.write_out(a)
probes.arm(False)
{TOP}{{see}}('got second', 0, {pick})
""")

        def kept(run, s):
            return (diff(seen(run.eng, s, "first"), seen(run.eng, s, "kept")) or None) if not probes(s, "worked") else None
        judge(ctx, Run(ctx, text, fail=fail_once, hooks={"ext probes.arm": arm}), kind.name, "failing save", (
            ("second", "got second", "the repeated save is not found"),), kept, failing=True)
        text = fill(kind, f"""x = {{create}}
x.write_out(a)
e = {kind.name}()
e.write_out(a)
{TOP}probes.left(len(list({pick}.{"versions" if kind is tree else "uuids"}())))
{{see}}('first', 0, x)
x.write_out(a, force_write=True)
{TOP}{{see}}('got first', 0, {pick})
e = {kind.name}()
e.write_out(a)
{TOP}y = {pick}
{{change o}}
""".replace("{change o}", {"TreeVersionList": "y.set_dataset_tree('v', 'time', MetadataPath('p'), small_datasets('v', stamp, content))",
                           "UUIDSet": "y.set_version_list(UUID(int=5), new_versions(stamp, content))"}[kind.name]) + f"""{{see}}('next', 0, y)
y.write_out(a)
{TOP}{{see}}('got next', 0, {pick})
""")
        judge(ctx, Run(ctx, text), kind.name, "replaced by an empty object", (
            ("first", "got first", "the object that was saved again is not found"), ("next", "got next", "the changed object is not found")),
            expect("left", [0], "elements of the object that was replaced are found"))
    for kind in KINDS:
        if kind in (tree, uuids):
            continue
        text = fill(kind, """t = new_tree_versions(stamp, content)
t.write_out(a)
u = new_uuids(stamp, content)
u.write_out(a)
probes.refs1()
x = {create}
x.write_out(a)
{change x}
x.write_out(a, force_write=True)
probes.refs2()
""")

        def unchanged(run, s):
            if s.glob.get("r1") is None or s.glob["r1"] != s.glob["r2"]:
                return "a root reference is changed"
        judge(ctx, Run(ctx, text, hooks={"ext probes.refs1": snap("r1"), "ext probes.refs2": snap("r2")}), kind.name,
              "saved beside top-level elements", (), unchanged)


def snap(name):
    def f(eng, st, recv, args, kw, node):
        st.glob[name] = tuple(sorted((repr(k), tuple(sorted(v.items()))) for k, v in st.glob.items()
                                     if isinstance(k, tuple) and k[0] == "refs"))
        return [(st, NONE)]
    return f


# -- C15 ------------------------------------------------------------------------
def collect(eng, st, recv, args, kw, node):
    """git gc: all objects that are not reachable from a reference are lost."""
    realm = plain(args[0])
    objects = st.glob.get(("objects", realm), {})
    todo, keep = list(st.glob.get(("refs", realm), {}).values()), {}
    while todo:
        h = todo.pop()
        if h in keep or h not in objects:
            continue
        kind, content = keep[h] = objects[h]
        if kind == "tree":
            todo += [row[2] for row in content]
    st.glob[("objects", realm)] = keep
    return [(st, NONE)]


def more_c15(ctx):
    ctx.rule("after the object references are flushed, objects that are reachable from references are sufficient to load all "
             "saved top-level elements")
    parts = """f = new_files(stamp, content)
m = new_metadata(stamp, content)
f.write_out(a)
m.write_out(a)
{0}r = MetadataRootRecord(UUID(int=1), 'v1', m, f)
{1}see_record('want', 0, MetadataRootRecord(UUID(int=1), 'v1', new_metadata(stamp, content), new_files(stamp, content)))
d = DatasetTree()
d.add_dataset(MetadataPath('x/y'), r)
v = VersionList()
v.set_versioned_element('v1', 'time', MetadataPath(''), r)
t = TreeVersionList()
t.set_dataset_tree('v1', 'time', MetadataPath(''), d)
u = UUIDSet()
u.set_version_list(UUID(int=1), v)
u.write_out(a)
t.write_out(a)
flush_object_references(a)
probes.collect(a)
""" + TOP
    for how, more in (("loaded", ""), ("unloaded", "f.purge()\nm.purge()\n"), ("loaded again", "f = FileTree(None, a, f.reference)\nm = Metadata(a, m.reference)\n")):
        for how2, more2 in (("", ""), (", in a record that is saved and unloaded", "r.write_out(a)\nr.purge()\n"),
                            (", in a tree that is saved", "d0 = DatasetTree()\nd0.add_dataset(MetadataPath('x/y'), r)\nd0.write_out(a)\n")):
            for get in ("t1.get_dataset_tree('v1', MetadataPath(''))[2].get_metadata_root_record(MetadataPath('x/y'))",
                        "u1.get_version_list(UUID(int=1)).get_versioned_element('v1', MetadataPath(''))[2]"):
                judge(ctx, Run(ctx, parts.format(more, more2) + f"see_record('got', 0, {get})\n", hooks={"ext probes.collect": collect}),
                      "MetadataRootRecord", f"parts that were saved before, {how}{how2}, {get[:2]}", (("want", "got", "objects are not reachable"),))
    for name in ("TreeVersionList", "UUIDSet"):
        kind = next(k for k in KINDS if k.name == name)
        for i, (start, setup) in enumerate((("object in memory", "x = {create}\n{see}('want', 0, x)\nx.write_out(a)"),
                                            ("changed object", STARTS[0][1] + "\nflush_object_references(a)\nprobes.collect(a)\n"
                                             "{change x}\n{see}('want', 0, x)\nx.write_out(a)"),
                                            ("changed twice", STARTS[0][1] + "\n{change x}\nx.write_out(a)\n{see}('want', 0, x)"),
                                            ("saved without destination", STARTS[2][1] + "\n{change x}\n{see}('want', 0, x)\nx.write_out()"),
                                            ("copy", "x = {create}\n{see}('want', 0, x)\nx.write_out(b)\n"
                                                     "c = x.deepcopy(new_destination=a)"))):
            text = fill(kind, setup + f"""
flush_object_references(a)
probes.collect(a)
{TOP}{{see}}('got', 0, {'t1' if name[0] == 'T' else 'u1'})
""")
            judge(ctx, Run(ctx, text, hooks={"ext probes.collect": collect}), kind.name, start, (
                ("want", "got", "objects are not reachable"),))


# -- C09 ------------------------------------------------------------------------
def more_c09(ctx):
    ctx.rule("purging an object with unsaved changes at any level raises and keeps its content; purging a saved object unloads "
             "it, and its content can be loaded again")
    parts_saved(ctx)
    for kind in KINDS:
        for start, setup in (("new object", "x = {create}"), ("saved, then changed", STARTS[0][1] + "\n{change x}"),
                             ("loaded, then changed", STARTS[1][1] + "\n{change x}")):
            text = fill(kind, setup + """
try:
    x.purge()
    probes.purged()
except Exception:
    probes.refused()
probes.state({mapped x}, x.is_saved_on(a))
{see}('kept', 0, x)
o = {create}
""" + ("" if start == "new object" else "{change o}\n") + """{see}('want', 0, o)
x.write_out(a)
x.purge()
probes.end({mapped x}, x.is_saved_on(a))
{see}('got', 0, x)
x.purge()
x.purge()
probes.end2({mapped x})
realm = a
ref = x.reference
z = {load}
{see}('stored', 0, z)
""")

            def refused(run, s):
                return "a changed object is purged" if probes(s, "purged") else None
            judge(ctx, Run(ctx, text), kind.name, start, (
                ("want", "kept", "a refused purge changes the content"), ("want", "got", "a purged object is not loaded again"),
                ("want", "stored", "the stored object differs")),
                all_of(refused, expect("state", [True, False], "the state after a refused purge"),
                       expect("end", [False, True], "the state after a purge"),
                       expect("end2", [False], "a repeated purge")))


# -- C18 ------------------------------------------------------------------------
def more_c18(ctx):
    ctx.rule("for every git command of a program that saves or loads an object: if it fails, the program raises")
    for kind in KINDS:
        for name, text in (("saving", "x = {create}\nprobes.arm(True)\nx.write_out(a)\nprobes.done()"),
                           ("saving again", STARTS[0][1] + "\n{change x}\nprobes.arm(True)\nx.write_out(a)\nprobes.done()"),
                           ("copying", STARTS[0][1] + "\nprobes.arm(True)\nx.deepcopy(new_destination=b)\nprobes.done()"),
                           ("loading", STARTS[1][1] + "\nprobes.arm(True)\n{see}('got', 0, x)\nprobes.done()"),
                           ("flushing", STARTS[0][1] + "\nprobes.arm(True)\nflush_object_references(a)\nprobes.done()")):
            run = Run(ctx, fill(kind, text), fail=fail_once, hooks={"ext probes.arm": arm})
            for s, v in run.paths() or ():
                at = s.glob.get("failed")
                if run.store.unknown:
                    ctx.unknown(STORE, kind.name, f"{name}: {run.store.unknown[0]}")
                elif at and not probing(at):
                    ctx.check(not probes(s, "done"), STORE, kind.name, f"{name}: git {at} fails, but nothing is raised",
                              None, s, f"{name}: {at[:40]}")


# -- C17 ------------------------------------------------------------------------
def written(run, s):
    """Repositories that a program writes to."""
    return {plain(e.recv) for e in s.events() if e.kind == "git" and (
        e.name in ("mktree", "update-ref") or e.name == "hash-object" and "-w" in [getattr(plain(a), "v", None) for a in e.args])}


def more_c17(ctx):
    ctx.rule("programs that load from remote repositories: objects are complete, later reads of root references see what the "
             "remote repository has by then, two remote repositories do not mix, a failing command raises, nothing is written to them")
    for kind in KINDS + MORE[:3] + HOLLOW[:3]:
        text = fill(kind, """o = {create}
{see}('want', 0, o)
x = {create}
ref = x.write_out(a)
probes.publish(a, far)
probes.forget(a)
realm = far
y = {load}
{see}('got', 0, y)
{see}('again', 0, y)
z = {load}
ref = z.deepcopy(new_destination=b).reference
probes.forget(far)
realm = b
z = {load}
{see}('copy', 0, z)
""")
        judge(ctx, Run(ctx, text, remote=1), kind.name, f"{kind.create} on a remote realm", (
            ("want", "got", "the loaded object differs"), ("want", "again", "the loaded object changes"),
            ("want", "copy", "the copy of the object differs")))

        text = fill(kind, """x = {create}
ref = x.write_out(a)
probes.publish(a, far)
realm = far
y = {load}
{see}('before', 0, y)
for force in (False, True):
    try:
        y.write_out(far, force_write=force)
    except (RuntimeError, AssertionError):
        pass
{change y}
{see}('want', 0, y)
try:
    y.write_out(far)
except RuntimeError:
    probes.raised()
{see}('kept', 0, y)
probes.state(y.is_saved_on(far))
""")

        def refused(run, s):
            if run.remote[0] in written(run, s):
                return "git writes to a remote realm"
            if not probes(s, "raised"):
                return "changes are not saved, but nothing is raised"
        judge(ctx, Run(ctx, text, remote=1), kind.name, f"{kind.create}, saving on a remote realm", (
            ("want", "kept", "the object changes"),), all_of(refused, expect("state", [False], "is_saved_on(remote)")))

    roots = """t0 = new_tree_versions(stamp, content)
u0 = new_uuids(stamp, content)
t0.write_out(a)
u0.write_out(a)
flush_object_references(a)
probes.publish(a, far)
see_versions('trees', 0, t0)
see_uuids('uuids', 0, u0)
"""
    second = """t0.get_dataset_tree('v1', MetadataPath('pre'))[2].add_dataset(MetadataPath('new'), small_record(7, 'v7', stamp, content))
t0.set_dataset_tree('v8', 'time8', MetadataPath(''), small_datasets('v8', stamp, content))
u0.get_version_list(UUID(int=2)).set_versioned_element('v7', 'time7', MetadataPath(''), small_record(7, 'v7', stamp, content))
u0.set_version_list(UUID(int=9), new_versions(stamp, content + 'x'))
t0.write_out(a)
u0.write_out(a)
see_versions('trees2', 0, t0)
see_uuids('uuids2', 0, u0)
"""
    got = """t, u = get_top_level_metadata_objects('git', far)
probes.loaded{n}(t is not None, u is not None)
see_versions('got trees{n}', 0, t)
see_uuids('got uuids{n}', 0, u)
"""
    both = (("trees", "got trees", "the tree version list differs"), ("uuids", "got uuids", "the UUID set differs"))
    later = tuple((w + "2", g + "2", m) for w, g, m in both)

    def clean(run, s):
        if written(run, s) & set(run.remote):
            return "git writes to a remote realm"
    judge(ctx, Run(ctx, roots + got.replace("{n}", "") + second + "probes.publish(a, far)\n" + got.replace("{n}", "2"), remote=1),
          "get_top_level_metadata_objects", "a remote repository that is changed", both + later, clean)
    judge(ctx, Run(ctx, roots + got.replace("{n}", "") + """probes.publish(b, far)
t, u = get_top_level_metadata_objects('git', far)
probes.gone(t is None, u is None)
""", remote=1), "get_top_level_metadata_objects", "a remote repository that loses its root references", both,
          all_of(clean, expect("gone", [True, True], "loaded elements")))
    judge(ctx, Run(ctx, roots + second + """probes.publish(a, far2)
far, far2 = far2, far
""" + got.replace("{n}", "2") + "far, far2 = far2, far\n" + got.replace("{n}", "") + """t, u = get_top_level_metadata_objects('git', a)
see_versions('local trees', 0, t)
see_uuids('local uuids', 0, u)
""", remote=2), "get_top_level_metadata_objects", "two remote repositories", both + later + (
        ("trees2", "local trees", "the local tree version list differs"), ("uuids2", "local uuids", "the local UUID set differs")), clean)
    # parts of elements that were loaded before the repository changed
    judge(ctx, Run(ctx, roots + """t, u = get_top_level_metadata_objects('git', far)
""" + second + """probes.publish(a, far)
see_versions('got trees', 0, t)
see_uuids('got uuids', 0, u)
""", remote=1), "get_top_level_metadata_objects", "elements that were loaded before the remote repository changed", both, clean)
    # one element only
    for name, keep in (("trees", "t0 = new_tree_versions(stamp, content)\nt0.write_out(a)\n"), ("uuids", "u0 = new_uuids(stamp, content)\nu0.write_out(a)\n")):
        judge(ctx, Run(ctx, keep + """probes.publish(a, far)
t, u = get_top_level_metadata_objects('git', far)
probes.loaded(t is not None, u is not None)
probes.nodes(*[x is None for x in get_top_nodes_and_metadata_root_record(
    'git', far, UUID(int=1), 'v1', MetadataPath('pre'), MetadataPath(''), None, None, False)])
""", remote=1), "get_top_level_metadata_objects", f"a remote repository with {name} only", (), all_of(
            clean, expect("loaded", [name == "trees", name == "uuids"], "the loaded elements"), expect("nodes", [True] * 3, "missing elements")))
    # failures
    text = roots + """probes.arm(True)
""" + got.replace("{n}", "") + """probes.done()
"""
    run = Run(ctx, text, fail=fail_once, hooks={"ext probes.arm": arm}, remote=1)
    for s, v in run.paths() or ():
        at = s.glob.get("failed")
        if run.store.unknown:
            ctx.unknown(STORE, "get_top_level_metadata_objects", run.store.unknown[0])
        elif at and not probing(at):
            ctx.check(not probes(s, "done"), STORE, "get_top_level_metadata_objects", f"remote realm: git {at} fails, but nothing is raised",
                      None, s, f"remote: {at[:40]}")


# -- C21 ------------------------------------------------------------------------
# requests: dataset, version, prefix, path in the dataset tree, root dataset and its version, number of the record
LOOKUPS = (
    ("1", "'v1'", "", "", "", 1), ("3", "'v3'", "p/q", "", "", 3), ("2", "'v2'", "", "sub/ds", "1 'v1'", 2),
    ("1", "'v9'", "", "", "", 0), ("9", "'v1'", "", "", "", 0), ("1", "'v1'", "p/q", "", "", 0), ("3", "'v3'", "", "", "", 0),
    ("3", "'v3'", "p", "", "", 0), ("2", "'v2'", "", "sub", "1 'v1'", 0), ("2", "'v2'", "", "sub/ds/x", "1 'v1'", 0),
    ("2", "'v2'", "", "sub/ds", "3 'v3'", 0), ("2", "'v2'", "", "sub/ds", "1 'v9'", 0), ("2", "'v2'", "p/q", "sub/ds", "1 'v1'", 0),
)
LOOKUP_IMPORT = "from dataladmetadatamodel.common import get_metadata_root_record_from_top_nodes\n"


def stored(name):
    """The content of all repositories."""
    def f(eng, st, recv, args, kw, node):
        st.glob[name] = tuple(sorted((repr(k), tuple(sorted(map(repr, v.items())))) for k, v in st.glob.items()
                                     if isinstance(k, tuple) and k[0] in ("refs", "objects")))
        return [(st, NONE)]
    return f


INCOMPLETE = (      # indexes that do not contain the same records
    ("version list without versions", True, "u.set_version_list(UUID(int=1), VersionList())"),
    ("version list with another version", True, "u.set_version_list(UUID(int=1), new_versions(stamp, content))\n"
     "u.set_version_list(UUID(int=2), new_versions(stamp, content))"),
    ("no version lists", True, ""),
    ("no record of the root dataset", False, "u.set_version_list(UUID(int=1), VersionList())\nu.set_version_list(UUID(int=2), VersionList())"),
)


def more_c21(ctx):
    ctx.rule("programs that look up stored and missing records, in all orders of two, with elements that are loaded from a "
             "repository: the stored record or None is the result, nothing is written, all elements are saved and unchanged")
    setup = """for uid, version, prefix, path, root, root_version in (
        (1, 'v1', '', '', None, None), (3, 'v3', 'p/q', '', None, None), (1, 'v1', '', 'sub/ds', 2, 'v2')):
    t, u, r = get_top_nodes_and_metadata_root_record('git', a, UUID(int=uid), version, MetadataPath(prefix), MetadataPath(path),
                                                     None if root is None else UUID(int=root), root_version, True)
    r.set_dataset_level_metadata(new_metadata(stamp, content + version))
    if path == '':
        r.set_file_tree(new_files(stamp, content))
    if uid == 1 and path == '':
        see_record('dummy', 0, r)
    t.write_out(a)
    u.write_out(a)
flush_object_references(a)
t, u = get_top_level_metadata_objects('git', a)
see_versions('trees', 0, t)
see_uuids('uuids', 0, u)
"""

    def call(request, how):
        uid, version, prefix, path, root, number = request
        r = root.split(" ")
        if how == "top":
            first = (uid, version, "None", "None") if not root else (r[0], r[1], f"UUID(int={uid})", version)
            return (f"get_top_nodes_and_metadata_root_record('git', a, UUID(int={first[0]}), {first[1]}, MetadataPath({prefix!r}), "
                    f"MetadataPath({path!r}), {first[2]}, {first[3]})[2]")
        last = (f"UUID(int={r[0]})", r[1]) if root else ("None", "None")
        return (f"get_metadata_root_record_from_top_nodes(t, u, UUID(int={uid}), {version}, MetadataPath({prefix!r}), "
                f"MetadataPath({path!r}), {last[0]}, {last[1]})")
    for i, first in enumerate(LOOKUPS):
        for how in ("nodes", "top") if i < 4 or first[4] else ("nodes",):
            second = LOOKUPS[(i * 5 + 1) % len(LOOKUPS)]
            text = setup + "probes.stored1()\nt, u = get_top_level_metadata_objects('git', a)\n"
            for n, request in enumerate((first, second, first)):
                text += f"""r = {call(request, how)}
probes.found{n}(r is not None)
if r is not None:
    probes.id{n}(r.dataset_identifier == UUID(int={request[5]}), r.dataset_version == {request[1]})
    m = r.get_dataset_level_metadata()
    probes.part{n}(m is not None and 'core' in list(m.extractors))
"""
            text += """probes.saved(t.is_saved_on(a), u.is_saved_on(a))
see_versions('trees after', 0, t)
see_uuids('uuids after', 0, u)
r = t.write_out(a)
r = u.write_out(a)
probes.stored2()
"""
            fs = [expect("saved", [True, True], "the loaded elements are saved")]
            for n, request in enumerate((first, second, first)):
                fs.append(expect(f"found{n}", [request[5] > 0], f"lookup {n} finds a record"))
                if request[5]:
                    fs += [expect(f"id{n}", [True, True], f"identity of record {n}"), expect(f"part{n}", [True], f"metadata of record {n}")]

            def unwritten(run, s):
                if s.glob.get("s1") is None or s.glob["s1"] != s.glob["s2"]:
                    return "a lookup changes the repository"
            judge(ctx, Run(ctx, text, imports=LOOKUP_IMPORT, hooks={f"ext probes.stored{k}": stored(f"s{k}") for k in (1, 2)}),
                  "get_top_nodes_and_metadata_root_record" if how == "top" else "get_metadata_root_record_from_top_nodes",
                  " ".join(str(x) for x in first[:5]) + " and " + " ".join(str(x) for x in second[:5]),
                  (("trees", "trees after", "the tree version list differs"), ("uuids", "uuids after", "the UUID set differs")), all_of(*fs, unwritten))
    for label, root, versions in INCOMPLETE:
        text = "d = DatasetTree()\n" + ("d.add_dataset(MetadataPath(''), small_record(1, 'v1', stamp, content))\n" if root else "") + f"""
d.add_dataset(MetadataPath('sub/ds'), small_record(2, 'v2', stamp, content))
t = TreeVersionList()
t.set_dataset_tree('v1', 'time', MetadataPath(''), d)
u = UUIDSet()
{versions}
t.write_out(a)
u.write_out(a)
t, u = get_top_level_metadata_objects('git', a)
see_versions('trees', 0, t)
see_uuids('uuids', 0, u)
probes.stored1()
"""
        for n, request in enumerate(("UUID(int=1), 'v1', MetadataPath(''), MetadataPath(''), None, None", "UUID(int=2), 'v2', MetadataPath(''), "
                                     "MetadataPath('sub/ds'), UUID(int=1), 'v1'", "UUID(int=1), 'v2', MetadataPath(''), MetadataPath(''), None, None")):
            for nodes in ("t, u = get_top_level_metadata_objects('git', a)\n", ""):
                judge(ctx, Run(ctx, text + nodes + f"r = get_metadata_root_record_from_top_nodes(t, u, {request})\n" + """
probes.found(r is None)
probes.saved(t.is_saved_on(a), u.is_saved_on(a))
see_versions('trees after', 0, t)
see_uuids('uuids after', 0, u)
r = t.write_out(a)
r = u.write_out(a)
probes.stored2()
""", imports=LOOKUP_IMPORT, hooks={f"ext probes.stored{k}": stored(f"s{k}") for k in (1, 2)}), "get_metadata_root_record_from_top_nodes",
                      f"{label}, request {n}", (("trees", "trees after", "the tree version list differs"),
                                                ("uuids", "uuids after", "the UUID set differs")), all_of(
                    *([expect("found", [True], "None is returned")] if n == 2 else []), expect("saved", [True, True], "the elements are saved"), unwritten))
    for args in ("None, UUIDSet()", "TreeVersionList(), None", "None, None", "TreeVersionList(), UUIDSet()"):
        for tail in ("UUID(int=1), 'v1', MetadataPath(''), MetadataPath(''), None, None",
                     "UUID(int=2), 'v2', MetadataPath(''), MetadataPath('sub'), UUID(int=1), 'v1'"):
            judge(ctx, Run(ctx, f"probes.result(get_metadata_root_record_from_top_nodes({args}, {tail}) is None)\n", imports=LOOKUP_IMPORT),
                  "get_metadata_root_record_from_top_nodes", f"{args}, {tail}", (), expect("result", [True], "None is returned"))


# -- C22 ------------------------------------------------------------------------
REQUESTS = (
    (("7", "'v7'", "'pre'", "''", None),),
    (("7", "'v7'", "''", "''", None), ("7", "'v7'", "'pre'", "''", None), ("7", "'v8'", "''", "''", None)),
    (("7", "'v7'", "''", "''", None), ("8", "'v8'", "''", "'sub/ds'", ("7", "'v7'"))),
    (("8", "'v8'", "'pre'", "'sub/ds'", ("7", "'v7'")), ("9", "'v8'", "'pre'", "'sub/other'", ("7", "'v7'")),
     ("7", "'v7'", "'pre'", "''", None)),
    (("7", "'v7'", "''", "''", None), ("7", "'v7'", "''", "''", None)),
    (("8", "'v8'", "''", "'ds'", ("7", "'v7'")), ("8", "'v9'", "''", "'ds'", ("7", "'v6'"))),
)


def more_c22(ctx):
    ctx.rule("sequences of requests with auto_create, each one followed by a save: afterwards all records are found in both "
             "indexes of the stored version, with all metadata that were added")
    for requests in REQUESTS:
        calls = []
        for n, (uid, version, prefix, path, root) in enumerate(requests):
            top, sub = ((root, f"UUID(int={uid}), {version}") if root else ((uid, version), "None, None"))
            args = f"'git', a, UUID(int={top[0]}), {top[1]}, MetadataPath({prefix}), MetadataPath({path}), {sub}"
            calls.append((n, args, uid, version, prefix if path == "''" else "''"))
        text = ""
        for n, args, uid, version, prefix in calls:
            text += f"""t, u, r = get_top_nodes_and_metadata_root_record({args}, True)
probes.ids{n}(r.dataset_identifier == UUID(int={uid}), r.dataset_version == {version})
if r.get_dataset_level_metadata() is None:
    # empty objects are not stored
    r.set_dataset_level_metadata(Metadata())
if r.get_file_tree() is None:
    r.set_file_tree(FileTree())
r.get_dataset_level_metadata().add_extractor_run({n + 1}.5, 'e{n}', 'x', 'y', ExtractorConfiguration('3', {{}}), content)
r.get_file_tree().add_metadata(MetadataPath('file{n}'), new_metadata(stamp, content))
probes.changed{n}(t.is_saved_on(a), u.is_saved_on(a))
t.write_out(a)
u.write_out(a)
flush_object_references(a)
"""
        for n, args, uid, version, prefix in calls:
            text += f"""t, u, r = get_top_nodes_and_metadata_root_record({args}, False)
probes.found{n}(r.dataset_identifier == UUID(int={uid}), r.dataset_version == {version})
see_record('tree', {n}, r)
see_record('uuid', {n}, u.get_version_list(UUID(int={uid})).get_versioned_element({version}, MetadataPath({prefix}))[2])
m = r.get_dataset_level_metadata()
m.read_in()
probes.runs{n}('e{n}' in list(m.extractors), MetadataPath('file{n}') in r.get_file_tree())
"""
        fs = []
        for n in range(len(requests)):
            fs += [expect(f"ids{n}", [True, True], f"identity of record {n}"),
                   expect(f"changed{n}", [False, False], f"indexes are regarded as saved after request {n}"),
                   expect(f"found{n}", [True, True], f"identity of the stored record {n}"),
                   expect(f"runs{n}", [True, True], f"the metadata that were added to record {n}")]
        judge(ctx, Run(ctx, text), "get_top_nodes_and_metadata_root_record",
              "; ".join(f"{r[0]} {r[1]} {r[2]} {r[3]}" for r in requests),
              (("tree", "uuid", "the indexes differ"),), all_of(*fs))
    for label, root, versions in INCOMPLETE:
        for uid, version, path, rest in ((1, "v1", "", "MetadataPath(''), None, None"), (2, "v2", "sub/ds", "MetadataPath('sub/ds'), UUID(int=1), 'v1'")):
            judge(ctx, Run(ctx, "d = DatasetTree()\n" + ("d.add_dataset(MetadataPath(''), small_record(1, 'v1', stamp, content))\n" if root else "") + f"""
d.add_dataset(MetadataPath('sub/ds'), small_record(2, 'v2', stamp, content))
t = TreeVersionList()
t.set_dataset_tree('v1', 'time', MetadataPath(''), d)
see_versions('trees', 0, t)
u = UUIDSet()
{versions}
see_uuids('uuids', 0, u)
t.write_out(a)
u.write_out(a)
t, u = get_top_level_metadata_objects('git', a)
r = get_metadata_root_record_from_top_nodes(t, u, UUID(int={uid}), '{version}', MetadataPath(''), {rest}, True)
probes.found(r.dataset_identifier == UUID(int={uid}), r.dataset_version == '{version}')
k = t.get_dataset_tree('v1', MetadataPath(''))[2].get_metadata_root_record(MetadataPath(''))
if k is not None:
    probes.root(k.dataset_identifier == UUID(int=1), k.dataset_version == 'v1', k.get_file_tree() is not None,
                k.get_dataset_level_metadata() is not None)
t.write_out(a)
u.write_out(a)
t, u = get_top_level_metadata_objects('git', a)
see_versions('got trees', 0, t)
see_uuids('got uuids', 0, u)
see_record('tree', 0, t.get_dataset_tree('v1', MetadataPath(''))[2].get_metadata_root_record(MetadataPath('{path}')))
see_record('uuid', 0, u.get_version_list(UUID(int={uid})).get_versioned_element('{version}', MetadataPath(''))[2])
""", imports=LOOKUP_IMPORT), "get_metadata_root_record_from_top_nodes", f"{label}, record of {uid}", (("tree", "uuid", "the indexes differ"),), all_of(
                expect("found", [True, True], "identity of the record"), *([expect("root", [True] * 4, "parts of the root record")] if path else []),
                kept("trees", "got trees"), kept("uuids", "got uuids")))


# -- C23 ------------------------------------------------------------------------
def kept(want, got):
    """A program compares two sets of observations; everything that was there is still there."""
    def f(run, s):
        w, g = seen(run.eng, s, want), seen(run.eng, s, got)
        lost = [k for k in w if g[k] < w[k]]
        return f"stored content is lost: {lost[0][:200]}" if lost else None
    return f


def more_c23(ctx):
    ctx.rule("programs on repositories with none, one or both top-level elements: exactly the stored ones are loaded, requests "
             "keep everything that is stored and write nothing, an element that cannot be read raises")
    for trees in (True, False):
        for uuids in (True, False):
            setup = ("t0 = new_tree_versions(stamp, content)\nsee_versions('trees', 0, t0)\nt0.write_out(a)\n" if trees else "") + (
                "u0 = new_uuids(stamp, content)\nsee_uuids('uuids', 0, u0)\nu0.write_out(a)\n" if uuids else "")
            for realm in ("a",):
                text = setup + f"""probes.refs1()
t, u = get_top_level_metadata_objects('git', {realm})
probes.loaded(t is not None, u is not None)
if t is not None:
    see_versions('got trees', 0, t)
if u is not None:
    see_uuids('got uuids', 0, u)
t, u = get_top_level_metadata_objects('git', b)
probes.other(t is None, u is None)
probes.refs2()
"""

                def unchanged(run, s):
                    if s.glob.get("r1") is None or s.glob["r1"] != s.glob["r2"]:
                        return "loading changes a root reference"
                refs = {"ext probes.refs1": snap("r1"), "ext probes.refs2": snap("r2")}
                label = f"stored: {'trees ' if trees else ''}{'uuids' if uuids else ''}, realm {realm}"
                judge(ctx, Run(ctx, text, hooks=refs), "get_top_level_metadata_objects", label,
                      (("trees", "got trees", "the tree version list differs"), ("uuids", "got uuids", "the UUID set differs")),
                      all_of(expect("loaded", [trees, uuids], "the loaded elements"), expect("other", [True, True], "elements of an empty realm"),
                             unchanged))
            for create in (True, False):
                for version, prefix in (("'v1'", "'pre'"), ("'v9'", "''")):
                    request = f"get_top_nodes_and_metadata_root_record('git', a, UUID(int=1), {version}, MetadataPath({prefix}), MetadataPath(''), None, None, {create})"
                    text = setup + f"""probes.refs1()
t, u, r = {request}
probes.result(t is not None, u is not None, r is not None)
probes.refs2()
if t is not None:
    see_versions('kept trees', 0, t)
    see_uuids('kept uuids', 0, u)
    if r is not None:
        r.set_dataset_level_metadata(new_metadata(stamp, content))
    t.write_out(a)
    u.write_out(a)
t, u = get_top_level_metadata_objects('git', a)
if t is not None:
    see_versions('stored trees', 0, t)
if u is not None:
    see_uuids('stored uuids', 0, u)
"""
                    found = create or trees and uuids
                    known = version == "'v1'"
                    checks = [expect("result", [found, found, create or found and known], "the result"), unchanged]
                    if create and not known:
                        # a known record gets other metadata, which are the same as before
                        checks += [kept(w, f"stored {w}") for w in ("trees", "uuids")]
                    if found:
                        checks += [kept(w, f"kept {w}") for w in ("trees", "uuids")]
                    judge(ctx, Run(ctx, text, hooks=refs), "get_top_nodes_and_metadata_root_record",
                          f"stored: {'trees ' if trees else ''}{'uuids' if uuids else ''}, auto_create={create}, {version} {prefix}", (), all_of(*checks))
            if not (trees or uuids):
                continue
            for call in ("t, u = get_top_level_metadata_objects('git', a)",
                         "t, u, r = " + request.replace("False)", "True)")):
                text = setup + f"""probes.refs1()
probes.arm(True)
try:
    {call}
    probes.arm(False)
    if t is not None:
        see_versions('kept trees', 0, t)
    if u is not None:
        see_uuids('kept uuids', 0, u)
    probes.done()
except Exception:
    probes.raised()
probes.arm(False)
probes.refs2()
t, u = get_top_level_metadata_objects('git', a)
if t is not None:
    see_versions('got trees', 0, t)
if u is not None:
    see_uuids('got uuids', 0, u)
"""

                def complete(run, s):
                    if not probes(s, "done"):
                        return None
                    return kept("trees", "kept trees")(run, s) or kept("uuids", "kept uuids")(run, s)
                judge(ctx, Run(ctx, text, fail=fail_once, hooks={**refs, "ext probes.arm": arm}), call.split(" = ")[1].split("(")[0],
                      f"stored: {'trees ' if trees else ''}{'uuids' if uuids else ''}, failing git commands",
                      (("trees", "got trees", "the stored tree version list differs"), ("uuids", "got uuids", "the stored UUID set differs")),
                      all_of(complete, unchanged), failing=True)
    for filled in ("", "t.set_dataset_tree('v9', 't', MetadataPath('p'), small_datasets('v9', stamp, content))\n",
                   "u.set_version_list(UUID(int=9), new_versions(stamp, content))\n"):
        for create in (True, False):
            judge(ctx, Run(ctx, f"""t = TreeVersionList()
u = UUIDSet()
{filled}see_versions('trees', 0, t)
see_uuids('uuids', 0, u)
t.write_out(a)
u.write_out(a)
t, u, r = get_top_nodes_and_metadata_root_record('git', a, UUID(int=1), 'v1', MetadataPath(''), MetadataPath(''), None, None, {create})
probes.result(t is not None, u is not None, r is not None)
t.write_out()
u.write_out()
t, u = get_top_level_metadata_objects('git', a)
see_versions('got trees', 0, t)
see_uuids('got uuids', 0, u)
probes.count(len(t), len(u.uuids()))
""", imports=LOOKUP_IMPORT), "get_top_nodes_and_metadata_root_record", f"stored elements without content, {filled}create {create}", (), all_of(
                expect("result", [True, True, create], "the result"), kept("trees", "got trees"), kept("uuids", "got uuids"),
                expect("count", [create + (filled[:1] == "t"), create + (filled[:1] == "u")], "the stored numbers of versions and datasets")))

