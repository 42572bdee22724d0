"""Generic callers of the public methods of the model classes."""
import ast

from . import schema
from .model import mappable_like
from .shapes import NAMES, explicit_set, mappable, shapes, sym
from .values import ClsV, Const, FALSE, HObj, NONE, O, T, TRUE

# the interface that moves objects between memory and a backend
PROTOCOL_METHODS = {
    "read_in", "write_out", "purge", "ensure_mapped", "deepcopy", "is_saved_on",
    "touch", "set_saved_on", "set_unsaved", "modifiable_sub_objects",
    "init_from_json", "get_empty_instance", "is_root_path",
}
PROTOCOL_ATTRIBUTES = {
    "saved_on", "realm", "reference", "mapped", "stored_sub_locations",
    "leaf_class", "leaf_class_name", "mtree",
}
PATHS = ("", "new", NAMES[0], NAMES[1], NAMES[0] + "/x", NAMES[1] + "/x", "new/x")


def path(st, text):
    return T("new", "MetadataPath", Const(text))


def public_methods(p, cls):
    seen = {}
    for c in p.mro(cls):
        for name, f in c.methods.items():
            if name in seen or name.endswith("_impl"):
                continue
            if name.startswith("_") and not (name.startswith("__") and name in ("__contains__", "__len__", "__iter__")):
                continue
            if name in PROTOCOL_METHODS or f.has_decorator("staticmethod") or f.has_decorator("classmethod"):
                continue
            seen[name] = f
    return seen


def member(p, module, annotation):
    """Type of a parameter, the preferred member if it is a union."""
    t = schema.parse(p, module, annotation)
    if t is None and isinstance(annotation, ast.Subscript) \
            and getattr(annotation.value, "id", getattr(annotation.value, "attr", "")) == "Union" \
            and isinstance(annotation.slice, ast.Tuple):
        ts = [schema.parse(p, module, x) for x in annotation.slice.elts]
        ts = [x for x in ts if x is not None and x != ("prim", "NoneType")]
        for x in ts:
            if x == ("prim", "str"):
                return x
        return ts[-1] if ts else None
    if t is not None and t[0] == "opt":
        t = t[1]
    return t


def argument_variants(ctx, eng, st, f, with_none=False):
    """Yield (state, args, kwargs, label) for calls of f (without self)."""
    p = ctx.p
    a = f.node.args
    params = [x for x in a.posonlyargs + a.args][1:]
    defaults = [None] * (len(params) - len(a.defaults)) + list(a.defaults)
    has_path = [i for i, x in enumerate(params)
                if (lambda t: t in (("cls", "MetadataPath"), ("opt", ("cls", "MetadataPath"))))(
                    schema.parse(p, f.module, x.annotation)) or (x.annotation is None and x.arg == "path")]
    has_name = [] if has_path or f.cls is None or "MTree" not in f.cls.name and "Tree" not in f.cls.name else [
        i for i, x in enumerate(params)
        if member(p, f.module, x.annotation) == ("prim", "str") and "name" in x.arg]
    for text in (PATHS if has_path else NAMES[:2] + ("new",) if has_name else (None,)):
        choices = [True]
        if any(d is not None for d in defaults):
            choices.append(False)
        if with_none:
            choices.append(None)
        for given in choices:
            s = st.copy()
            args = {}
            for i, x in enumerate(params):
                if defaults[i] is not None and given is False:
                    continue
                t = member(p, f.module, x.annotation)
                if i in has_path:
                    args[x.arg] = path(s, text)
                elif i in has_name:
                    args[x.arg] = Const(text)
                elif t == ("prim", "bool"):
                    args[x.arg] = TRUE
                elif t is not None and t[0] == "cls" and t[1] in p.classes:
                    c = p.classes[t[1]]
                    if given is None and mappable_like(p, c):
                        args[x.arg] = NONE
                        continue
                    if c.name in ("MTreeNode",):
                        args[x.arg] = mappable_node(ctx, s, "arg_" + x.arg)
                    elif p.is_subclass(c, "MTreeProxy"):
                        args[x.arg] = mappable(ctx, s, c.name, "arg_" + x.arg)
                    elif c.name == "MappableObject":
                        args[x.arg] = ctx.obj(s, "Metadata", "arg_" + x.arg)
                    else:
                        args[x.arg] = ctx.obj(s, c, "arg_" + x.arg)
                else:
                    v = sym(s, "arg_" + x.arg, schema.to_raw(p, t) if t else None)
                    args[x.arg] = v
            label = f.name + (f"({text!r})" if text is not None else "") + {True: "", False: " [defaults]", None: " [None]"}[given]
            yield s, [], args, label


def existing_variants(ctx, eng, s, f, sh, kwargs):
    """Calls of f with keys and elements that are present in the object."""
    p = ctx.p
    keys = [(sh.keys.get(k), k) for k in sh.children]
    if not keys and sh.extra.get("keys"):
        keys = [(k, None) for k in sh.extra["keys"]]
    for key, child in keys[:2]:
        parts = list(key) if isinstance(key, tuple) else [key]
        for with_child in (True, False):
            new = dict(kwargs)
            changed = False
            for a in f.node.args.args[1:]:
                n = a.arg
                v = new.get(n)
                if v is None:
                    continue
                t = member(p, f.module, a.annotation)
                raw = schema.to_raw(p, t) if t else None
                if isinstance(v, O) and child is not None and s.h(v).kind == "inst" and s.h(v).cls is s.h(child).cls:
                    if with_child:
                        new[n] = child
                        changed = True
                    continue
                for x in parts:
                    xt = eng.typeof(s, x) if x is not None else None
                    if isinstance(x, T) and (xt == raw or (raw or "").lstrip("=<") == (xt or "").lstrip("=<") != "") and (
                            raw != "str" or "version" in n or "name" in n or "uuid" in n):
                        new[n] = x
                        changed = True
                        break
            if changed and (with_child or child is not None):
                yield new


def mappable_node(ctx, st, label, **attrs):
    return ctx.obj(st, "MTreeNode", label, leaf_class=ClsV(ctx.p.cls("Metadata")),
                   leaf_class_name=Const("Metadata"), **attrs)


def model_instances(ctx, eng, st, mapped=TRUE):
    """(state, class, object to call, shape) for all concrete model classes and proxies."""
    p = ctx.p
    for cls in p.concrete_subclasses("MappableObject"):
        for s, sh in shapes(ctx, eng, st, cls, mapped=mapped):
            yield s, cls, sh.obj, sh
    for cls in p.concrete_subclasses("MTreeProxy"):
        leaf = "Metadata" if cls.name == "FileTree" else "MetadataRootRecord"
        names = NAMES if cls.name == "FileTree" else (NAMES[0], ".datalad_metadata_root_record", NAMES[2])
        for s, sh in shapes(ctx, eng, st, p.cls("MTreeNode"), leaf, mapped, names):
            o = ctx.obj(s, cls, cls.name, mtree=sh.obj)
            yield s, cls, o, sh


def saved(ctx, st, obj, realm):
    """Make an object one that is stored, and not modified."""
    attrs = st.update(obj).attrs
    ref = ctx.obj(st, "Reference", "stored", opaque=False,
                  class_name=Const(st.h(obj).cls.name), location=sym(st, "stored_location", "str", True))
    st.facts[("eq", "stored")] = True
    attrs["saved_on"] = explicit_set(st, [realm], "saved_on")
    attrs["realm"] = realm
    attrs["reference"] = ref
    attrs["stored_sub_locations"] = NONE
    return ref
