"""Types of attributes, derived from annotations in constructors.

Types are structures: ("cls", name), ("opt", t), ("dict", key, value),
("list", t), ("set", t), ("prim", name), or None for an unknown type.
"""
import ast

# Types of attributes that carry no annotation in the source. They are used to
# resolve method calls, an attribute that is not found is simply untyped.
FALLBACK = {
    ("MTreeNode", "child_nodes"): "Dict[str, MappableObject]",
    ("UUIDSet", "uuid_set"): "Dict[UUID, VersionList]",
    ("MetadataInstanceSet", "parameter_set"): "List[ExtractorConfiguration]",
    ("MetadataInstanceSet", "_instances"): "Dict[int, MetadataInstance]",
    ("MTreeProxy", "mtree"): "MTreeNode",
    ("ModifiableObject", "saved_on"): "Set[str]",
    ("ExtractorConfiguration", "parameter"): "Dict[str, Any]",
    ("MappableObject", "mapped"): "bool",
    ("VersionRecord", "element"): "MappableObject",
}

PRIMS = {"str", "int", "bool", "float", "bytes"}


def parse(program, module, node):
    if node is None:
        return None
    if isinstance(node, ast.Constant):
        if node.value is None:
            return ("prim", "NoneType")
        if isinstance(node.value, str):
            try:
                return parse(program, module, ast.parse(node.value, mode="eval").body)
            except SyntaxError:
                return None
        return None
    if isinstance(node, (ast.Name, ast.Attribute)):
        name = node.id if isinstance(node, ast.Name) else node.attr
        if name in PRIMS:
            return ("prim", name)
        if name in ("dict", "Dict", "DefaultDict", "defaultdict"):
            return ("dict", None, None)
        if name in ("list", "List"):
            return ("list", None)
        if name in ("set", "Set"):
            return ("set", None)
        if name == "UUID":
            return ("prim", "UUID")
        if name in ("Path", "PurePath", "PurePosixPath"):
            return ("prim", "Path")
        if name in program.classes:
            return ("cls", name)
        return None
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        a, b = parse(program, module, node.left), parse(program, module, node.right)
        if b == ("prim", "NoneType"):
            return ("opt", a)
        if a == ("prim", "NoneType"):
            return ("opt", b)
        return None
    if isinstance(node, ast.Subscript):
        base = node.value.id if isinstance(node.value, ast.Name) else getattr(node.value, "attr", "")
        args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
        sub = [parse(program, module, a) for a in args]
        if base == "Optional":
            return ("opt", sub[0])
        if base in ("Dict", "dict", "DefaultDict", "Mapping") and len(sub) == 2:
            return ("dict", sub[0], sub[1])
        if base in ("List", "list", "Iterable", "Sequence"):
            return ("list" if base in ("List", "list") else "iter", sub[0])
        if base in ("Set", "set"):
            return ("set", sub[0])
        if base in ("Tuple", "tuple"):
            return ("tuple", *sub)
        if base == "Union":
            if ("prim", "NoneType") in sub:
                rest = [s for s in sub if s != ("prim", "NoneType")]
                return ("opt", rest[0] if len(rest) == 1 else None)
            return None
    return None


def build(program):
    schema = {}
    for c in program.classes.values():
        fields = schema.setdefault(c.name, {})
        for name, _ in c.annotations:
            for stmt in c.node.body:
                if isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name) \
                        and stmt.target.id == name:
                    fields[name] = parse(program, c.module, stmt.annotation)
        init = c.methods.get("__init__")
        if init is None:
            continue
        params = {a.arg: parse(program, c.module, a.annotation)
                  for a in init.node.args.args}
        selfname = init.node.args.args[0].arg if init.node.args.args else "self"

        def value_type(e):
            if isinstance(e, ast.Name):
                return params.get(e.id)
            if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
                t = value_type(e.values[0])
                if t and t[0] == "opt":
                    t = t[1]
                return t
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
                if e.func.id in program.classes:
                    return ("cls", e.func.id)
                if e.func.id in ("dict", "list", "set"):
                    return {"dict": ("dict", None, None), "list": ("list", None),
                            "set": ("set", None)}[e.func.id]
            if isinstance(e, (ast.Dict, ast.DictComp)):
                return ("dict", None, None)
            if isinstance(e, ast.List):
                return ("list", None)
            return None
        for x in ast.walk(init.node):
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Attribute) \
                    and isinstance(x.target.value, ast.Name) and x.target.value.id == selfname:
                fields[x.target.attr] = parse(program, c.module, x.annotation)
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) \
                            and t.value.id == selfname:
                        vt = value_type(x.value)
                        old = fields.get(t.attr)
                        if old is None or (vt is not None and old[0] == "opt" and vt[0] == "cls"):
                            fields[t.attr] = vt
    for (cname, attr), text in FALLBACK.items():
        c = program.classes.get(cname)
        if c is None:
            continue
        have = schema[cname].get(attr)
        if have is None or have in (("dict", None, None), ("list", None), ("set", None)) or have[0] == "opt":
            schema[cname][attr] = parse(program, c.module, ast.parse(text, mode="eval").body)
    return schema


def lookup(program, cls, attr):
    if not hasattr(program, "_schema"):
        program._schema = build(program)
    for c in program.mro(cls):
        t = program._schema.get(c.name, {}).get(attr)
        if t is not None:
            return t
    return None


def to_raw(program, t):
    if t is None:
        return None
    k = t[0]
    if k == "opt":
        inner = to_raw(program, t[1])
        return "?" + inner if inner else None
    if k == "cls":
        c = program.classes[t[1]]
        leaf = not any(x is not c and program.is_subclass(x, c.name)
                       for x in program.classes.values())
        return ("=" if leaf else "<") + t[1]
    if k in ("dict", "list", "set", "tuple"):
        return k
    if k == "prim":
        return t[1]
    return None
