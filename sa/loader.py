"""Load the analysed program: modules, classes, functions and their bindings.

Nothing of the analysed repository is imported or executed, the program is
only parsed.
"""
import ast
import os
from pathlib import Path

PACKAGE = "dataladmetadatamodel"
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))


class BrokenAnchor(Exception):
    """The analysis cannot find a construct it is anchored in."""


class Function:
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = node.name
        self.qualname = (cls.name + "." if cls else "") + node.name
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.is_generator = _is_generator(node)

    def has_decorator(self, name):
        return any(
            d == name or d.endswith("." + name) or d.startswith(name + "(")
            for d in self.decorators)

    def __repr__(self):
        return f"<{self.module.name}:{self.qualname}>"


def _is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.assigns = {}        # class level name -> expression node
        self.annotations = []    # annotated names in order (dataclass fields)
        self.base_exprs = [
            ast.unparse(b) for b in node.bases]
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self._fill(node.body)

    def _fill(self, body):
        for stmt in body:
            if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Function(stmt, self.module, self)
                if f.has_decorator("setter") or any(
                        d.endswith(".setter") for d in f.decorators):
                    self.methods[stmt.name + ".setter"] = f
                else:
                    self.methods[stmt.name] = f
            elif isinstance(stmt, ast.Assign):
                for t in stmt.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = stmt.value
            elif isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name):
                self.annotations.append((stmt.target.id, stmt.value))
                if stmt.value is not None:
                    self.assigns[stmt.target.id] = stmt.value
            elif isinstance(stmt, ast.If):
                taken = _static_test(stmt.test)
                if taken is None:
                    self._fill(stmt.body)
                    self._fill(stmt.orelse)
                else:
                    self._fill(stmt.body if taken else stmt.orelse)

    def is_dataclass(self):
        return any(d.split("(")[0].split(".")[-1] == "dataclass" for d in self.decorators)

    def __repr__(self):
        return f"<class {self.name}>"


TARGET_VERSION = (3, 12)


def _static_test(test):
    """Decide `sys.version_info` comparisons for the interpreter in use."""
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        left = ast.unparse(test.left)
        if left in ("sys.version_info", "version_info", "sys.version_info[:2]"):
            try:
                right = ast.literal_eval(test.comparators[0])
            except ValueError:
                return None
            have = TARGET_VERSION + (3,) if len(right) > 2 else TARGET_VERSION
            op = type(test.ops[0])
            if op is ast.GtE:
                return have >= right
            if op is ast.Gt:
                return TARGET_VERSION + (3,) > right
            if op is ast.Lt:
                return have < right
            if op is ast.LtE:
                return TARGET_VERSION + (3,) <= right
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        inner = _static_test(test.operand)
        return None if inner is None else not inner
    if isinstance(test, (ast.Name, ast.Attribute)) and ast.unparse(test) in (
            "TYPE_CHECKING", "typing.TYPE_CHECKING"):
        return False
    return None


class Module:
    def __init__(self, name, path, tree, is_package):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_package = is_package
        self.functions = {}
        self.classes = {}
        self.bindings = {}   # name -> ("import", mod) | ("from", mod, attr)
        self.assigns = {}    # name -> expression node
        self.toplevel = []   # other top-level statements (expression calls ..)
        self._fill(tree.body)

    def _fill(self, body):
        for stmt in body:
            if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[stmt.name] = Function(stmt, self)
            elif isinstance(stmt, ast.ClassDef):
                self.classes[stmt.name] = Class(stmt, self)
            elif isinstance(stmt, (ast.Import, ast.ImportFrom)):
                for name, b in import_bindings(self, stmt):
                    self.bindings[name] = b
            elif isinstance(stmt, ast.Assign):
                for t in stmt.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = stmt.value
                    elif isinstance(t, ast.Subscript):
                        self.toplevel.append(stmt)
            elif isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name):
                if stmt.value is not None:
                    self.assigns[stmt.target.id] = stmt.value
            elif isinstance(stmt, ast.If):
                taken = _static_test(stmt.test)
                if taken is None:
                    if ast.unparse(stmt.test).startswith("__name__"):
                        continue
                    self._fill(stmt.body)
                    self._fill(stmt.orelse)
                else:
                    self._fill(stmt.body if taken else stmt.orelse)
            elif isinstance(stmt, ast.Try):
                self._fill(stmt.body)
            elif isinstance(stmt, (ast.Expr, ast.For)):
                self.toplevel.append(stmt)


def import_bindings(module, stmt):
    """Yield (local name, binding) for an import statement."""
    if isinstance(stmt, ast.Import):
        for a in stmt.names:
            if a.asname:
                yield a.asname, ("import", a.name)
            else:
                yield a.name.split(".")[0], ("import", a.name.split(".")[0])
    else:
        base = stmt.module or ""
        if stmt.level:
            parts = module.name.split(".")
            if not module.is_package:
                parts = parts[:-1]
            up = stmt.level - 1
            parts = parts[:len(parts) - up] if up else parts
            base = ".".join(parts + ([base] if base else []))
        for a in stmt.names:
            yield a.asname or a.name, ("from", base, a.name)


class Program:
    def __init__(self, repo=None, overlay=None):
        """overlay: replacement texts for files, by relative path (used by the self-test)."""
        self.repo = Path(repo or REPO)
        overlay = overlay or {}
        self.modules = {}
        self.classes = {}
        root = self.repo / PACKAGE
        if not root.is_dir():
            raise BrokenAnchor(f"package directory {root} not found")
        for path in sorted(root.rglob("*.py")):
            rel = path.relative_to(self.repo)
            if "tests" in rel.parts:
                continue
            parts = list(rel.with_suffix("").parts)
            is_package = parts[-1] == "__init__"
            if is_package:
                parts = parts[:-1]
            name = ".".join(parts)
            tree = ast.parse(overlay.get(str(rel)) or path.read_text(), str(rel))
            self.modules[name] = Module(name, str(rel), tree, is_package)
        for m in self.modules.values():
            if m.name.endswith("._version"):
                continue
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)
        self._mro = {}

    # -- name resolution ---------------------------------------------------
    def resolve(self, module, name, seen=None):
        """Resolve a global name in a module.

        Result: ("func", Function) | ("class", Class) | ("module", Module) |
        ("global", Module, name) | ("ext", dotted) | None
        """
        seen = seen or set()
        if (module.name, name) in seen:
            return None
        seen.add((module.name, name))
        if name in module.functions:
            return "func", module.functions[name]
        if name in module.classes:
            return "class", module.classes[name]
        if name in module.assigns:
            return "global", module, name
        if name in module.bindings:
            return self.resolve_binding(module.bindings[name], seen)
        return None

    def resolve_binding(self, b, seen=None):
        if b[0] == "import":
            if b[1] in self.modules:
                return "module", self.modules[b[1]]
            return "ext", b[1]
        _, modname, attr = b
        if modname in self.modules:
            r = self.resolve(self.modules[modname], attr, seen)
            if r is not None:
                return r
            sub = modname + "." + attr
            if sub in self.modules:
                return "module", self.modules[sub]
            return "ext", sub
        return "ext", modname + "." + attr

    # -- classes -----------------------------------------------------------
    def base_classes(self, cls):
        """Package base classes and external base names."""
        result = []
        for b in cls.node.bases:
            if isinstance(b, ast.Name):
                r = self.resolve(cls.module, b.id)
                if r and r[0] == "class":
                    result.append(r[1])
                elif r and r[0] == "ext":
                    result.append(r[1])
                else:
                    result.append(b.id)
            elif isinstance(b, ast.Attribute):
                base = ast.unparse(b)
                head = base.split(".")[0]
                r = self.resolve(cls.module, head)
                if r and r[0] == "module":
                    rr = self.resolve(r[1], base.split(".")[-1])
                    result.append(rr[1] if rr and rr[0] == "class" else base)
                elif r and r[0] == "ext":
                    result.append(r[1] + base[len(head):])
                else:
                    result.append(base)
            else:
                result.append(ast.unparse(b))
        return result

    def mro(self, cls):
        if cls in self._mro:
            return self._mro[cls]
        order = [cls]
        for b in self.base_classes(cls):
            if isinstance(b, Class):
                for c in self.mro(b):
                    if c in order:
                        order.remove(c)
                    order.append(c)
        self._mro[cls] = order
        return order

    def external_bases(self, cls):
        result = []
        for c in self.mro(cls):
            for b in self.base_classes(c):
                if isinstance(b, str):
                    result.append(b)
        return result

    def is_subclass(self, cls, name):
        return any(c.name == name for c in self.mro(cls)) \
            or any(b.split(".")[-1] == name for b in self.external_bases(cls))

    def find_method(self, cls, name, after=None):
        mro = self.mro(cls)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if name in c.methods:
                return c.methods[name]
            if name in c.assigns:
                return None
        return None

    def find_class_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.assigns:
                return c, c.assigns[name]
        return None

    def cls(self, name):
        if name not in self.classes:
            raise BrokenAnchor(f"class {name} not found")
        return self.classes[name]

    def method(self, class_name, name):
        m = self.find_method(self.cls(class_name), name)
        if m is None:
            raise BrokenAnchor(f"method {class_name}.{name} not found")
        return m

    def module(self, suffix):
        for n, m in self.modules.items():
            if n == PACKAGE + ("." + suffix if suffix else ""):
                return m
        raise BrokenAnchor(f"module {suffix} not found")

    def function(self, module_suffix, name):
        m = self.module(module_suffix)
        r = self.resolve(m, name)
        if r is None or r[0] != "func":
            raise BrokenAnchor(f"function {module_suffix}.{name} not found")
        return r[1]

    def is_abstract(self, cls):
        names = set()
        for c in self.mro(cls):
            names |= set(c.methods)
        return any(
            (m := self.find_method(cls, n)) is not None
            and m.has_decorator("abstractmethod")
            for n in names)

    def concrete_subclasses(self, base_name):
        self.cls(base_name)
        return [
            c for c in self.classes.values()
            if c.name != base_name and self.is_subclass(c, base_name)
            and not self.is_abstract(c)]
