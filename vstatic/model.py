"""Resolved program model of /repo/mrmustard, built from its current source with ``ast`` only.

Nothing of the analysed package is imported or executed.  The model offers: modules, classes with
their method resolution order, functions (methods, properties, setters, nested functions), and
name resolution through imports, relative imports and star imports.
"""

from __future__ import annotations

import ast
import hashlib
import os
from dataclasses import dataclass, field

REPO = os.environ.get("VSTATIC_REPO", "/repo")
PKG = "mrmustard"


class AnalysisBroken(Exception):
    """A construct the analysis is anchored on has vanished: no verdict is possible."""


@dataclass(eq=False)
class Param:
    name: str
    kind: str  # 'pos', 'vararg', 'kwonly', 'kwarg'
    default: ast.expr | None
    annotation: ast.expr | None


@dataclass(eq=False)
class Func:
    name: str
    qualname: str  # module:Class.name or module:outer.<locals>.name
    module: "Module"
    node: ast.AST  # FunctionDef / Lambda
    cls: "Class | None" = None
    kind: str = "function"  # function, method, classmethod, staticmethod, property, setter
    params: list = field(default_factory=list)
    decorators: list = field(default_factory=list)
    outer: "Func | None" = None
    locals_funcs: dict = field(default_factory=dict)

    @property
    def file(self):
        return self.module.relpath

    @property
    def line(self):
        return self.node.lineno

    @property
    def body(self):
        if isinstance(self.node, ast.Lambda):
            return [ast.copy_location(ast.Return(value=self.node.body), self.node.body)]
        return self.node.body

    def param_names(self):
        return [p.name for p in self.params]

    def short(self):
        return self.qualname.split(":", 1)[1]

    def where(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return f"{self.file}:{n.lineno} ({self.short()})"

    def is_abstract(self):
        return any(d.split(".")[-1] == "abstractmethod" for d in self.decorators)

    def __repr__(self):
        return f"<Func {self.qualname}>"


@dataclass(eq=False)
class Class:
    name: str
    qualname: str
    module: "Module"
    node: ast.ClassDef
    bases: list = field(default_factory=list)  # list of Class or str (external dotted name)
    members: dict = field(default_factory=dict)  # name -> Func | ('attr', expr)
    setters: dict = field(default_factory=dict)
    _mro: list | None = None

    @property
    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def lookup(self, name, after=None):
        """Member `name` and the class defining it, following the MRO."""
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1 :] if after in mro else []
        for c in mro:
            if name in c.members:
                return c.members[name], c
        return None, None

    def lookup_setter(self, name):
        for c in self.mro:
            if name in c.setters:
                return c.setters[name]
        return None

    def is_subclass(self, other):
        return other in self.mro

    def __repr__(self):
        return f"<Class {self.qualname}>"


def _c3(cls):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in o[1:] for o in seqs):
                    break
            else:
                raise AnalysisBroken(f"inconsistent MRO for {cls.qualname}")
            out.append(h)
            seqs = [[x for x in o if x is not h] for o in seqs]
            seqs = [o for o in seqs if o]
        return out

    bases = [b for b in cls.bases if isinstance(b, Class)]
    return [cls] + merge([b.mro for b in bases] + [bases])


@dataclass(eq=False)
class Module:
    name: str
    path: str
    relpath: str
    is_pkg: bool
    tree: ast.Module
    source: str
    names: dict = field(default_factory=dict)  # name -> binding
    all_names: list | None = None
    all_funcs: list = field(default_factory=list)

    def __repr__(self):
        return f"<Module {self.name}>"


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


class Program:
    """All modules of the package."""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, Class] = {}
        self.funcs: list[Func] = []
        self.parse_errors = []
        root = os.path.join(repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"{root} does not exist")
        h = hashlib.sha256()
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                    h.update(p.encode() + b"\0" + src.encode() + b"\0")
                    rel = os.path.relpath(p, repo)
                    parts = rel[:-3].split(os.sep)
                    is_pkg = parts[-1] == "__init__"
                    if is_pkg:
                        parts = parts[:-1]
                    try:
                        tree = ast.parse(src, p)
                    except SyntaxError as e:
                        raise AnalysisBroken(f"cannot parse {rel}: {e}") from e
                    m = Module(".".join(parts), p, rel, is_pkg, tree, src)
                    self.modules[m.name] = m
        self.digest = h.hexdigest()
        for m in self.modules.values():
            self._collect(m)
        self._resolve_bases()
        self.by_name: dict[str, list[Class]] = {}
        for c in self.classes.values():
            self.by_name.setdefault(c.name, []).append(c)

    # ---- collection -----------------------------------------------------------------

    def _collect(self, m: Module):
        for node in m.tree.body:
            self._collect_stmt(m, node)
        # imports within functions: names that mean nothing else in the module
        known = dict(m.names)
        for node in ast.walk(m.tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for x in ast.walk(node):
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        self._collect_stmt(m, x)
        m.names.update(known)

    def _collect_stmt(self, m, node):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            m.names[node.name] = self._func(m, node, None, None)
        elif isinstance(node, ast.ClassDef):
            m.names[node.name] = self._class(m, node)
        elif isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    m.names[a.asname] = ("import", a.name)
                else:
                    m.names[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
        elif isinstance(node, ast.ImportFrom):
            base = self._abs_from(m, node)
            for a in node.names:
                if a.name == "*":
                    m.names.setdefault("*", []).append(base)
                else:
                    m.names[a.asname or a.name] = ("from", base, a.name)
        elif isinstance(node, ast.Assign):
            for t in node.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        m.names[n.id] = ("var", node.value, m)
                if isinstance(t, ast.Name) and t.id == "__all__":
                    try:
                        m.all_names = list(ast.literal_eval(node.value))
                    except (ValueError, TypeError):
                        m.all_names = None
        elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
            m.names[node.target.id] = ("var", node.value, m)
        elif isinstance(node, (ast.If, ast.Try, ast.With)):
            for fld in ("body", "orelse", "finalbody"):
                for s in getattr(node, fld, []) or []:
                    self._collect_stmt(m, s)
            for h in getattr(node, "handlers", []) or []:
                for s in h.body:
                    self._collect_stmt(m, s)

    def _abs_from(self, m, node):
        if node.level == 0:
            return node.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[: len(parts) - (node.level - 1)]
        if node.module:
            parts = parts + node.module.split(".")
        return ".".join(parts)

    def _func(self, m, node, cls, outer, prefix=None):
        decs = []
        if not isinstance(node, ast.Lambda):
            for d in node.decorator_list:
                dd = d.func if isinstance(d, ast.Call) else d
                decs.append(dotted(dd) or ast.unparse(dd))
        name = "<lambda>" if isinstance(node, ast.Lambda) else node.name
        if prefix is None:
            prefix = f"{m.name}:" + (cls.name + "." if cls else "")
        kind = "function"
        if cls is not None and outer is None:
            kind = "method"
            for d in decs:
                last = d.split(".")[-1]
                if last in ("classmethod", "staticmethod"):
                    kind = last
                elif last in ("property", "cached_property"):
                    kind = "property"
                elif last == "setter":
                    kind = "setter"
            if name == "__new__":
                kind = "staticmethod"
        a = node.args
        params = []
        pos = a.posonlyargs + a.args
        defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for p, d in zip(pos, defaults):
            params.append(Param(p.arg, "pos", d, p.annotation))
        if a.vararg:
            params.append(Param(a.vararg.arg, "vararg", None, a.vararg.annotation))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            params.append(Param(p.arg, "kwonly", d, p.annotation))
        if a.kwarg:
            params.append(Param(a.kwarg.arg, "kwarg", None, a.kwarg.annotation))
        f = Func(name, prefix + name, m, node, cls, kind, params, decs, outer)
        self.funcs.append(f)
        m.all_funcs.append(f)
        node._vfunc = f
        if not isinstance(node, ast.Lambda):
            for s in node.body:
                self._nested(m, s, cls, f)
        else:
            self._nested(m, node.body, cls, f)
        return f

    def _nested(self, m, node, cls, outer):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = self._func(m, node, cls, outer, prefix=outer.qualname + ".<locals>.")
            outer.locals_funcs[node.name] = g
            return
        if isinstance(node, ast.Lambda):
            self._func(m, node, cls, outer, prefix=outer.qualname + ".<locals>.")
            return
        if isinstance(node, ast.ClassDef):
            return
        for ch in ast.iter_child_nodes(node):
            self._nested(m, ch, cls, outer)

    def _class(self, m, node):
        c = Class(node.name, f"{m.name}:{node.name}", m, node)
        self.classes[c.qualname] = c
        for s in node.body:
            self._class_stmt(m, c, s)
        return c

    def _class_stmt(self, m, c, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = self._func(m, s, c, None)
            if f.kind == "setter":
                c.setters[s.name] = f
            else:
                c.members[s.name] = f
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    c.members[t.id] = ("attr", s.value)
                    if isinstance(s.value, ast.Lambda):
                        self._func(m, s.value, c, None)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            if s.value is not None:
                c.members[s.target.id] = ("attr", s.value)
        elif isinstance(s, (ast.If, ast.Try)):
            for fld in ("body", "orelse", "finalbody"):
                for x in getattr(s, fld, []) or []:
                    self._class_stmt(m, c, x)

    def _resolve_bases(self):
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                if isinstance(r, Class):
                    c.bases.append(r)
                else:
                    c.bases.append(r[1] if isinstance(r, tuple) and r[0] == "ext" else ast.unparse(b))

    # ---- resolution ------------------------------------------------------------------

    def resolve_name(self, m: Module, name: str, _seen=None):
        """Resolve a module-level name: Func | Class | Module | ('var', expr, module) |
        ('ext', dotted) | None."""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        b = m.names.get(name)
        if b is None:
            for base in m.names.get("*", []):
                mm = self.modules.get(base)
                if mm is None:
                    continue
                if mm.all_names is not None and name not in mm.all_names:
                    continue
                if mm.all_names is None and name.startswith("_"):
                    continue
                r = self.resolve_name(mm, name, _seen)
                if r is not None:
                    return r
            sub = self.modules.get(m.name + "." + name)
            if m.is_pkg and sub is not None:
                return sub
            return None
        if isinstance(b, (Func, Class)):
            return b
        if b[0] == "import":
            return self.modules.get(b[1]) or ("ext", b[1])
        if b[0] == "from":
            base, n = b[1], b[2]
            mm = self.modules.get(base)
            if mm is not None:
                if n in mm.names or "*" in mm.names:
                    r = self.resolve_name(mm, n, _seen)
                    if r is not None:
                        return r
                sub = self.modules.get(base + "." + n)
                if sub is not None:
                    return sub
                return None
            return ("ext", (base + "." if base else "") + n)
        if b[0] == "var":
            return b
        return None

    def resolve_expr(self, m: Module, node):
        """Resolve a dotted expression at module level."""
        if isinstance(node, ast.Name):
            return self.resolve_name(m, node.id)
        if isinstance(node, ast.Attribute):
            r = self.resolve_expr(m, node.value)
            return self.resolve_attr(r, node.attr)
        if isinstance(node, ast.Subscript):
            return self.resolve_expr(m, node.value)
        return None

    def resolve_attr(self, r, attr):
        if isinstance(r, Module):
            x = self.resolve_name(r, attr)
            if x is not None:
                return x
            return self.modules.get(r.name + "." + attr)
        if isinstance(r, Class):
            mem, _ = r.lookup(attr)
            return mem
        if isinstance(r, tuple) and r[0] == "ext":
            return ("ext", r[1] + "." + attr)
        return None

    # ---- anchors ---------------------------------------------------------------------

    def cls(self, name) -> Class:
        c = self.by_name.get(name, [])
        if len(c) != 1:
            raise AnalysisBroken(f"class {name}: {len(c)} definitions")
        return c[0]

    def maybe_cls(self, name):
        c = self.by_name.get(name, [])
        return c[0] if len(c) == 1 else None

    def module(self, name) -> Module:
        if name not in self.modules:
            raise AnalysisBroken(f"module {name} vanished")
        return self.modules[name]

    def subclasses(self, base: Class, strict=True):
        return [
            c
            for c in self.classes.values()
            if base in c.mro and (c is not base or not strict)
        ]


def walk_own(node):
    """Walk a function body without entering nested function/class definitions."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))
