"""A syntactic call graph with definite edges only, and the reads of process-wide state."""

from __future__ import annotations

import ast

from .model import Class, Func, Module, dotted, walk_own

MEMO = ("functools.lru_cache", "functools.cache", "functools.cached_property")
JIT = ("jax.jit", "equinox.filter_jit", "jax.custom_vjp.jit")


class Calls:
    def __init__(self, prog):
        self.prog = prog
        self._edges = {}
        self._inst = {}

    # ---- module-level singletons -------------------------------------------------------

    def singleton(self, r):
        """The class of a module-level object `X = Class(...)`, or None."""
        if isinstance(r, tuple) and r[0] == "var" and isinstance(r[1], ast.Call):
            m = r[2] if len(r) > 2 else None
            if m is None:
                return None
            key = id(r[1])
            if key not in self._inst:
                c = self.prog.resolve_expr(m, r[1].func)
                self._inst[key] = c if isinstance(c, Class) else None
            return self._inst[key]
        return None

    def bound_locally(self, f, name):
        """Is `name` a parameter or local variable of `f` (or of a function around it)?"""
        while f is not None:
            if any(p.name == name for p in f.params):
                return True
            if not hasattr(f, "_locals"):
                f._locals = {
                    n.id for n in walk_own(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)
                } | set(f.locals_funcs)
            if name in f._locals:
                return True
            f = f.outer
        return False

    def local_import(self, f, name):
        """What a function-level `from ... import name` binds."""
        while f is not None:
            if not hasattr(f, "_imports"):
                f._imports = {}
                for n in walk_own(f.node):
                    if isinstance(n, ast.ImportFrom):
                        for a in n.names:
                            f._imports[a.asname or a.name] = (n, a.name)
            if name in f._imports:
                n, orig = f._imports[name]
                mm = self.prog.modules.get(self.prog._abs_from(f.module, n))
                return self.prog.resolve_name(mm, orig) if mm is not None else None
            f = f.outer
        return None

    def resolve(self, f, e):
        """What an expression inside `f` denotes: Func, Class, Module, ('ext', …), ('inst', Class) or None."""
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in g.locals_funcs:
                    return g.locals_funcs[e.id]
                g = g.outer
            if f is not None and self.bound_locally(f, e.id):
                top = f
                while top.outer is not None:
                    top = top.outer
                if top.cls is not None and top.params and e.id == top.params[0].name and top.kind in ("method", "property", "setter"):
                    return ("inst", top.cls)
                if top.cls is not None and top.params and e.id == top.params[0].name and top.kind == "classmethod":
                    return top.cls
                return None
            r = self.local_import(f, e.id)
            if r is not None:
                return self._wrap(r)
            return self._wrap(self.prog.resolve_name(f.module, e.id))
        if isinstance(e, ast.Attribute):
            b = self.resolve(f, e.value)
            if isinstance(b, tuple) and b[0] == "inst":
                m, _ = b[1].lookup(e.attr)
                return m if isinstance(m, Func) else None
            if isinstance(b, (Module, Class)) or (isinstance(b, tuple) and b[0] == "ext"):
                return self._wrap(self.prog.resolve_attr(b, e.attr))
            return None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "super":
                top = f
                while top is not None and top.outer is not None:
                    top = top.outer
                if top is not None and top.cls is not None and len(top.cls.mro) > 1:
                    return ("inst", top.cls.mro[1])
                return None
            r = self.resolve(f, e.func)
            if isinstance(r, Class):
                return ("inst", r)
            return None
        return None

    def _wrap(self, r):
        if isinstance(r, Module):
            # a module that replaces itself: sys.modules[__name__] = Class()
            for s in r.tree.body:
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and ast.unparse(s.targets[0]) == "sys.modules[__name__]" and isinstance(s.value, ast.Call):
                    c = self.prog.resolve_expr(r, s.value.func)
                    if isinstance(c, Class):
                        return ("inst", c)
        c = self.singleton(r)
        return ("inst", c) if c is not None else r

    def edges(self, f):
        """[(node, Func)] calls and property reads of `f` that are certain, nested functions included."""
        if f in self._edges:
            return self._edges[f]
        out = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                r = self.resolve(f, n.func)
                if isinstance(r, Class):
                    r = r.lookup("__init__")[0]
                if isinstance(r, Func):
                    out.append((n, r))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                r = self.resolve(f, n)
                if isinstance(r, Func) and r.kind == "property":
                    out.append((n, r))
        self._edges[f] = out
        return out

    def reachable(self, f, stop=lambda g: False):
        """{Func: path from f} of everything certainly called from `f`."""
        seen = {f: (f,)}
        todo = [f]
        while todo:
            g = todo.pop()
            for _, h in self.edges(g):
                if h not in seen and not stop(h):
                    seen[h] = (*seen[g], h)
                    todo.append(h)
        return seen

    # ---- decorators ----------------------------------------------------------------------

    def decorators(self, f):
        out = []
        for d in getattr(f.node, "decorator_list", []):
            e = d.func if isinstance(d, ast.Call) else d
            if isinstance(d, ast.Call) and (dotted(e) or "").split(".")[-1] == "partial" and d.args:
                e = d.args[0]
            r = self.resolve(f.outer, e) if f.outer is not None else self._wrap(self.prog.resolve_expr(f.module, e))
            if isinstance(r, tuple) and r[0] == "ext":
                out.append((r[1], d))
            elif isinstance(r, Func):
                out.append((r, d))
            elif isinstance(r, tuple) and r[0] == "inst":
                out.append(("", d))
            else:
                out.append((dotted(e) or "", d))
        return out

    def is_memo(self, f):
        return any(isinstance(d, str) and d in MEMO for d, _ in self.decorators(f))

    def is_jit(self, f):
        return any(isinstance(d, str) and d in JIT for d, _ in self.decorators(f))


def settings_reads(calls, f):
    """[(node, NAME)] reads of settings.NAME in `f` (nested functions included)."""
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            b = calls.resolve(f, n.value)
            if isinstance(b, tuple) and b[0] == "inst" and b[1] is not None and b[1].name == "Settings" and n.attr != "_frozen":
                if f.cls is not None and f.cls.name == "Settings":
                    continue
                out.append((n, n.attr))
    return out
