"""Helpers shared by the rules."""

from __future__ import annotations

import ast

from ..absint import E, FV, Budget, Interp, Obj, State, V, const, join, unknown
from ..model import AnalysisBroken, Class, Func, dotted

__all__ = [
    "AnalysisBroken", "Budget", "Class", "E", "FV", "Func", "Interp", "Obj", "State", "V", "ast",
    "const", "dotted", "has_atom", "init_fields", "join", "own", "run_safe", "unknown", "construct",
    "field_deps", "init_func", "public_funcs", "is_stub",
]


def own(node):
    """Nodes of a function body, without nested function bodies."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))


def has_atom(deps, path):
    """Does a dependency set contain `path` or something read through it (or a whole prefix)?"""
    for d in deps:
        if d == path or d.startswith(path + ".") or d.startswith(path + "["):
            return True
    return False


def init_func(cls):
    m, _ = cls.lookup("__init__")
    return m if isinstance(m, Func) else None


def init_fields(prog, cls):
    """Instance fields assigned in the __init__ chain of `cls` (syntactic, through super())."""
    out = {}
    for c in reversed(cls.mro):
        m = c.members.get("__init__")
        if isinstance(m, Func):
            sname = m.params[0].name if m.params else "self"
            for n in own(m.node):
                tg = []
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        tg += t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                elif isinstance(n, (ast.AnnAssign, ast.AugAssign)):
                    tg = [n.target]
                for t in tg:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == sname:
                        out.setdefault(t.attr, (m, n))
    return out


def run_safe(rep, it, func, **kw):
    """Run the interpreter; None when the analysis gives up (recorded as not analysed)."""
    try:
        return it.run(func, **kw)
    except Budget:
        rep.skip(f"{func.short()}: analysis budget exhausted")
    except RecursionError:
        rep.skip(f"{func.short()}: recursion limit")
    return None, None


def field_deps(it, st, v, name):
    """Union of atoms behind field `name` of the instances `v` may be, or None when absent."""
    out = None
    for r in v.refs:
        o = st.heap.get(r)
        if o is not None and name in o.fields:
            d = it.deep(o.fields[name], st) | o.fields[name].ctl
            out = d if out is None else out | d
    return out


def construct(rep, prog, cls, it=None):
    """Abstractly construct an instance of `cls`, one input atom per __init__ parameter.

    Returns (interp, value, state, param names) or None."""
    init = init_func(cls)
    if init is None:
        return None
    it = it or Interp(prog)
    st = State({}, {}, E)
    args = {}
    v = None
    from ..absint import Frame, _modfunc

    it.stack.append(Frame(_modfunc(cls.module), 0, ("ctor",)))
    try:
        v = it.new(st, "inst", cls.node, cls=(cls,))
        env = {init.params[0].name: V(refs=v.refs)}
        names = []
        for p in init.params[1:]:
            env[p.name] = it.input_param(st, init, p)
            x = env[p.name]
            if x.top and x.refs and all(st.heap[r].kind == "unknown" for r in x.refs):
                # a plain number or array, not a parameter object
                for r in x.refs:
                    st.heap[r] = st.heap[r].copy(kind="array")
                env[p.name] = V(x.deps, x.ctl, x.refs)
            elif x.top and not x.refs and not x.funcs:
                # an int, float or bool: neither a parameter object nor a tuple
                env[p.name] = V(x.deps, x.ctl, it.new(st, "array", p.annotation or init.node, deps=x.deps).refs)
            names.append(p.name)
            args[p.name] = env[p.name]
        try:
            rv, st2 = it.exec_func(init, env, st, selfv=env[init.params[0].name])
        except (Budget, RecursionError):
            rep.skip(f"{cls.name}.__init__: analysis budget exhausted")
            return None
        if rv is None:
            return None
        return it, V(refs=v.refs), st2, names
    finally:
        it.stack.pop()


def is_stub(f):
    """Body only a docstring / pass / ellipsis / raise NotImplementedError."""
    body = [
        s
        for s in f.node.body
        if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))
        and not isinstance(s, ast.Pass)
    ]
    if not body:
        return True
    return len(body) == 1 and isinstance(body[0], ast.Raise)


def public_funcs(prog):
    return [f for f in prog.funcs if f.outer is None and not isinstance(f.node, ast.Lambda)]
