"""P10, what is read from the syntax: update rules, dtypes, values, wires of a kind, arguments in their order."""

import ast

from ..model import Class, Func, dotted
from .comp import component_classes
from .common import own, init_func
from .p18 import changed

SAME = {"reshape", "astensor", "asnumpy", "array", "asarray", "broadcast_to", "atleast_nd", "cast", "tuple", "list", "float", "complex", "int", "squeeze", "expand_dims", "tile"}
WIRES = {
    "Ket": {"out_ket"}, "DM": {"out_bra", "out_ket"}, "Operation": {"in_ket", "out_ket"}, "Map": {"in_bra", "out_bra", "in_ket", "out_ket"},
}


def check_more(prog, rep):
    keys = optimizer_keys(prog)
    n = prog.cls("Wires")
    wn = [p.name for p in init_func(n).params[1:]] if n is not None and init_func(n) is not None else []
    for c, init, names in component_classes(prog):
        if "ansatz" in names and "wires" in names:
            continue
        if not isinstance(c.members.get("__init__"), Func):
            continue
        check_params(prog, rep, c, init, names, keys)
        check_kind(prog, rep, c, init, names, wn)
        for f in c.members.values():
            if isinstance(f, Func):
                check_order(prog, rep, c, f, names)
        for f in prog.funcs:
            if isinstance(f.node, ast.Lambda) and f.outer is init:
                check_order(prog, rep, c, f, names)


def optimizer_keys(prog):
    """The update rules the optimizer knows: the keys of the table it hands to optax."""
    out = set()
    for f in prog.funcs:
        if "training" in f.module.name and not isinstance(f.node, ast.Lambda):
            for n in own(f.node):
                if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] == "multi_transform" and n.args:
                    d = n.args[0]
                    if isinstance(d, ast.Name):
                        d = next((y.value for y in own(f.node) if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == d.id for t in y.targets)), d)
                    if isinstance(d, ast.Dict) and all(isinstance(k, ast.Constant) for k in d.keys):
                        out |= {k.value for k in d.keys}
    return out


def bound(g, e, skip=0):
    ps = [p.name for p in g.params][skip:]
    if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
        return None
    return dict(zip(ps, e.args)) | {k.arg: k.value for k in e.keywords}


def check_params(prog, rep, c, init, names, keys):
    ann = {p.name: ast.unparse(p.annotation).lower() if p.annotation is not None else "" for p in init.params}
    for e in own(init.node):
        if not isinstance(e, ast.Call) or not dotted(e.func):
            continue
        g = prog.resolve_expr(init.module, e.func)
        if not isinstance(g, Func) or g.name != "make_parameter":
            continue
        b = bound(g, e)
        nm = b.get("name") if b else None
        if not isinstance(nm, ast.Constant) or nm.value not in names:
            continue
        n = nm.value
        # the update rule is one the optimizer has, and the one made for this kind of parameter
        u = b.get("update_fn")
        if u is None:
            u = next((p.default for p in g.params if p.name == "update_fn"), None)
        fixed = isinstance(b.get("is_trainable"), ast.Constant) and not b["is_trainable"].value
        if keys and isinstance(u, ast.Constant) and not fixed:
            rep.ob("P10.update", f"{c.name}.{n}")
            if u.value not in keys:
                rep.find("P10.update", f"{c.name}.{n}", init.where(e), f"the update rule of `{n}` is {u.value!r}; the optimizer has {', '.join(sorted(keys))}: the parameter cannot be trained")
            elif f"update_{n}" in keys and u.value != f"update_{n}":
                rep.find("P10.update", f"{c.name}.{n}", init.where(e), f"`{n}` is updated by `{u.value}`, not by `update_{n}`")
        # the dtype can hold what the argument is
        d = (dotted(b["dtype"]) or "").split(".")[-1] if "dtype" in b else ""
        a = ann.get(n, "")
        if d:
            rep.ob("P10.dtype", f"{c.name}.{n}")
            if "complex" in a and d.startswith(("float", "int")) or ("float" in a or "real" in a) and d.startswith("int"):
                rep.find("P10.dtype", f"{c.name}.{n}", init.where(e), f"`{n}` ({a}) is stored as {d}")
        ch = changed(b["value"]) if "value" in b else None
        if "value" in b:
            rep.ob("P10.value", f"{c.name}.{n}")
            if ch and ch[0] in names:
                rep.find("P10.value", f"{c.name}.{n}", init.where(e), f"the parameter `{n}` is registered as `{ast.unparse(b['value'])}`, not as the argument that was given")


def check_kind(prog, rep, c, init, names, wn):
    """Kets have output ket wires, density matrices both outputs, operations ket wires, maps all four, on the modes that were given."""
    kinds = {k.name for k in c.mro()} if callable(getattr(c, "mro", None)) else {k.name for k in getattr(c, "mro", [])}
    want = next((WIRES[k] for k in ("Ket", "DM", "Operation", "Map") if k in kinds), None)
    if want is None or not wn:
        return
    for s in own(init.node):
        if not (isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and any(isinstance(t, ast.Attribute) and t.attr == "_wires" for t in s.targets)):
            continue
        r = prog.resolve_expr(init.module, s.value.func) if dotted(s.value.func) else None
        if not (isinstance(r, Class) and r.name == "Wires"):
            continue
        args = s.value.args
        if any(isinstance(a, ast.Starred) for a in args) or any(k.arg is None for k in s.value.keywords):
            continue
        b = dict(zip(wn, args)) | {k.arg: k.value for k in s.value.keywords}
        used = {k.removeprefix("modes_") for k, v in b.items() if k.startswith("modes_") and not nothing(v)}
        rep.ob("P10.wires", c.name)
        if used != want:
            rep.find("P10.wires", c.name, init.where(s), f"{c.name} has wires of kind {', '.join(sorted(used)) or 'none'}; a {next(k for k in ('Ket', 'DM', 'Operation', 'Map') if k in kinds)} has {', '.join(sorted(want))}")


def nothing(v):
    if isinstance(v, ast.Constant) and v.value is None:
        return True
    if isinstance(v, (ast.Tuple, ast.List, ast.Set)) and not v.elts or isinstance(v, ast.Dict) and not v.keys:
        return True
    return isinstance(v, ast.Call) and (dotted(v.func) or "") in ("set", "tuple", "list", "frozenset") and (not v.args or nothing(v.args[0]))


# ---- arguments in their order ----------------------------------------------------------------------


def source(e, alias):
    """The name of the parameter an expression is the value of."""
    while True:
        if isinstance(e, ast.Call) and e.args and (dotted(e.func) or "").split(".")[-1] in SAME:
            e = e.args[0]
        elif isinstance(e, ast.Attribute) and e.attr in ("value", "real"):
            e = e.value
        else:
            break
    if isinstance(e, ast.Name):
        return alias.get(e.id, e.id)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Attribute) and e.value.attr in ("parameters", "_parameters"):
        return e.attr
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
        return e.attr
    return None


def aliases(f):
    """Loop and comprehension targets over zips of parameters."""
    out = {}
    gens = [(n.target, n.iter) for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.comprehension))]
    for t, it in gens:
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args and isinstance(t, ast.Tuple) and len(t.elts) == 2:
            t, it = t.elts[1], it.args[0]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and isinstance(t, ast.Tuple) and len(t.elts) == len(it.args):
            for x, a in zip(t.elts, it.args):
                s = source(a, {})
                if isinstance(x, ast.Name) and s:
                    out[x.id] = s
        elif isinstance(t, ast.Name):
            s = source(it, {})
            if s:
                out[t.id] = s
    return out


def check_order(prog, rep, c, f, names):
    alias = aliases(f)
    mgr = prog.cls("BackendManager")
    vals = {n for n in names if not n.endswith(("_trainable", "_bounds")) and n not in ("mode", "modes")}
    for e in ast.walk(f.node):
        if isinstance(e, ast.Call) and e.args:
            g, skip = (prog.resolve_expr(f.module, e.func) if dotted(e.func) else None), 0
            if not isinstance(g, Func) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "math":
                g, skip = mgr.lookup(e.func.attr)[0], 1
            if isinstance(g, Func) and g.cls is not None and g.cls is not mgr and g.kind in ("method", "classmethod"):
                skip = 1
            b = bound(g, e, skip) if isinstance(g, Func) else None
            if not b:
                continue
            given = {p: source(a, alias) for p, a in b.items()}
            given = {p: s for p, s in given.items() if s in vals}
            if given:
                rep.ob("P10.order", f"{c.name}.{f.name}->{g.name}")
            for p, s in given.items():
                if p != s and s in b and p in vals and given.get(s) != s:
                    rep.find("P10.order", f"{c.name}.{f.name}->{g.name}({p})", f.where(e), f"`{s}` is passed as the parameter `{p}` of `{g.name}`, which has a parameter `{s}`")
            for p, a in b.items():
                ch = changed(strip_value(a))
                s = alias.get(ch[0], ch[0]) if ch else None
                if ch and s == p and s in vals:
                    rep.find("P10.value", f"{c.name}.{f.name}->{g.name}({p})", f.where(e), f"`{g.name}` is given `{ast.unparse(a)}` as `{p}`, not the parameter itself")
        elif isinstance(e, ast.Assign) and len(e.targets) == 1:
            pairs = [(e.targets[0], e.value)]
            t, v = e.targets[0], e.value
            if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts):
                pairs = list(zip(t.elts, v.elts))
            elif isinstance(t, ast.Tuple) and isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] == "broadcast_arrays" and len(v.args) == len(t.elts):
                pairs = list(zip(t.elts, v.args))
            for x, y in pairs:
                if isinstance(x, ast.Name) and x.id in vals:
                    s = source(y, {})
                    if s in vals and s != x.id:
                        rep.find("P10.order", f"{c.name}.{f.name}:{x.id}", f.where(e), f"`{x.id}` is the value of the parameter `{s}`")


def strip_value(a):
    """The expression with `self.parameters.x.value` read as `x`."""

    class T(ast.NodeTransformer):
        def visit_Attribute(self, n):
            s = source(n, {})
            return ast.Name(s, ast.Load()) if s else n

    return T().visit(ast.parse(ast.unparse(a), mode="eval").body)
