"""Abstract construction of every concrete circuit component (shared by several rules)."""

from .common import *


def component_classes(prog):
    """Component classes whose constructor takes `mode`/`modes` (rebuildable from parameters)."""
    base = prog.cls("CircuitComponent")
    out = []
    for c in prog.subclasses(base, strict=False):
        init = init_func(c)
        if init is None:
            continue
        names = [p.name for p in init.params[1:]]
        out.append((c, init, names))
    return out


def make_param_values(prog):
    pass


def built(prog, rep):
    """[(class, init, names, interp, value, state)] for every component class, cached on prog."""
    if hasattr(prog, "_built"):
        return prog._built
    res = []
    for c, init, names in component_classes(prog):
        got = construct(rep, prog, c)
        if got is None:
            rep.skip(f"constructor of {c.name}")
            continue
        it, v, st, _ = got
        res.append((c, init, names, it, v, st))
    prog._built = res
    return res


def heap_obj(st, v):
    """The single instance `v` refers to, or None."""
    if len(v.refs) != 1:
        return None
    return st.heap.get(next(iter(v.refs)))


def dict_keys(st, v):
    """(keys -> V, open?) of the dict(s) `v` may be, or None."""
    out, open_ = {}, False
    if not v.refs or v.top:
        return None
    for r in v.refs:
        o = st.heap.get(r)
        if o is None or o.kind != "dict":
            return None
        for k, x in o.fields.items():
            out[k] = join(out[k], x) if k in out else x
        if o.elem is not None or o.origin is not None:
            open_ = True
    return out, open_
