"""P02 -- the JAX pytree protocol is lossless."""

from .common import *
from .p01 import LOSSY, Faithful, iterated, type_test

TITLE = "pytree flatten/unflatten"


def check(prog, rep):
    rep.rule("P02.roundtrip", "unflatten(flatten(x)) restores every instance field of x from that field", 60)
    rep.rule("P02.arity", "unflatten unpacks exactly the elements flatten produced", 1)
    rep.rule("P02.shared", "the parameters of a component and of its ansatz stay the same objects", 1)
    rep.rule("P02.leaves", "trainable values are children (leaves), constants and labels are static", 3)
    rep.rule("P02.lossless", "flatten and unflatten neither convert nor rearrange what they carry", 5)
    rep.rule("P02.registered", "every class with the protocol is registered with its own functions in order", 5)

    classes = []
    for c in prog.classes.values():
        if c.name.startswith("Backend"):
            continue
        fl, _ = c.lookup("_tree_flatten")
        un, _ = c.lookup("_tree_unflatten")
        if isinstance(fl, Func) and isinstance(un, Func) and not any(
            isinstance(m, Func) and m.is_abstract() and c.lookup(n)[0] is m for k in c.mro for n, m in k.members.items()
        ):
            classes.append((c, fl, un))
    seen = {}
    for c, fl, un in classes:
        fields = init_fields(prog, c)
        key = (fl, un, tuple(sorted(fields)))
        if key in seen:
            for f in fields:
                rep.ob("P02.roundtrip", f"{c.name}.{f} (as {seen[key]})")
            continue
        seen[key] = c.name
        check_class(prog, rep, c, fl, un, fields)
        chain = [fl, un] + [m for k in c.mro if isinstance(k, Class) for n, m in k.members.items() if n in ("_tree_flatten", "_tree_unflatten") and isinstance(m, Func) and m not in (fl, un) and not m.is_abstract() and via_super(fl, un)]
        for fn in chain:
            rep.ob("P02.lossless", f"{c.name}.{fn.name}")
            skip = iterated(fn)
            ps = [p.name for p in fn.params]
            for n, msg in transport(fn, ps[:1] if fn.name == "_tree_flatten" else ps[1:]):
                rep.find("P02.lossless", f"{c.name}.{fn.name}:{ast.unparse(n)[:40]}", fn.where(n), msg)
            for n in own(fn.node):
                if n in skip:
                    continue
                name = n.attr if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) else n.func.id if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) else None
                if name in LOSSY:
                    rep.find("P02.lossless", f"{c.name}.{fn.name}:{name}", fn.where(n), f"`{name}` drops or rearranges part of what is flattened")
    check_registration(prog, rep)


def via_super(*fs):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" for f in fs for n in own(f.node))


def transport(f, seeds):
    """What flatten and unflatten compute from what they carry, beyond handing it over."""
    t = Faithful(f, seeds)
    for n, msg in t.faults():
        # parts of the pair itself: what is not restored is reported field by field
        if not (isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in seeds and f.name == "_tree_unflatten"):
            yield n, msg
    tests = set()
    for n in t.nodes:
        if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)):
            tests |= {id(x) for x in ast.walk(n.test)}
        elif isinstance(n, ast.comprehension):
            tests |= {id(x) for c in n.ifs for x in ast.walk(c)}
    for n in t.nodes:
        if id(n) in tests:
            continue
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("bool", "len", "int", "float", "complex", "str", "max", "min", "any", "all", "repr", "set", "frozenset") and any(t.data(a) for a in n.args):
            yield n, f"`{ast.unparse(n)}` is handed over instead of the value itself"
        elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And) and t.data(n) or isinstance(n, ast.Compare) and t.data(n) or isinstance(n, ast.UnaryOp) and t.data(n):
            yield n, f"`{ast.unparse(n)}` is handed over instead of the value itself"


def check_class(prog, rep, c, fl, un, fields):
    mism = []

    it = Interp(prog, max_depth=6)
    v, st = run_safe(rep, it, fl, self_cls=c)
    if v is None:
        rep.skip(f"{c.name}._tree_flatten")
        return
    known, _ = it.elements(v, st)
    if known is None or len(known) != 2:
        rep.skip(f"{c.name}._tree_flatten does not return a literal pair")
        return
    children, aux = known
    # leaves
    ch = it.deep(children, st)
    for fld, want in (("_value", {"Variable": True, "Constant": False}), ("_variables", {"ParameterSet": True}),
                      ("_constants", {"ParameterSet": False}), ("_kwargs", {"PolyExpAnsatz": True, "ArrayAnsatz": True}),
                      ("_parameters", {"CircuitComponent": True}), ("_ansatz", {"CircuitComponent": True}),
                      ("components", {"Circuit": True}), ("_wires", {"CircuitComponent": False}), ("_name", {"Variable": False, "Constant": False})):
        if c.name in want:
            rep.ob("P02.leaves", f"{c.name}.{fld}")
            inside = has_atom(ch, "self." + fld)
            if inside != want[c.name]:
                rep.find("P02.leaves", f"{c.name}.{fld}", fl.where(),
                         "is not among the children: gradients and updates cannot reach it" if want[c.name]
                         else "is among the children: it would be differentiated, updated or traced")
    if c.name in ("PolyExpAnsatz", "ArrayAnsatz"):
        for fld in ("_A", "_b", "_c", "_array"):
            if fld in fields:
                rep.ob("P02.leaves", f"{c.name}.{fld}")
    # round trip
    pn = [p.name for p in un.params]
    if len(pn) != 3:
        rep.skip(f"{c.name}._tree_unflatten signature")
        return
    env = {pn[0]: V(funcs=(FV("class", c),)), pn[1]: aux, pn[2]: children}
    arity = arity_mismatches(it, un, st, env)
    rep.ob("P02.arity", f"{c.name}")
    if arity:
        n, have, want = arity
        rep.find("P02.arity", f"{c.name}", un.where(n), f"unpacks {want} values where flatten stored {have}")
        return
    tested = set()
    it.on_test = lambda test, tv, s, frame: tested.update(it.deep(tv, s)) if frame.func is un and not type_test(test) else None
    try:
        st2 = State({}, st.heap, E)
        r, st3 = it.exec_func(un, dict(env), st2)
    except (Budget, RecursionError):
        rep.skip(f"{c.name}._tree_unflatten")
        return
    if r is None or not r.refs:
        rep.skip(f"{c.name}._tree_unflatten returns no instance")
        return
    if "_parameters" in fields and has_atom(ch, "self._ansatz") and c.members.get(un.name) is un:
        # one object in the component: the parameters of the set and those of the ansatz
        rep.ob("P02.shared", c.name)
        if not relinked(it, st3, r):
            rep.find("P02.shared", c.name, un.where(), "the parameters of the ansatz are no longer those of the component after a round trip")
    fixed = constant_fields(prog, rep, c)
    for f in fields:
        if c.lookup_setter(f) is not None or isinstance(c.lookup(f)[0], Func):
            continue  # stored through a property setter in another field
        rep.ob("P02.roundtrip", f"{c.name}.{f}")
        if f in fixed and field_deps(it, st3, r, f) is not None:
            continue  # every instance holds the same value
        d = field_deps(it, st3, r, f)
        if d is None:
            if all(st3.heap[x].elem is not None for x in r.refs if x in st3.heap):
                rep.skip(f"{c.name}.{f} (opaque instance)")
                continue
            rep.find("P02.roundtrip", f"{c.name}.{f}", un.where(), f"field `{f}` is not restored by unflatten")
        elif ctl_deps(st3, r, f) & tested:
            rep.find("P02.roundtrip", f"{c.name}.{f}", un.where(), f"what field `{f}` is restored to depends on a test of {sorted(ctl_deps(st3, r, f))[:3]}")
        elif not has_atom(d, f"self.{f}") and "self" not in d:
            rep.find("P02.roundtrip", f"{c.name}.{f}", un.where(),
                     f"field `{f}` is rebuilt from {sorted(d)} instead of the flattened `{f}`")


def relinked(it, st, v):
    for r in v.refs:
        o = st.heap.get(r)
        a = o.fields.get("_ansatz") if o is not None else None
        p = o.fields.get("_parameters") if o is not None else None
        if a is None or p is None:
            return True
        for x in a.refs:
            k = st.heap[x].fields.get("_kwargs") if x in st.heap else None
            d = it.deep(k, st) if k is not None else None
            if d is not None and not any(has_atom(d, t) for t in it.deep(p, st)):
                return False
            if d is None:
                return False
    return True


def ctl_deps(st, v, f):
    """Branch conditions deciding the value of field `f` itself."""
    out = set()
    for r in v.refs:
        o = st.heap.get(r)
        if o is not None and f in o.fields:
            out |= o.fields[f].ctl
    return out


def arity_mismatches(it, un, st, env):
    """First tuple-unpacking in `un` whose known source length differs from its targets."""
    found = []
    orig = it.assign

    def assign(t, v, s, node, aug=False):
        if isinstance(t, (ast.Tuple, ast.List)) and it.stack and it.stack[-1].func is un:
            known, _ = it.elements(v, s)
            star = any(isinstance(e, ast.Starred) for e in t.elts)
            if known is not None and ((not star and len(known) != len(t.elts)) or (star and len(known) < len(t.elts) - 1)):
                found.append((node, len(known), len(t.elts)))
        return orig(t, v, s, node, aug)

    it.assign = assign
    try:
        it.exec_func(un, dict(env), State({}, dict(st.heap), E))
    except (Budget, RecursionError):
        pass
    finally:
        it.assign = orig
    return found[0] if found else None


def check_registration(prog, rep):
    m = prog.module("mrmustard.math.backend_jax")
    covered = set()
    any_call = False
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in ("register_pytree_node",) and len(n.args) == 3:
            any_call = True
            cls_expr = n.args[0]
            names = []
            loop = _enclosing_for(m.tree, n)
            direct = prog.resolve_expr(m, cls_expr)
            if isinstance(direct, Class):
                covered.add(direct)
                names.append(direct.name)
            elif isinstance(cls_expr, ast.Name) and loop is not None:
                for sub in ast.walk(loop.iter):
                    r = prog.resolve_expr(m, sub) if isinstance(sub, (ast.Name, ast.Attribute)) else None
                    if isinstance(r, Class):
                        names.append(r.name)
                        covered.update(x for x in prog.subclasses(r))
            inst = "+".join(names) or ast.unparse(cls_expr)
            rep.ob("P02.registered", inst)
            for arg, want in ((n.args[1], "_tree_flatten"), (n.args[2], "_tree_unflatten")):
                if isinstance(arg, ast.Attribute):
                    if arg.attr in ("_tree_flatten", "_tree_unflatten") and arg.attr != want:
                        rep.find("P02.registered", inst, f"{m.relpath}:{n.lineno}", f"{arg.attr} registered where {want} belongs")
                    if ast.dump(arg.value) != ast.dump(cls_expr):
                        a = prog.resolve_expr(m, arg.value)
                        if isinstance(direct, Class) and isinstance(a, Class) and a is not direct and direct.lookup(want)[0] is not a.lookup(want)[0]:
                            rep.find("P02.registered", inst, f"{m.relpath}:{n.lineno}", f"registered with the {want} of {a.name}")
    # registrations through helper functions cannot be enumerated: only judge when calls were seen
    if not any_call:
        raise AnalysisBroken("no register_pytree_node call in backend_jax")
    for c in prog.classes.values():
        if not isinstance(c.lookup("_tree_flatten")[0], Func) or c.name.startswith("Backend"):
            continue
        if any(isinstance(mm, Func) and mm.is_abstract() and c.lookup(n)[0] is mm for k in c.mro for n, mm in k.members.items()):
            continue
        rep.ob("P02.registered", c.name)
        if c not in covered:
            helper = any(
                isinstance(n, ast.Name) and n.id == c.name
                for n in ast.walk(m.tree)
            )
            if helper:
                rep.skip(f"registration of {c.name}")
                continue
            rep.find("P02.registered", c.name, f"{c.module.relpath}:{c.node.lineno}", "is never registered as a JAX pytree node")


def _enclosing_for(tree, node):
    best = None
    for n in ast.walk(tree):
        if isinstance(n, ast.For) and any(x is node for x in ast.walk(n)):
            best = n
    return best


def constant_fields(prog, rep, c):
    """Fields of a parameter-free class that no constructor argument reaches."""
    got = construct(rep, prog, c)
    if got is None:
        return set()
    it, v, st, _ = got
    out = set()
    for r in v.refs:
        o = st.heap.get(r)
        for f, x in (o.fields if o is not None else {}).items():
            if not it.deep(x, st) and not x.ctl and not x.top:
                out.add(f)
    return out - {n for n, k, lazy in later_stores(prog) if not (k in c.mro and lazy)}


GROW = {"append", "extend", "insert", "add", "update", "setdefault", "pop", "popitem", "remove", "clear", "discard"}


def later_stores(prog):
    """(attribute, class, by a property?) stored outside constructors and unflatten; a property stores what it remembers."""
    if not hasattr(prog, "_later_stores"):
        out = set()
        for f in prog.funcs:
            if isinstance(f.node, ast.Lambda) or f.name in ("__init__", "__new__", "_tree_unflatten"):
                continue
            for n in own(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add((n.attr, f.cls, f.kind == "property"))
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute):
                    out.add((n.value.attr, f.cls, f.kind == "property"))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW and isinstance(n.func.value, ast.Attribute):
                    out.add((n.func.value.attr, f.cls, f.kind == "property"))
        prog._later_stores = out
    return prog._later_stores
