"""P08 -- every operation of ``math`` means the same thing on both backends."""

from ..absint import unwrapc
from .common import *
from .p08_terms import Terms, always_changed, clean, diff, text

INFRA = {"_apply", "_bind", "__init__", "__new__", "__repr__", "change_backend", "get_backend", "backend", "backend_name", "_tree_flatten", "_tree_unflatten"}


def check(prog, rep):
    rep.rule("P08.exists", "an operation the manager dispatches exists in both backends", 40)
    rep.rule("P08.roles", "each argument reaches the same parameter of both backends, under its own name when the backend has it", 60)
    rep.rule("P08.forwarded", "every argument of a manager operation influences the operation", 80)
    rep.rule("P08.uses", "an argument that influences the result on one backend influences it on the other", 60)
    rep.rule("P08.twin", "an operation that is one library call on each backend is the same library call", 30)
    rep.rule("P08.terms", "where both backends build the result in the same way, the parts are the same", 40)
    rep.rule("P08.order", "the kernel an operation hands its arguments to takes them in the order they are handed over", 15)
    rep.rule("P08.defaults", "a backend parameter the manager leaves out has the same default on both backends", 1)
    rep.rule("P08.names", "comparisons with the backend name use an existing backend, and selecting a backend selects that one", 3)
    mgr, bn, bj = prog.cls("BackendManager"), prog.cls("BackendNumpy"), prog.cls("BackendJax")
    backends = [bn, bj]
    for name, f in sorted(mgr.members.items()):
        if not isinstance(f, Func) or name in INFRA or name.startswith("__"):
            continue
        calls = dispatches(prog, rep, mgr, f)
        if calls is None:
            continue
        check_forwarded(prog, rep, f, calls)
        for node, op, args, kwargs in calls:
            targets = []
            rep.ob("P08.exists", f"{name}->{op}")
            for b in backends:
                m = b.lookup(op)[0]
                if m is None:
                    rep.find("P08.exists", f"{name}->{op}@{b.name}", f.where(node), f"math.{name} dispatches to `{op}`, which {b.name} does not have")
                elif isinstance(m, Func):
                    targets.append((b, m))
            if len(targets) == 2:
                check_twin(prog, rep, op, targets)
                check_terms(prog, rep, op, targets)
            if len(targets) == 2 and args is not None:
                check_roles(prog, rep, f, node, op, args, kwargs, targets)
                check_uses(prog, rep, f, node, op, args, kwargs, targets)
    check_names(prog, rep, mgr)
    for cls in backends:
        for f in cls.members.values():
            if isinstance(f, Func):
                check_order(prog, rep, f)


def check_order(prog, rep, f):
    """Two arguments handed to each other's parameter: a name given to another parameter of a callee that has one of that name."""
    for e in own(f.node):
        if not isinstance(e, ast.Call) or not e.args:
            continue
        g, skip = prog.resolve_expr(f.module, e.func) if dotted(e.func) else None, 0
        if g is None and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "self":
            g = f.cls.lookup(e.func.attr)[0]
            skip = 0 if not isinstance(g, Func) or g.kind == "staticmethod" else 1
        if not isinstance(g, Func) or any(isinstance(a, ast.Starred) for a in e.args):
            continue
        ps = [p.name for p in g.params][skip:]
        given = {p: dotted(core(a)) for p, a in [*zip(ps, e.args), *((k.arg, k.value) for k in e.keywords if k.arg)]}
        named = {p: n for p, n in given.items() if n}
        if len(named) < 2:
            continue
        rep.ob("P08.order", f"{f.name}->{g.name}")
        for p, n in named.items():
            if n != p and n in named and named[n] != n:
                rep.find("P08.order", f"{f.name}->{g.name}({p})", f.where(e), f"`{f.name}` passes `{n}` as the parameter `{p}` of `{g.name}`, which has a parameter `{n}` and is given `{named[n]}` for it")


def core(a):
    """The argument inside conversions that change no value."""
    while isinstance(a, ast.Call) and len(a.args) == 1 and (dotted(a.func) or "").split(".")[-1] in CASTS | {"tuple", "list", "asnumpy", "astensor", "complex", "float", "int", "conj"}:
        a = a.args[0]
    return a


def dispatches(prog, rep, mgr, f):
    """[(call node, operation, [V] or None, {name: V})] of the `_apply` calls of a manager method itself."""
    out = []

    def on_call(fv, o, args, kwargs, extra, node, frame, st):
        if fv is not None and fv.kind == "func" and isinstance(fv.a, Func) and fv.a.name == "_apply" and fv.a.cls is mgr:
            if frame.func is not f and not private_helper(frame.func):
                return unknown(it.args_deps(args, kwargs, extra, st))
            op = args[0] if args else kwargs.get("fn")
            if op is None or not op.is_const() or not isinstance(op.const(), str):
                return None
            a1 = args[1] if len(args) > 1 else kwargs.get("args")
            a2 = args[2] if len(args) > 2 else kwargs.get("kwargs")
            pos, kw = [], {}
            if a1 is not None:
                known, summ = it.elements(a1, st)
                pos = [(it.deep(k, st)) for k in known] if known is not None else None
            if a2 is not None:
                for r in a2.refs:
                    ob = st.heap.get(r)
                    if ob is not None and ob.kind == "dict":
                        if ob.elem is not None:
                            pos = None
                        kw.update({k: it.deep(v, st) for k, v in ob.fields.items() if isinstance(k, str)})
            if extra is not None:
                pos = None
            d = frozenset()
            for x in (pos or []):
                d |= x
            for x in kw.values():
                d |= x
            if pos is None:
                d |= it.args_deps(args, kwargs, extra, st)
            out.append((node, op.const(), pos, kw))
            rets.append(d)
            return unknown(d)
        return None

    def private_helper(g):
        return g.cls is mgr and g.name.startswith("_")

    rets = []
    it = Interp(prog, on_call=on_call)
    rv, st = run_safe(rep, it, f, self_cls=mgr)
    if rv is None and not out and st is None:
        return None
    f._p08 = (rv, st, it, rets)
    seen, res = set(), []
    for c in out:
        k = (id(c[0]), c[1], None if c[2] is None else tuple(c[2]), tuple(sorted(c[3].items())))
        if k not in seen:
            seen.add(k)
            res.append(c)
    return res


def own_params(f):
    return [p for p in f.params if p.name not in ("self", "cls") and p.kind not in ("kwarg",)]


def check_forwarded(prog, rep, f, calls):
    rv, st, it, rets = f._p08
    if rv is None:
        return
    d = it.deep(rv, st) | rv.ctl
    for x in rets:
        d |= x
    for e in it.effects:
        pass
    if is_stub(f):
        return
    for p in own_params(f):
        rep.ob("P08.forwarded", f"{f.name}({p.name})")
        if not has_atom(d, p.name) and not raises_on(f, p.name):
            rep.find("P08.forwarded", f"{f.name}({p.name})", f.where(), f"math.{f.name} ignores its argument `{p.name}`")


def raises_on(f, name):
    """The parameter only decides whether the call is rejected or warned about."""
    for n in own(f.node):
        if isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.test)):
            if any(isinstance(x, ast.Raise) for x in ast.walk(n)):
                return True
    return False


def slots(m, args, kwargs):
    """backend parameter name -> deps of the actual argument."""
    ps = [p for p in m.params if p.name != "self"]
    out = {}
    pos = [p for p in ps if p.kind == "pos"]
    var = next((p for p in ps if p.kind == "vararg"), None)
    for i, d in enumerate(args):
        if i < len(pos):
            out[pos[i].name] = d
        elif var is not None:
            out[var.name] = out.get(var.name, frozenset()) | d
        else:
            out[f"#{i}"] = d
    for k, d in kwargs.items():
        out[k] = d
    return out


def pname(deps, f):
    """The manager parameter an argument stands for (None when it is mixed)."""
    names = {p.name for p in own_params(f)}
    hit = {d.split(".")[0].split("[")[0] for d in deps} & names
    return next(iter(hit)) if len(hit) == 1 else None


def check_roles(prog, rep, f, node, op, args, kwargs, targets):
    for b, m in targets:
        ps = [p for p in m.params if p.name != "self"]
        names = [p.name for p in ps]
        has_kw = any(p.kind == "kwarg" for p in ps)
        sl = slots(m, args, kwargs)
        for s, d in sl.items():
            rep.ob("P08.roles", f"{f.name}->{b.name}.{op}({s})")
            if s not in names:
                if not has_kw:
                    rep.find("P08.roles", f"{f.name}->{b.name}.{op}({s})", f.where(node), f"math.{f.name} passes `{s}` to {b.name}.{op}, which takes ({', '.join(names)})")
                continue
            p = pname(d, f)
            if p is not None and p != s and p in names and not has_atom(sl.get(p, frozenset()), p):
                rep.find("P08.roles", f"{f.name}->{b.name}.{op}({s})", f.where(node), f"math.{f.name} passes its `{p}` to the parameter `{s}` of {b.name}.{op}, which has its own `{p}`")
            elif p is not None and p != s and p in names and s in {q.name for q in own_params(f)}:
                rep.find("P08.roles", f"{f.name}->{b.name}.{op}({s})", f.where(node), f"math.{f.name} passes its `{p}` to the parameter `{s}` of {b.name}.{op}")
        for p in ps:
            if p.kind == "pos" and p.default is None and p.name not in sl:
                rep.find("P08.roles", f"{f.name}->{b.name}.{op}({p.name})", f.where(node), f"math.{f.name} does not pass `{p.name}`, which {b.name}.{op} requires")
    # the two backends must not permute their parameters
    (b1, m1), (b2, m2) = targets
    n1 = [p.name for p in m1.params if p.name != "self" and p.kind == "pos"]
    n2 = [p.name for p in m2.params if p.name != "self" and p.kind == "pos"]
    for i in range(min(len(args), len(n1), len(n2))):
        if n1[i] != n2[i] and n1[i] in n2[: len(args)] and n2[i] in n1[: len(args)]:
            rep.find("P08.roles", f"{op}[{i}]", m2.where(), f"position {i} is `{n1[i]}` in {b1.name}.{op} but `{n2[i]}` in {b2.name}.{op}")
    # defaults of what the manager leaves out
    s1, s2 = slots(m1, args, kwargs), slots(m2, args, kwargs)
    d1 = {p.name: p.default for p in m1.params}
    d2 = {p.name: p.default for p in m2.params}
    for p in d1:
        if p in d2 and p not in s1 and p not in s2 and d1[p] is not None and d2[p] is not None:
            rep.ob("P08.defaults", f"{op}({p})")
            if norm(d1[p]) != norm(d2[p]):
                rep.find("P08.defaults", f"{op}({p})", m2.where(), f"`{p}` defaults to {ast.unparse(d1[p])} in {b1.name} and to {ast.unparse(d2[p])} in {b2.name}")
    # a parameter that only one backend has and the manager leaves out must not be shared with the other by position
    # defaults of the manager itself are common to both backends


def norm(n):
    return ast.unparse(n).replace("jnp.", "np.").replace("jax.numpy.", "np.").lower()


def is_trivial(m):
    """A query the backend answers alike for every argument: the body is `return True` or `return False`."""
    body = [s for s in m.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
    return len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, bool)


def check_uses(prog, rep, f, node, op, args, kwargs, targets):
    res = []
    s1, s2 = (settings_read(m) for _, m in targets)
    if s1 and s2:
        rep.ob("P08.uses", f"{op}(settings)")
        if s1 != s2 and not (s1 < s2 or s2 < s1):
            rep.find("P08.uses", f"{op}(settings)", targets[1][1].where(), f"{op} reads {sorted(s1)} in {targets[0][0].name} and {sorted(s2)} in {targets[1][0].name}")
    for b, m in targets:
        if is_stub(m) or is_trivial(m):
            return
        key = "_p08_uses"
        if not hasattr(m, key):
            seen = set()

            def on_branch(s, tv, st, frame, seen=seen):
                seen.update(it.deep(tv, st) | tv.ctl)

            def on_call(fv, o, args, kwargs, extra, node, frame, st, seen=seen):
                # a call for its effect (checks, error_if)
                if fv is not None and fv.kind == "ext" and id(node) in statements(frame.func):
                    seen.update(it.args_deps(args, kwargs, extra, st))

            it = Interp(prog, backend=b.name, on_branch=on_branch, on_call=on_call)
            rv, st = run_safe(rep, it, m, self_cls=b)
            # an operation that returns nothing exists for its effect: nothing to compare
            effect = rv is None or not returns_value(m)
            m._p08_uses = None if effect else it.deep(rv, st) | rv.ctl | seen
        d = m._p08_uses
        if d is None:
            return
        res.append(d)
    (b1, m1), (b2, m2) = targets
    n1 = [p.name for p in m1.params if p.name != "self"]
    n2 = [p.name for p in m2.params if p.name != "self"]
    pairs = [(n1[i], n2[i]) for i in range(min(len(args), len(n1), len(n2)))] + [(k, k) for k in kwargs if k in n1 and k in n2]
    for a, c in pairs:
        rep.ob("P08.uses", f"{op}({a})")
        u1, u2 = has_atom(res[0], a), has_atom(res[1], c)
        if u1 != u2:
            who, whom, nm, mm = (b1, b2, c, m2) if u1 else (b2, b1, a, m1)
            rep.find("P08.uses", f"{op}({a})", mm.where(), f"`{nm}` influences the result of {who.name}.{op} but not of {whom.name}.{op}")


# names of one and the same function
ALIASES = {
    "absolute": "abs",
    "conjugate": "conj",
    "pow": "power",
    "concat": "concatenate",
    "amax": "max",
    "amin": "min",
    "fmod": "fmod",
    "remainder": "mod",
    "permute_dims": "transpose",
    "asanyarray": "asarray",
    "product": "prod",
    "isneginf": "isneginf",
    "matrix_transpose": "matrix_transpose",
    "alltrue": "all",
    "sometrue": "any",
}
# parameter order of the library functions, for the calls that pass them by position or by name
ORDER = {
    "concatenate": ["arrays", "axis"],
    "stack": ["arrays", "axis"],
    "sort": ["a", "axis"],
    "take": ["a", "indices", "axis"],
    "transpose": ["a", "axes"],
    "swapaxes": ["a", "axis1", "axis2"],
    "moveaxis": ["a", "source", "destination"],
    "expand_dims": ["a", "axis"],
    "sum": ["a", "axis"],
    "prod": ["a", "axis"],
    "tensordot": ["a", "b", "axes"],
    "diagonal": ["a", "offset", "axis1", "axis2"],
    "trace": ["a", "offset", "axis1", "axis2"],
    "diag": ["v", "k"],
    "reshape": ["a", "shape"],
    "broadcast_to": ["array", "shape"],
    "clip": ["a", "a_min", "a_max"],
    "allclose": ["a", "b", "rtol", "atol"],
    "tile": ["A", "reps"],
}
LIBS = ("numpy.", "jax.numpy.", "scipy.", "jax.scipy.", "jax.lax.")


def library_calls(prog, rep, b, m):
    """The library calls of an operation's own body: [(tail, {slot: atoms or constant})]."""
    if hasattr(m, "_p08_lib"):
        return m._p08_lib
    out = {}

    def on_call(fv, o, args, kwargs, extra, node, frame, st):
        if fv is not None and fv.kind == "ext" and isinstance(fv.a, str) and fv.a.startswith(LIBS) and frame.func is m:
            tail = fv.a.rsplit(".", 1)[1]
            tail = ALIASES.get(tail, tail)
            order = ORDER.get(tail)
            sl = {}
            for i, a in enumerate(args):
                sl[order[i] if order and i < len(order) else i] = slot(a, st)
            for k, a in kwargs.items():
                sl[k] = slot(a, st)
            out.setdefault(id(node), (tail, sl if extra is None else None, "linalg" in fv.a, node))
        return None

    def slot(a, st):
        if a.is_const():
            return ("const", repr(a.const()))
        d = it.deep(a, st)
        if not d:
            return None
        return ("from", frozenset(x.split(".")[0].split("[")[0] for x in d if not x.startswith("self")))

    it = Interp(prog, backend=b.name, on_call=on_call)
    run_safe(rep, it, m, self_cls=b)
    m._p08_lib = list(out.values())
    return m._p08_lib


def check_twin(prog, rep, op, targets):
    (b1, m1), (b2, m2) = targets
    if is_stub(m1) or is_stub(m2):
        return
    c1, c2 = library_calls(prog, rep, b1, m1), library_calls(prog, rep, b2, m2)
    if len(c1) != 1 or len(c2) != 1 or not single(m1) or not single(m2):
        return
    (t1, s1, _, _n1), (t2, s2, _, n2) = c1[0], c2[0]
    if t1 in CASTS or t2 in CASTS:
        return
    rep.ob("P08.twin", op)
    if t1 != t2:
        if t1 in DISTINCT and t2 in DISTINCT and frozenset((t1, t2)) not in SYNONYMS:
            rep.find("P08.twin", op, m2.where(n2), f"`{op}` is {t1} in {b1.name} and {t2} in {b2.name}")
        return
    if s1 is None or s2 is None:
        return
    # name the parameters of the second as in the first
    p1 = [p.name for p in m1.params if p.name not in ("self",)]
    p2 = [p.name for p in m2.params if p.name not in ("self",)]
    ren = dict(zip(p2, p1)) if len(p1) == len(p2) else {}
    common = set(p1) & ({ren.get(z, z) for z in p2})
    for k in s1:
        if k in s2 and s1[k] is not None and s2[k] is not None:
            x, y = effective(s1[k], m1, p2), effective(s2[k], m2, p1)
            if x is None or y is None:
                continue
            if k == "dtype" and {x[0], y[0]} == {"const", "from"}:
                rep.find("P08.twin", f"{op}({k})", m2.where(n2), f"the dtype of `{op}` is `{show(x)}` in {b1.name} and `{show(y)}` in {b2.name}")
                continue
            if y[0] == "from":
                y = ("from", frozenset(ren.get(z, z) for z in y[1]))
            if {z for w, ps in ((x, p1), (y, p1 + p2)) if w[0] == "from" for z in w[1]} - common:
                continue
            rep.ob("P08.twin", f"{op}({k})")
            if x != y and (x[0] == y[0] == "const" or x[0] == y[0] == "from" and not (x[1] & y[1])):
                rep.find("P08.twin", f"{op}({k})", m2.where(n2), f"`{op}` gives {t1} `{show(x)}` in {b1.name} and `{show(y)}` in {b2.name} as {k}")


def effective(x, m, others):
    """A parameter only this backend has keeps its default, since the manager does not pass it."""
    if x[0] == "from" and len(x[1]) == 1:
        p = next((p for p in m.params if p.name in x[1]), None)
        if p is not None and p.name not in others and p.default is not None:
            if not isinstance(p.default, ast.Constant) or p.default.value is None:
                return None
            return ("const", repr(p.default.value))
    return x


def show(x):
    return x[1] if x[0] == "const" else ", ".join(sorted(x[1]))


# functions no two of which compute the same thing, whatever their arguments
DISTINCT = set(
    "abs all allclose angle any arange broadcast_to broadcast_arrays ceil clip concatenate conj cos cosh cumsum det diag diagonal "
    "eig eigh eigvals eigvalsh equal exp expand_dims expm eye floor imag inv isclose isnan kron log log10 log2 loggamma lgamma "
    "matmul max maximum mean min minimum mod moveaxis norm ones ones_like pinv power prod real reshape sin sinh sort sqrt sqrtm "
    "stack std sum swapaxes take tan tanh tensordot tile trace transpose tril triu var xlogy zeros zeros_like".split()
)

# conversions: which of them is used says nothing about the operation
CASTS = {"asarray", "array", "ascontiguousarray"}
SYNONYMS = {frozenset(("loggamma", "lgamma")), frozenset(("ones", "ones_like")), frozenset(("zeros", "zeros_like")), frozenset(("full", "full_like"))}


def single(f):
    """Straight-line: one return, no branching, no loops."""
    return sum(isinstance(n, ast.Return) for n in own(f.node)) == 1 and not any(isinstance(n, (ast.If, ast.For, ast.While, ast.Try, ast.IfExp, ast.comprehension)) for n in own(f.node))


def returns_value(f):
    return any(isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None) for n in own(f.node))


def settings_read(f):
    return {n.attr for n in own(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "settings" and n.attr.isupper()}


def statements(f):
    if not hasattr(f, "_stmt_calls"):
        f._stmt_calls = {id(n.value) for n in own(f.node) if isinstance(n, ast.Expr)}
    return f._stmt_calls


def check_terms(prog, rep, op, targets):
    ts = [(b, m, Terms(prog, b).of(m)) for b, m in targets]
    if any(t is None for *_, t in ts):
        return
    (ba, ma, a), (bb, mb, b) = ts
    a, b = clean(a), clean(b)
    out, seen = [], []
    diff(a, b, out, seen)
    if seen or out:
        rep.ob("P08.terms", op)
    names = [[p.name for p in (m.params[1:] if m.kind != "staticmethod" else m.params)] for m in (ma, mb)]
    for x, y in out:
        rep.find("P08.terms", f"{op}:{text(x, names[0])}:{text(y, names[0])}"[:120], mb.where(), f"`{op}`: `{text(x, names[0])}` in {ba.name} is `{text(y, names[1])}` in {bb.name}")
    if not out:
        for i, n in enumerate(names[0]):
            ca, cb = always_changed(a, i), always_changed(b, i)
            if ca and cb and (ca == {False} and False not in cb and len(cb) == 1 or cb == {False} and False not in ca and len(ca) == 1):
                rep.find("P08.terms", f"{op}:{n}", mb.where(), f"`{op}`: the argument `{n}` is changed by `{next(iter((ca | cb) - {False}))}` in one backend only")


def check_names(prog, rep, mgr):
    valid = set()
    for b in ("BackendNumpy", "BackendJax"):
        c = prog.cls(b)
        init = init_func(c)
        for n in ast.walk(c.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__":
                for k in [*n.args, *[k.value for k in n.keywords if k.arg == "name"]]:
                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                        valid.add(k.value)
    if len(valid) < 2:
        valid |= {"numpy", "jax"}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                sides = [n.left, n.comparators[0]]
                if any(isinstance(s, ast.Attribute) and s.attr in ("backend_name",) for s in sides):
                    for s in sides:
                        lits = [s] if isinstance(s, ast.Constant) else list(s.elts) if isinstance(s, (ast.Tuple, ast.List, ast.Set)) else []
                        for x in lits:
                            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                rep.ob("P08.names", f"{m.name}:{x.value}")
                                if x.value not in valid:
                                    rep.find("P08.names", f"{m.name}:{x.value}", f"{m.relpath}:{n.lineno}", f"no backend is called {x.value!r}: the comparison is never true")
    # selecting
    change = mgr.members.get("change_backend")
    get = mgr.members.get("get_backend")
    if not isinstance(change, Func) or not isinstance(get, Func):
        raise AnalysisBroken("BackendManager.change_backend/get_backend vanished")
    table = None
    r = prog.resolve_expr(mgr.module, ast.Name("all_modules", ast.Load()))
    if isinstance(r, tuple) and r[0] == "var" and isinstance(r[1], ast.Dict):
        table = r[1]
        names = {k.value for k in table.keys if isinstance(k, ast.Constant)}
        rep.ob("P08.names", "all_modules")
        if names != valid:
            rep.find("P08.names", "all_modules", f"{mgr.module.relpath}:{table.lineno}", f"the table lists {sorted(names)}, the backends are called {sorted(valid)}")
        for k, v in zip(table.keys, table.values):
            if isinstance(v, ast.Dict):
                for kk, vv in zip(v.keys, v.values):
                    if isinstance(kk, ast.Constant) and kk.value == "object" and isinstance(vv, ast.Constant):
                        c = prog.maybe_cls(vv.value)
                        lits = {x.value for x in ast.walk(c.node) if isinstance(x, ast.Constant) and x.value in valid} if c is not None else set()
                        rep.ob("P08.names", f"all_modules[{k.value}]")
                        if c is None or (lits and k.value not in lits):
                            rep.find("P08.names", f"all_modules[{k.value}]", f"{mgr.module.relpath}:{vv.lineno}", f"backend {k.value!r} is built from {vv.value}")
