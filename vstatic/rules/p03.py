"""P03 -- operations leave their operands, and everything shared, as they were."""

from .common import *

# modules whose functions fill buffers handed to them: judged through the backends that call them
KERNEL_MODULES = ("mrmustard.math.lattice",)
# (class, method) pairs that are documented to change the object they are called on / given
MUTATORS = {
    ("Circuit", "optimize"): "stores the optimized path and Fock shapes",
    ("Circuit", "optimize_fock_shapes"): "stores the optimized Fock shapes",
    ("Graph", "optimize_fock_shapes"): "stores the optimized Fock shapes in the components",
    ("ParameterSet", "add_parameter"): "registers the parameter",
    ("Wires", "_reindex"): "in-place by contract; its callers are judged",
    ("Wires", "_clear_cached_properties"): "in-place by contract; its callers are judged",
    ("BackendManager", "change_backend"): "selects the backend",
    ("BackendManager", "_bind"): "selects the backend",
    ("Circuit", "deserialize"): "consumes the dictionary it is given",
    ("CircuitComponent", "_deserialize"): "consumes the dictionary it is given",
}
MUTATOR_CLASSES = {"Settings", "Optimizer", "ProgressBar", "ProgressBars"}
MUTATOR_FUNCS = {"optimal_path": "stores the optimized Fock shapes in the components", "apply_BS_schwinger": "fills the buffer it is given", "_binomial_subspace_basis": "recursion accumulator"}
OUT_PARAMS = {"out"}


def check(prog, rep):
    rep.rule("P03.operand", "no function writes to an object reachable from its arguments (lazy caches, documented mutators and output buffers excepted)", 300)
    rep.rule("P03.shared", "no function writes to module-level or class-level state (memo tables excepted)", 300)
    lazy = lazy_generators(prog)
    ctor_only = constructor_helpers(prog)
    budget = 200000 if rep.tier == "thorough" else 40000
    pending = []
    fresh = set()
    roots = [f for f in public_funcs(prog) if not is_stub(f) and not f.is_abstract() and not skip_root(f)]
    seen = set()
    helpers = [f for f in roots if private(f)]
    for f in [f for f in roots if not private(f)] + helpers:
        if f in seen:
            # what a private helper does is judged where it is used
            rep.ob("P03.operand", f.short())
            rep.ob("P03.shared", f.short())
            continue
        r = analyse(prog, f, budget, frozenset())
        if r is None:
            pending.append(f)
            continue
        if not private(f):
            seen |= r[0].entered
        judge(prog, rep, f, *r, lazy, ctor_only, fresh)
    # second round: callees already judged clean with fresh results need not be inlined
    for _ in range(2):
        again = []
        for f in pending:
            r = analyse(prog, f, budget, fresh - {f})
            if r is None:
                again.append(f)
                continue
            judge(prog, rep, f, *r, lazy, ctor_only, fresh)
        pending = again
    # last round: calls are followed less deep (what is not followed is taken to be fresh)
    for depth in (4, 3, 2, 1):
        again = []
        for f in pending:
            r = analyse(prog, f, budget, fresh - {f}, depth)
            if r is None:
                again.append(f)
                continue
            rep.notes.setdefault("followed_less_deep", {})[f.short()] = depth
            judge(prog, rep, f, *r, lazy, ctor_only, set())
        pending = again
    for f in pending:
        rep.skip(f"{f.short()}: analysis budget exhausted")


def private(f):
    return f.name.startswith("_") and not f.name.startswith("__")


def skip_root(f):
    m = f.module.name
    if any(m == k or m.startswith(k + ".") for k in KERNEL_MODULES):
        return True
    if f.name in ("__new__", "__setattr__", "__init_subclass__"):
        return True
    c = f.cls
    if c is not None and (c.name in MUTATOR_CLASSES or any((k.name, f.name) in MUTATORS for k in c.mro)):
        return True
    return f.name in MUTATOR_FUNCS and c is None


def analyse(prog, f, budget, opaque, depth=6):
    it = Interp(prog, max_depth=depth, budget=budget, no_inline=lambda g: g in opaque)
    try:
        v, st = it.run(f)
    except (Budget, RecursionError):
        return None
    return it, v, st, budget - it.budget


def lazy_generators(prog):
    """Methods of an ansatz that evaluate its stored function, directly or through helper methods."""
    base = prog.cls("Ansatz")
    out = set()
    for c in prog.subclasses(base, strict=False):
        methods = {n: m for n, m in c.members.items() if isinstance(m, Func) and m.kind == "method"}
        good = set()
        for n, m in methods.items():
            s = m.params[0].name if m.params else None
            for x in own(m.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "_fn" and isinstance(x.func.value, ast.Name) and x.func.value.id == s:
                    good.add(n)
        for n, m in methods.items():
            s = m.params[0].name if m.params else None
            for x in own(m.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in good and isinstance(x.func.value, ast.Name) and x.func.value.id == s and not m.name.startswith("__"):
                    if m.name.startswith("_"):
                        out.add(m)
        out |= {methods[n] for n in good}
    if not out:
        raise AnalysisBroken("no method of an ansatz evaluates its stored function")
    return out


def constructor_helpers(prog):
    """Private methods that are only referred to from constructors (or from each other)."""
    refs = {}
    for f in prog.funcs:
        for n in own(f.node):
            if isinstance(n, ast.Attribute):
                refs.setdefault(n.attr, set()).add(f)
    cand = {f for f in prog.funcs if f.cls is not None and f.name.startswith("_") and not f.name.startswith("__") and refs.get(f.name)}
    changed = True
    while changed:
        changed = False
        for f in list(cand):
            for g in refs[f.name]:
                if g.name not in ("__init__", "__post_init__", "_tree_unflatten", "__call__" if g.cls and g.cls.name in MUTATOR_CLASSES else "__init__") and g not in cand:
                    cand.discard(f)
                    changed = True
                    break
    return cand


def memo_property(func, attr):
    """`attr` of self is a cache filled by a property getter under a test of `attr` itself."""
    if func.kind != "property":
        return False
    s = func.params[0].name
    for n in own(func.node):
        if isinstance(n, (ast.If, ast.IfExp)):
            if any(isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.value, ast.Name) and x.value.id == s for x in ast.walk(n.test)):
                return True
    return False


def guarded_memo(func, node):
    """A store into a module-level table under `key not in table` / `except KeyError` / `.get() is None`."""
    for n in own(func.node):
        if isinstance(n, ast.If) and any(x is node for b in n.body + n.orelse for x in ast.walk(b)):
            for x in ast.walk(n.test):
                if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.In, ast.NotIn, ast.Is)):
                    return True
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if any(x is node for b in h.body for x in ast.walk(b)):
                    return True
    return False


def judge(prog, rep, f, it, v, st, steps, lazy, ctor_only, fresh):
    rep.ob("P03.operand", f.short())
    rep.ob("P03.shared", f.short())
    bad = False
    for e in it.effects:
        p = e.path
        shared = p.startswith("::")
        w = e.func
        if not shared:
            if e.kind != "alias" and p == "self" and f.cls is not None and f.name in ("__init__", "__post_init__") :
                continue
            if p == "self" and f.kind == "setter":
                continue
            if p == "self" and f in ctor_only:
                continue
            if f.params and p == f.params[0].name and p == "self" and f.name == "_tree_unflatten":
                continue
            if e.origin in OUT_PARAMS:
                continue
            o = e.tag
            if any(g in lazy for g in e.stack) and o is not None and o.kind == "inst" and any(c.is_subclass(prog.cls("Ansatz")) for c in o.cls):
                continue
            if e.kind == "attr" and memo_property(w, e.detail):
                continue
            if f in lazy:
                continue
        elif e.kind in ("item", "mutcall") and guarded_memo(w, e.node):
            continue
        bad = True
        rule = "P03.shared" if shared else "P03.operand"
        via = "" if w is f else f" (entry {f.short()})"
        rep.find(rule, f"{w.short()}:{p}.{e.detail}" if w is f else f"{w.short()}:{e.detail}", w.where(e.node),
                 (f"shares its whole state with `{p}`, so later changes of either show in both{via}" if e.kind == "alias"
                  else f"writes `{e.detail}` of `{p}`, which the caller still holds{via}"))
    if not bad and v is not None and steps > 1500 and f.name not in ("__init__", "__post_init__"):
        objs = [st.heap.get(r) for r in v.refs]
        if all(o is not None and o.origin is None for o in objs) and not holds_data(v, st):
            fresh.add(f)


def holds_data(v, st):
    """Whether an array or container of the caller is reachable from the result."""
    todo, seen = list(v.refs), set()
    while todo:
        r = todo.pop()
        if r in seen:
            continue
        seen.add(r)
        o = st.heap.get(r)
        if o is None:
            continue
        if o.origin is not None:
            if o.kind in ("array", "list", "dict", "set"):
                return True
            if o.kind == "inst" and any(c.lookup("array")[0] or c.lookup("ansatz")[0] for c in o.cls):
                return True
            continue
        for x in [*o.fields.values(), *(o.items or ()), o.elem]:
            if x is not None:
                todo += [y for y in x.refs if isinstance(y, str)]
    return False
