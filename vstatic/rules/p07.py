"""P07 -- remembered results: nothing remembered outlives what it was computed from."""

from ..calls import Calls, settings_reads
from .common import *

# reads of the settings object that are not values the user sets
NOT_SETTINGS = {"rng"}


def check(prog, rep):
    rep.rule("P07.settings", "a memoised or compiled function does not read a setting that is not part of its key", 6)
    rep.rule("P07.backend", "a memoised function does not depend on the active backend unless the backend is part of its key", 6)
    rep.rule("P07.import", "no module-level value, class attribute or default argument freezes a setting or a backend result at import", 60)
    rep.rule("P07.key", "a memo covers every argument of the function it stands for", 0)
    rep.rule("P07.wires", "cached views of Wires are dropped after the wires they were computed from change", 2)
    rep.rule("P07.raw", "the arrays of an ansatz are read only after they were brought up to date", 2)
    rep.rule("P07.regen", "a function-backed ansatz is re-evaluated whenever one of its parameters is trainable", 2)
    rep.rule("P07.traced", "what is computed inside of a JAX transformation is not remembered beyond it", 2)
    rep.rule("P07.memo", "no object remembers what it computed from parameters that may change", 100)
    rep.rule("P07.param", "components hand parameter objects, not their current values, to their ansatz", 20)
    calls = Calls(prog)
    memo(prog, rep, calls)
    table_memo(prog, rep, calls)
    import_time(prog, rep, calls)
    wires(prog, rep)
    raw(prog, rep)
    regen(prog, rep, calls)
    params(prog, rep)
    instance_memo(prog, rep)


# ---- memoised functions ----------------------------------------------------------------


def memo_functions(prog, calls):
    """[(function whose result is remembered, key expressions, memo Func, kind)]"""
    out = []
    for f in prog.funcs:
        if isinstance(f.node, ast.Lambda):
            continue
        if calls.is_memo(f) and f.kind != "property":
            if f.outer is None:
                out.append((f, None, f, "memo"))
            else:
                # a memo inside a decorator: it stands for the functions so decorated
                dec = f.outer
                deco = [g for g in prog.funcs if not isinstance(g.node, ast.Lambda) and any(d is dec for d, _ in calls.decorators(g))]
                keys = []
                for g in dec.locals_funcs.values():
                    for n in own(g.node):
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name:
                            keys.append((g, n))
                for t in deco:
                    out.append((t, keys, f, "memo"))
                if not deco:
                    out.append((f, None, f, "memo"))
        elif calls.is_jit(f):
            out.append((f, None, f, "compiled"))
    return out


def key_context(calls, keys):
    """Settings and backend that the key itself contains (reads inside the arguments of the memo)."""
    sets, backend = None, True
    for g, n in keys or []:
        s, b = set(), False
        exprs = [*n.args, *[k.value for k in n.keywords]]
        # one level of local definitions
        names = {x.id for e in exprs for x in ast.walk(e) if isinstance(x, ast.Name)}
        for x in own(g.node):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in x.targets):
                exprs.append(x.value)
        for e in exprs:
            for x in ast.walk(e):
                if isinstance(x, ast.Attribute):
                    r = calls.resolve(g, x.value)
                    if isinstance(r, tuple) and r[0] == "inst" and r[1] is not None:
                        if r[1].name == "Settings":
                            s.add(x.attr)
                        elif x.attr in ("backend_name", "backend"):
                            b = True
        sets = s if sets is None else sets & s
        backend = backend and b
    return sets or set(), bool(keys) and backend


def memo(prog, rep, calls):
    mgr = prog.cls("BackendManager")
    found = memo_functions(prog, calls)
    rep.notes["remembered_functions"] = sorted({t.short() for t, *_ in found})
    for t, keys, m, kind in found:
        sets, backend = key_context(calls, keys)
        reach = calls.reachable(t)
        rep.ob("P07.settings", t.short())
        for g, path in reach.items():
            for n, attr in settings_reads(calls, g):
                if attr in sets or attr in NOT_SETTINGS:
                    continue
                via = "" if g is t else " through " + " -> ".join(x.short() for x in path[1:])
                rep.find("P07.settings", f"{t.short()}:{attr}", g.where(n), f"the {kind} function {t.short()} reads settings.{attr}{via}: its remembered result survives a change of the setting")
        if kind == "memo":
            rep.ob("P07.backend", t.short())
            if not backend:
                for g, path in reach.items():
                    hit = dispatch(calls, mgr, g)
                    if hit is not None:
                        rep.find("P07.backend", f"{t.short()}", g.where(hit), f"the remembered result of {t.short()} is an array of the backend that was active when it was first called")
                        break
            key_covers(rep, t, keys, m)
            if backend and any(dispatch(calls, mgr, g) is not None for g in reach):
                rep.ob("P07.traced", t.short())
                users = [g for g, _ in keys or []] + [m]
                if not any(trace_aware(prog, calls, g, g.node) for g in users):
                    rep.find("P07.traced", t.short(), m.where(), f"the memo of {t.short()} keeps what was computed inside of a JAX transformation: later calls get a value that is not valid there")


def trace_aware(prog, calls, f, tree, depth=3):
    """The code under `tree` asks whether a value belongs to an ongoing transformation, itself or through what it calls."""
    for n in ast.walk(tree):
        name = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
        if name is None:
            continue
        if name in ("Tracer", "ensure_compile_time_eval", "trace_state_clean"):
            return True
        if depth:
            targets = []
            r = calls.resolve(f, n) if isinstance(n, (ast.Name, ast.Attribute)) else None
            if isinstance(r, Func):
                targets.append(r)
            if isinstance(n, ast.Attribute):
                o = calls.resolve(f, n.value)
                if isinstance(o, tuple) and o[0] == "inst" and o[1] is not None:
                    g, _ = o[1].lookup(name)
                    if isinstance(g, Func):
                        targets.append(g)
                        # operations of the active backend
                        for x in ast.walk(g.node):
                            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "_apply" and x.args and isinstance(x.args[0], ast.Constant):
                                for c in prog.classes.values():
                                    if c.name.startswith("Backend") and c is not o[1]:
                                        h = c.members.get(x.args[0].value)
                                        if isinstance(h, Func):
                                            targets.append(h)
                elif isinstance(n.value, ast.Name) and n.value.id in ("self", "cls") and f.cls is not None:
                    g, _ = f.cls.lookup(name)
                    if isinstance(g, Func):
                        targets.append(g)
            for g in targets:
                if g is not f and trace_aware(prog, calls, g, g.node, depth - 1):
                    return True
    return False


def dispatch(calls, mgr, g):
    """A node in g where an operation of the active backend is used."""
    for n in ast.walk(g.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr == "_apply":
                return n
            r = calls.resolve(g, n.func.value)
            if isinstance(r, tuple) and r[0] == "inst" and r[1] is mgr and n.func.attr not in ("asnumpy",):
                h, _ = mgr.lookup(n.func.attr)
                if isinstance(h, Func) and any(isinstance(x, ast.Attribute) and x.attr in ("_apply", "backend") for x in ast.walk(h.node)):
                    return n
        elif isinstance(n, ast.Attribute) and n.attr in ("backend_name", "backend"):
            r = calls.resolve(g, n.value)
            if isinstance(r, tuple) and r[0] == "inst" and r[1] is mgr:
                return n
    return None


def key_covers(rep, t, keys, m):
    """Every parameter of the wrapper takes part in the key it looks up."""
    for g, n in keys or []:
        used = {x.id for e in [*n.args, *[k.value for k in n.keywords]] for x in ast.walk(e) if isinstance(x, ast.Name)}
        for x in own(g.node):
            if isinstance(x, ast.Assign) and any(isinstance(q, ast.Name) and q.id in used for q in x.targets):
                used |= {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}
        for p in g.params:
            rep.ob("P07.key", f"{t.short()}({p.name})")
            if p.name not in used:
                rep.find("P07.key", f"{t.short()}({p.name})", g.where(n), f"the memo of {t.short()} is looked up without its argument `{p.name}`")
        # lossy conversions of the key
        for e in [*n.args, *[k.value for k in n.keywords]]:
            for x in ast.walk(e):
                if isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] in ("round", "around", "hash", "id", "len", "int", "float16", "float32", "sum", "max", "min", "floor"):
                    rep.find("P07.key", f"{t.short()}:{(dotted(x.func) or '').split('.')[-1]}", g.where(x), f"the memo of {t.short()} is looked up by a lossy key `{ast.unparse(x)}`")


def table_memo(prog, rep, calls):
    """Hand-written memo tables: T[key] = value under a test of T, in one function."""
    for f in prog.funcs:
        if isinstance(f.node, ast.Lambda):
            continue
        for n in own(f.node):
            if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript)):
                continue
            t = n.targets[0]
            name = dotted(t.value)
            if name is None or not remembered_table(prog, calls, f, t.value):
                continue
            if not tested(f, name):
                continue
            rep.ob("P07.key", f"{f.short()}[{name}]")
            key = roots(f, t.slice)
            val = roots(f, n.value)
            ps = {p.name for p in f.params if p.name not in ("self", "cls")}
            for p in sorted((val & ps) - key):
                rep.find("P07.key", f"{f.short()}[{name}]:{p}", f.where(n), f"what `{name}` remembers is computed from `{p}`, which is not part of its key")
            sets = {a for _, a in reads_in(calls, f, t.slice)}
            rep.ob("P07.settings", f.short())
            for g, path in calls.reachable(f).items():
                for x, attr in settings_reads(calls, g):
                    if attr not in sets | NOT_SETTINGS:
                        rep.find("P07.settings", f"{f.short()}:{attr}", g.where(x), f"`{name}` remembers a value computed from settings.{attr}, which is not part of its key")


def reads_in(calls, f, e):
    for n in ast.walk(e):
        if isinstance(n, ast.Attribute):
            r = calls.resolve(f, n.value)
            if isinstance(r, tuple) and r[0] == "inst" and r[1] is not None and r[1].name == "Settings":
                yield n, n.attr


def remembered_table(prog, calls, f, e):
    """A module-level or class-level dictionary."""
    if isinstance(e, ast.Name):
        if calls.bound_locally(f, e.id):
            return False
        r = f.module.names.get(e.id)
        return isinstance(r, tuple) and r[0] == "var" and is_dict(r[1])
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.cls is not None:
        m, _ = f.cls.lookup(e.attr)
        return isinstance(m, tuple) and m[0] == "attr" and is_dict(m[1])
    return False


def is_dict(e):
    return isinstance(e, ast.Dict) or (isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] in ("dict", "OrderedDict", "defaultdict", "WeakKeyDictionary", "WeakValueDictionary"))


def tested(f, name):
    for n in own(f.node):
        if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)) and dotted(n.comparators[0]) == name:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "setdefault") and dotted(n.func.value) == name:
            return True
        if isinstance(n, ast.Try) and any(isinstance(x, ast.Subscript) and dotted(x.value) == name for b in n.body for x in ast.walk(b)):
            return True
    return False


def roots(f, e):
    """Names an expression is computed from, through the local assignments of the function."""
    seen, todo = set(), {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
    defs = {}
    for n in own(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        defs.setdefault(x.id, set()).update(y.id for y in ast.walk(n.value) if isinstance(y, ast.Name))
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    defs.setdefault(x.id, set()).update(y.id for y in ast.walk(n.iter) if isinstance(y, ast.Name))
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo |= defs.get(x, set())
    return seen


# ---- import time --------------------------------------------------------------------------


def import_time(prog, rep, calls):
    mgr = prog.cls("BackendManager")
    for m in prog.modules.values():
        anchor = _Mod(m)
        for s in m.tree.body:
            for e, what in frozen_exprs(s):
                rep.ob("P07.import", f"{m.name}:{what}")
                judge_frozen(prog, rep, calls, mgr, anchor, m, e, what)
    for f in prog.funcs:
        if isinstance(f.node, ast.Lambda):
            continue
        a = f.node.args
        for d in [*a.defaults, *[k for k in a.kw_defaults if k is not None]]:
            if isinstance(d, ast.Constant):
                continue
            rep.ob("P07.import", f"{f.short()} default")
            where = f.outer
            if where is not None:
                continue  # evaluated when the enclosing function runs
            judge_frozen(prog, rep, calls, mgr, _Mod(f.module), f.module, d, f"{f.short()} default")


class _Mod:
    """Stands in for a function when resolving at module level."""

    def __init__(self, m):
        self.module, self.outer, self.cls, self.params, self.locals_funcs, self.kind = m, None, None, [], {}, "function"
        self.node = ast.parse("def _m(): pass").body[0]


def frozen_exprs(s):
    if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and s.value is not None:
        t = s.targets[0] if isinstance(s, ast.Assign) else s.target
        yield s.value, ast.unparse(t)
    elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        yield s.value, ast.unparse(s.value.func)
    elif isinstance(s, ast.ClassDef):
        for x in s.body:
            yield from ((e, f"{s.name}.{w}") for e, w in frozen_exprs(x))
    elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For)):
        for fld in ("body", "orelse", "finalbody"):
            for x in getattr(s, fld, []) or []:
                yield from frozen_exprs(x)


def judge_frozen(prog, rep, calls, mgr, anchor, m, e, what):
    for n in skip_lambdas(e):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            r = calls.resolve(anchor, n.value)
            if isinstance(r, tuple) and r[0] == "inst" and r[1] is not None:
                h = r[1].lookup(n.attr)[0]
                if r[1].name == "Settings" and n.attr not in ("__class__",) and (not isinstance(h, Func) or h.kind == "property"):
                    rep.find("P07.import", f"{m.name}:{what}:{n.attr}", f"{m.relpath}:{n.lineno}", f"settings.{n.attr} is read once, when {m.name} is imported")
                elif r[1] is mgr and n.attr in ("backend_name", "backend"):
                    rep.find("P07.import", f"{m.name}:{what}:{n.attr}", f"{m.relpath}:{n.lineno}", "the active backend is read once, at import")
        if isinstance(n, ast.Call):
            f = calls.resolve(anchor, n.func)
            if isinstance(f, Func) and not f.is_abstract():
                if f.cls is mgr and f.name not in ("change_backend", "get_backend", "__init__", "__new__"):
                    if any(isinstance(x, ast.Attribute) and x.attr == "_apply" for x in ast.walk(f.node)):
                        rep.find("P07.import", f"{m.name}:{what}:math.{f.name}", f"{m.relpath}:{n.lineno}", f"math.{f.name} is evaluated once, at import, on the backend active then")
                elif f.cls is None or f.cls.name != "Settings":
                    for g, path in calls.reachable(f).items():
                        for x, attr in settings_reads(calls, g):
                            rep.find("P07.import", f"{m.name}:{what}:{attr}", f"{m.relpath}:{n.lineno}", f"settings.{attr} is read once, when {m.name} is imported, through {' -> '.join(y.short() for y in path)}")


def skip_lambdas(e):
    stack = [e]
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.Lambda, ast.FunctionDef)):
            stack.extend(ast.iter_child_nodes(n))


# ---- Wires ------------------------------------------------------------------------------------


def wires(prog, rep):
    cls = prog.cls("Wires")
    wire_classes = [c for c in (prog.maybe_cls("QuantumWire"), prog.maybe_cls("ClassicalWire")) if c is not None]
    cached = {n for n, m in cls.members.items() if isinstance(m, Func) and any((d or "").split(".")[-1] == "cached_property" for d in m.decorators)}
    # what the cached views are computed from
    attrs = set()
    for n in cached:
        for g in closure(prog, cls, cls.members[n], wire_classes):
            for x in ast.walk(g.node):
                if isinstance(x, ast.Attribute):
                    attrs.add(x.attr)
    fields = set()
    for c in wire_classes:
        fields |= {s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)}
    fields |= set(init_fields(prog, cls))
    inputs = (attrs & fields) - {"index", "id", "repr", "fock_cutoff"}
    methods = {n: m for n, m in cls.members.items() if isinstance(m, Func)}
    clearers = {n for n, m in methods.items() if clears(m)}
    while True:
        more = {n for n, m in methods.items() if n not in clearers and m.params and not n.startswith("__") and any(own_call(m, k) for k in clearers)}
        if not more:
            break
        clearers |= more
    for n, m in methods.items():
        if clears(m):
            for v in sorted(cached & left_out(m, cached)):
                rep.find("P07.wires", f"{m.short()}:{v}", m.where(), f"the cached view `{v}` is not dropped with the others")
    rep.notes["wires_cached_views"] = sorted(cached)
    rep.notes["wires_cached_from"] = sorted(inputs)
    for f in prog.funcs:
        if isinstance(f.node, ast.Lambda) or f.name in ("__init__", "copy") and f.cls in [cls, *wire_classes]:
            continue
        if not f.module.name.startswith("mrmustard.physics.wires") and "wires" not in ast.unparse(f.node).lower():
            continue
        for n in own(f.node):
            tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in tg:
                if not (isinstance(t, ast.Attribute) and t.attr in inputs and isinstance(t.value, ast.Name)):
                    continue
                owner = wire_owner(f, t.value.id, cls)
                if owner is None:
                    continue
                rep.ob("P07.wires", f"{f.short()}:{t.attr}")
                if fresh_wires(f, owner, n, cached, cls):
                    continue
                if not cleared_after(f, owner, n, clearers):
                    rep.find("P07.wires", f"{f.short()}:{t.attr}", f.where(n), f"`{t.attr}` changes after cached views of `{owner}` were taken, and they are not dropped")


def closure(prog, cls, m, others):
    seen, todo = [], [m]
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.append(g)
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute):
                for c in [cls, *others]:
                    h = c.members.get(x.attr)
                    if isinstance(h, Func) and h.name not in ("copy", "from_wires"):
                        todo.append(h)
    return seen


def own_call(m, name):
    """Calls `name` on its own object."""
    return any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == name and isinstance(n.func.value, ast.Name) and n.func.value.id == m.params[0].name
        for n in own(m.node)
    )


def clears(m):
    """Removes cached values from the instance dictionary."""

    def instance_dict(e):
        return (isinstance(e, ast.Attribute) and e.attr == "__dict__") or (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "vars") or (isinstance(e, ast.Name) and e.id in held)

    held = set()
    for n in ast.walk(m.node):
        if isinstance(n, ast.Assign) and instance_dict(n.value):
            held |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    for n in ast.walk(m.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "clear") and instance_dict(n.func.value):
            return True
        if isinstance(n, ast.Delete) and any(isinstance(t, ast.Subscript) and instance_dict(t.value) for t in n.targets):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "delattr":
            return True
    return False


def left_out(m, cached):
    """Names of cached views that a clearing method spares: excluded by a test, or missing in its list."""
    out, listed, dynamic = set(), set(), False
    for n in ast.walk(m.node):
        if isinstance(n, ast.Compare) and any(isinstance(o, (ast.NotEq, ast.NotIn)) for o in n.ops):
            out |= {x.value for x in ast.walk(n) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            listed.add(n.value)
        elif isinstance(n, ast.Name) and n.id == "cached_property" or isinstance(n, ast.Attribute) and n.attr == "cached_property":
            dynamic = True
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "clear":
            dynamic = True
    if not dynamic and listed & cached:
        out |= cached - listed
    return out


def wire_owner(f, name, cls):
    """The Wires object whose wire (or which itself) `name` stands for."""
    for n in own(f.node):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and n.target.id == name:
            e = n.iter
            while isinstance(e, (ast.Attribute, ast.Subscript)):
                e = e.value
            return e.id if isinstance(e, ast.Name) else None
    if f.cls is cls:
        return name
    return None


def fresh_wires(f, owner, node, cached, cls):
    """Built in this function and no cached view taken before the change."""
    made = None
    for n in own(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == owner for t in n.targets) and isinstance(n.value, ast.Call):
            made = n
    if made is None:
        return False
    for n in own(f.node):
        if isinstance(n, ast.Attribute) and n.attr in cached and isinstance(n.value, ast.Name) and n.value.id == owner and made.lineno <= n.lineno <= node.lineno:
            return False
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and n.iter.id == owner and n.lineno <= node.lineno:
            return False  # iteration goes through the cached order
    return True


def cleared_after(f, owner, node, clearers):
    for n in own(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in clearers and isinstance(n.func.value, ast.Name) and n.func.value.id == owner and n.lineno > node.lineno:
            return True
    return False


# ---- lazy ansatz arrays ---------------------------------------------------------------------------


def lazy_info(prog):
    """{class: (generator methods, fields they fill)} for the function-backed ansatze."""
    out = {}
    for c in prog.subclasses(prog.cls("Ansatz"), strict=False):
        gens = set()
        for n, m in c.members.items():
            if isinstance(m, Func) and m.kind == "method":
                s = m.params[0].name
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "_fn" and isinstance(x.func.value, ast.Name) and x.func.value.id == s for x in own(m.node)):
                    gens.add(n)
        if not gens:
            continue
        # helpers that call the generator
        grew = True
        while grew:
            grew = False
            for n, m in c.members.items():
                if n in gens or not isinstance(m, Func) or m.kind != "method" or not n.startswith("_") or n.startswith("__"):
                    continue
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in gens and isinstance(x.func.value, ast.Name) and x.func.value.id == m.params[0].name for x in own(m.node)):
                    gens.add(n)
                    grew = True
        fields = set()
        for n in gens:
            fields |= stores(prog, c, c.members[n])
        out[c] = (gens, {a for a in fields if a.startswith("_")})
    if not out:
        raise AnalysisBroken("no ansatz evaluates a stored function any more")
    return out


def stores(prog, c, m, depth=2):
    s = m.params[0].name
    got = set()
    for x in own(m.node):
        tg = x.targets if isinstance(x, ast.Assign) else []
        for t in tg:
            for y in [t, *(t.elts if isinstance(t, ast.Tuple) else [])]:
                if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == s:
                    st = c.setters.get(y.attr)
                    if st is not None and depth:
                        got |= stores(prog, c, st, depth - 1)
                    else:
                        got.add(y.attr)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == s and depth:
            h = c.members.get(x.func.attr)
            if isinstance(h, Func) and h.name.startswith("_"):
                got |= stores(prog, c, h, depth - 1)
    return got


STRUCTURAL = {"__init__", "_tree_flatten", "_tree_unflatten", "_should_regenerate"}


def raw(prog, rep):
    info = lazy_info(prog)
    rep.notes["lazy_fields"] = {c.name: sorted(f) for c, (_, f) in info.items()}
    allf = {a: (c, gens) for c, (gens, fs) in info.items() for a in fs}
    shape_only = {"_batch_shape"}
    for f in prog.funcs:
        if isinstance(f.node, ast.Lambda) or f.outer is not None:
            continue
        for c, (gens, fs) in info.items():
            inside = f.cls is not None and c in f.cls.mro
            if inside and (f.name in gens or f.name in STRUCTURAL or f.kind == "setter"):
                continue
            for n in own(f.node):
                if not (isinstance(n, ast.Attribute) and n.attr in fs - shape_only and isinstance(n.ctx, ast.Load)):
                    continue
                if inside or unique_attr(prog, n.attr, info):
                    if none_test(f, n):
                        continue
                    rep.ob("P07.raw", f"{f.short()}:{n.attr}")
                    if constructor_helper(prog, f):
                        continue
                    if not generated_before(f, n, gens):
                        rep.find("P07.raw", f"{f.short()}:{n.attr}", f.where(n), f"`{ast.unparse(n)}` is read without bringing it up to date with the parameters (`{sorted(gens)[0]}`)")


def unique_attr(prog, attr, info):
    return not any(attr in init_fields(prog, c) for c in prog.classes.values() if not any(k in info for k in c.mro))


def constructor_helper(prog, f):
    refs = [g for g in prog.funcs if g is not f and any(isinstance(n, ast.Attribute) and n.attr == f.name for n in own(g.node))]
    return f.name.startswith("_") and bool(refs) and all(g.name in STRUCTURAL or g.name == "__init__" for g in refs)


def none_test(f, n):
    for x in own(f.node):
        if isinstance(x, ast.Compare) and x.left is n and isinstance(x.ops[0], (ast.Is, ast.IsNot)):
            return True
    return False


def generated_before(f, n, gens):
    """The generator ran on the same object earlier in the function (an accessor property counts)."""
    base = ast.unparse(n.value)
    accessors = {a.lstrip("_") for a in (n.attr,)}
    for x in own(f.node):
        if x is n or getattr(x, "lineno", 0) > n.lineno:
            continue
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in gens and ast.unparse(x.func.value) == base:
            return True
        if isinstance(x, ast.Attribute) and x.attr in accessors | {"triple", "data"} and ast.unparse(x.value) == base:
            return True
    return False


def regen(prog, rep, calls):
    """The test that decides about re-evaluation looks at every parameter and knows trainable ones."""
    info = lazy_info(prog)
    var = prog.cls("Variable")
    for c, (gens, fs) in info.items():
        for n in sorted(gens):
            m = c.members[n]
            if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "_fn" for x in own(m.node)):
                continue
            tests = [x.test for x in own(m.node) if isinstance(x, ast.If)]
            rep.ob("P07.regen", f"{c.name}.{n}")
            if not tests:
                continue  # evaluated every time
            seen_var = seen_kw = False
            todo = list(tests)
            done = set()
            funcs = []
            while todo:
                e = todo.pop()
                for x in ast.walk(e):
                    if isinstance(x, ast.Name):
                        r = prog.resolve_name(m.module, x.id)
                        if r is var:
                            seen_var = True
                    if isinstance(x, ast.Attribute) and x.attr == "_kwargs":
                        seen_kw = True
                    if isinstance(x, (ast.Attribute, ast.Name)):
                        name = x.attr if isinstance(x, ast.Attribute) else x.id
                        h = c.lookup(name)[0] if isinstance(x, ast.Attribute) else None
                        if isinstance(h, Func) and h not in done:
                            done.add(h)
                            todo.append(h.node)
                            funcs.append(h)
                        if isinstance(x, ast.Name):
                            for y in own(m.node):
                                if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in y.targets) and id(y) not in done:
                                    done.add(id(y))
                                    todo.append(y.value)
            if not (seen_var and seen_kw):
                rep.find("P07.regen", f"{c.name}.{n}", m.where(), "whether the arrays are computed again does not depend on the parameters being trainable: updated parameters would not be seen")
                continue
            rep.ob("P07.traced", f"{c.name}.{n}")
            if not any(trace_aware(prog, calls, h, x) for h, x in [(m, x) for x in tests] + [(h, h.node) for h in funcs]) and not trace_aware(prog, calls, m, m.node):
                rep.find("P07.traced", f"{c.name}.{n}", m.where(), "arrays computed inside of a JAX transformation are kept after it: the object cannot be used any more")
            stale = never_evaluated(prog, c, m, fs)
            if stale:
                rep.find("P07.regen", f"{c.name}.{n}", m.where(), f"with arrays present and parameters of type {stale} the function is not evaluated again: updates of the trainable parameter are not seen")
                continue
            # the value of the parameters must be re-read, at every evaluation
            if not any(isinstance(x, ast.Attribute) and x.attr == "value" for x in ast.walk(m.node)):
                vals = [h for h in done if isinstance(h, Func) and any(isinstance(x, ast.Attribute) and x.attr == "value" for x in ast.walk(h.node))]
                if not vals and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(c.lookup(x.func.attr)[0], Func) for x in own(m.node)):
                    rep.find("P07.regen", f"{c.name}.{n}:value", m.where(), "the current values of the parameters are not read")
        # accessors of the fields run the generator unconditionally
        for a in sorted(fs - {"_batch_shape"}):
            p = c.members.get(a.lstrip("_"))
            if isinstance(p, Func) and p.kind == "property":
                rep.ob("P07.regen", f"{c.name}.{p.name}")
                cs = [x for x in own(p.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in gens]
                guarded = [x for i in own(p.node) if isinstance(i, (ast.If, ast.IfExp)) and any(isinstance(y, ast.Attribute) and y.attr in fs for y in ast.walk(i.test)) for b in (i.body if isinstance(i, ast.If) else [i.body]) for x in ast.walk(b)]
                if not any(x not in guarded for x in cs):
                    rep.find("P07.regen", f"{c.name}.{p.name}", p.where(), f"the accessor `{p.name}` does not bring the arrays up to date every time it is read")


def never_evaluated(prog, c, m, fs):
    """Kinds of parameters for which the generator, with arrays present, certainly skips `_fn`."""
    var, con = prog.cls("Variable"), prog.cls("Constant")
    for kinds in ((con, var), (var, con), (var, var), (con, con, var), (con, con, con, con, var)):
        calls = []

        def on_call(f, o, args, kwargs, extra, e, frame, st):
            if f is not None and f.kind == "ext" and f.a == "stored.fn":
                calls.append(e)
            return None

        it = Interp(prog, on_call=on_call)
        heap, fields = {"arr": Obj("arr", "array")}, {}
        for i, k in enumerate(kinds):
            heap[f"p{i}"] = Obj(f"p{i}", "inst", cls=(k,), fields={"_value": V(refs=frozenset(["arr"]))})
            fields[f"n{i}"] = V(refs=frozenset([f"p{i}"]))
        heap["kw"] = Obj("kw", "dict", fields=fields)
        ff = {x: V(refs=frozenset(["arr"])) for x in fs}
        ff["_kwargs"] = V(refs=frozenset(["kw"]))
        ff["_fn"] = V(funcs=(FV("ext", "stored.fn"),))
        heap["me"] = Obj("me", "inst", cls=(c,), fields=ff)
        me = V(refs=frozenset(["me"]))
        try:
            it.exec_func(m, {m.params[0].name: me}, State({}, heap, E), selfv=me)
        except (Budget, RecursionError):
            continue
        if not calls:
            return " and ".join(k.name for k in kinds)
    return None


def params(prog, rep):
    """from_function(..., name=<parameter object>), never its current value."""
    base = prog.cls("CircuitComponent")
    for c in prog.subclasses(base, strict=False):
        for m in c.members.values():
            if not isinstance(m, Func):
                continue
            for n in own(m.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "from_function":
                    closure_reads(prog, rep, c, m, n)
                    for k in n.keywords:
                        if k.arg in (None, "fn"):
                            continue
                        rep.ob("P07.param", f"{c.name}({k.arg})")
                        if not isinstance(k.value, ast.Constant) and constants_only(prog, m, k.value):
                            continue
                        for e in expand(m, k.value):
                            for x in ast.walk(e):
                                if isinstance(x, ast.Attribute) and x.attr == "value" and mentions_parameter(x.value):
                                    rep.find("P07.param", f"{c.name}({k.arg})", m.where(n), f"the ansatz of {c.name} is given the current value of `{ast.unparse(x.value)}`, so later updates of the parameter are not seen")


# ---- what objects remember ----------------------------------------------------------------

LIVE = {"ansatz", "_ansatz", "parameters", "_parameters", "variables", "bargmann_triple", "fock_array", "contract", "triple"}
LIVE_ANSATZ = {"A", "b", "c", "array", "data", "triple", "_A", "_b", "_c", "_array", "_kwargs", "_fn"}


def instance_memo(prog, rep):
    bases = [(prog.cls("CircuitComponent"), LIVE), (prog.maybe_cls("Circuit"), LIVE), (prog.maybe_cls("Ansatz"), LIVE_ANSATZ)]
    for base, live in bases:
        if base is None:
            continue
        for c in prog.subclasses(base, strict=False):
            for f in c.members.values():
                if not isinstance(f, Func) or isinstance(f.node, ast.Lambda) or f.cls is not c or not f.params or f.name in ("__init__", "_generate_ansatz", "_tree_unflatten") or f.kind == "setter":
                    continue
                me = f.params[0].name
                rep.ob("P07.memo", f.short())
                if any((d or "").split(".")[-1] == "cached_property" for d in f.decorators):
                    hit = live_read(c, live, f.node.body, set())
                    if hit:
                        rep.find("P07.memo", f.short(), f.where(), f"`{f.name}` is computed once from `{hit}`: later updates of the parameters are not seen")
                    continue
                for n in own(f.node):
                    if not isinstance(n, (ast.Assign, ast.AnnAssign)) or n.value is None:
                        continue
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        name = kept_as(t, me)
                        if name is None or not looked_up(f, me, name):
                            continue
                        hit = live_read(c, live, expand(f, n.value), set())
                        if hit and not (isinstance(n.value, ast.Constant)):
                            rep.find("P07.memo", f"{f.short()}:{name}", f.where(n), f"`self.{name}` remembers what was computed from `{hit}`: later updates of the parameters are not seen")


def kept_as(t, me):
    """The attribute of the object under which an assignment keeps its value."""
    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
        return t.attr
    if isinstance(t, ast.Subscript):
        v = t.value
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == me:
            if v.attr == "__dict__":
                return t.slice.value if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str) else None
            return v.attr
    return None


def looked_up(f, me, name):
    """The function tests whether the attribute (or its entry) is there already."""

    def it(e):
        return isinstance(e, ast.Attribute) and e.attr == name and isinstance(e.value, ast.Name) and e.value.id == me

    def named(e):
        return isinstance(e, ast.Constant) and e.value == name

    for n in own(f.node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            r = n.comparators[0]
            if isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and it(n.left) and isinstance(r, ast.Constant) and r.value is None:
                return True
            if isinstance(n.ops[0], (ast.In, ast.NotIn)) and (it(r) or named(n.left)):
                return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 and named(n.args[1]):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "setdefault") and (it(n.func.value) or n.args and named(n.args[0])):
            return True
        if isinstance(n, (ast.If, ast.IfExp)) and (it(n.test) or isinstance(n.test, ast.UnaryOp) and it(n.test.operand)):
            return True
        if isinstance(n, ast.Try) and any(it(x) for b in n.body for x in ast.walk(b)):
            return True
    return False


def live_read(c, live, nodes, seen):
    """What among the changing state is read, through methods of the class too."""
    for b in nodes:
        for x in ast.walk(b):
            if isinstance(x, ast.Attribute):
                if x.attr in live:
                    return x.attr
                if isinstance(x.value, ast.Name) and x.value.id in ("self", "cls") and x.attr not in seen:
                    seen.add(x.attr)
                    m, _ = c.lookup(x.attr)
                    if isinstance(m, Func) and m.name != "__init__" and not isinstance(m.node, ast.Lambda):
                        hit = live_read(c, live, m.node.body, seen)
                        if hit:
                            return hit
    return None


def given_values(prog, m):
    """Names of constructor arguments that may be trainable."""
    names = {p.name for p in m.params}
    return {n for n in names if f"{n}_trainable" in names}


def closure_reads(prog, rep, c, m, n):
    """The function of an ansatz computes from nothing but its own arguments."""
    fns = [n.args[0]] if n.args else [k.value for k in n.keywords if k.arg == "fn"]
    given = given_values(prog, m)
    passed = {k.arg for k in n.keywords}
    for fn in fns:
        bound, bodies, defaults = set(), [], []
        for e in expand(m, fn):
            for x in ast.walk(e):
                if isinstance(x, ast.Lambda):
                    bound |= {a.arg for a in [*x.args.args, *x.args.kwonlyargs, *x.args.posonlyargs]}
                    bodies.append(x.body)
                elif isinstance(x, ast.Name) and x.id in m.locals_funcs:
                    g = m.locals_funcs[x.id]
                    bound |= {p.name for p in g.params}
                    bodies += g.node.body if not isinstance(g.node, ast.Lambda) else [g.node.body]
                elif isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] == "partial":
                    bodies += [*x.args[1:], *[k.value for k in x.keywords if k.arg not in passed]]
        for b in bodies:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in given - bound:
                    rep.find("P07.param", f"{c.name}({x.id}):closure", m.where(n), f"the function of the ansatz of {c.name} uses the value `{x.id}` had at construction: later updates of the parameter are not seen")
                elif isinstance(x, ast.Attribute) and x.attr == "parameters" and isinstance(x.value, ast.Name) and x.value.id == "self":
                    rep.find("P07.param", f"{c.name}:closure", m.where(n), f"the function of the ansatz of {c.name} reads parameters that are not among its arguments: that they are trainable is not seen")


def constants_only(prog, m, e):
    """Every parameter mentioned is registered as a Constant: it is never updated."""
    fixed, free = set(), set()
    for n in own(m.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_parameter" and n.args:
            a = n.args[0]
            if isinstance(a, ast.Name):
                a = next((y.value for y in own(m.node) if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in y.targets)), a)
            name = None
            if isinstance(a, ast.Call):
                for x in [*a.args[1:], *[k.value for k in a.keywords if k.arg == "name"]]:
                    if isinstance(x, ast.Constant) and isinstance(x.value, str):
                        name = x.value
            if name is not None:
                last = (dotted(a.func) or "").split(".")[-1]
                const = last == "Constant" or (last == "make_parameter" and a.args and isinstance(a.args[0], ast.Constant) and a.args[0].value is False)
                (fixed if const else free).add(name)
    got = set()
    for x in (y for z in expand(m, e) for y in ast.walk(z)):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and x.value.attr == "parameters":
            got.add(x.attr)
    return bool(got) and got <= fixed - free


def expand(m, e):
    out = [e]
    for x in ast.walk(e):
        if isinstance(x, ast.Name):
            for y in own(m.node):
                if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in y.targets):
                    out.append(y.value)
    return out


def mentions_parameter(e):
    return any(isinstance(x, ast.Attribute) and x.attr == "parameters" for x in ast.walk(e)) or isinstance(e, (ast.Name, ast.Attribute))
