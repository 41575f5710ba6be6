"""P04 -- global configuration is scoped: contexts restore it, the library never changes it."""

from ..absint import Frame, _modfunc
from ..model import Module
from .common import *

GLOBAL_MUTATORS = {
    "numpy.seterr", "numpy.random.seed", "random.seed", "warnings.simplefilter", "warnings.filterwarnings",
    "os.chdir", "os.putenv", "jax.config.update", "locale.setlocale", "sys.setrecursionlimit",
    "numpy.set_printoptions", "warnings.resetwarnings", "socket.setdefaulttimeout", "os.umask",
    "numpy.random.set_state", "random.setstate", "numpy.setbufsize", "numpy.seterrcall", "os.environ.update", "os.environ.setdefault",
    "os.environ.pop", "os.environ.clear", "os.unsetenv", "logging.disable", "logging.basicConfig", "gc.disable", "numba.set_num_threads",
    "matplotlib.use", "matplotlib.pyplot.rcParams.update", "matplotlib.rcParams.update", "matplotlib.pyplot.switch_backend", "sys.path.append", "sys.path.insert",
}


def check(prog, rep):
    rep.rule("P04.restore", "leaving a settings context, normally or by an exception, puts back the value each setting had on entry, for nested contexts too", 6)
    rep.rule("P04.applied", "inside a settings context every given setting has the given value", 6)
    rep.rule("P04.propagate", "leaving a settings context never swallows the exception", 1)
    rep.rule("P04.writer", "no library function changes a setting, the backend or interpreter-wide state", 300)
    check_context(prog, rep)
    check_writers(prog, rep)


def check_context(prog, rep):
    c = prog.cls("Settings")
    enter_call, enter, leave = c.lookup("__call__")[0], c.lookup("__enter__")[0], c.lookup("__exit__")[0]
    if not all(isinstance(m, Func) for m in (enter_call, enter, leave)):
        raise AnalysisBroken("Settings is no context manager any more")
    it0 = Interp(prog)
    got = construct(rep, prog, c, it0)
    if got is None:
        raise AnalysisBroken("Settings() not analysable")
    it, v, st0, _ = got
    r = next(iter(v.refs))
    public = [k for k in st0.heap[r].fields if not k.startswith("_") and k.isupper()]
    props = [n for k in c.mro for n, m in k.members.items() if isinstance(m, Func) and m.kind == "property" and c.lookup_setter(n) is not None and n.isupper()]
    keys = sorted(set(public) | set(props))
    if len(keys) < 6:
        raise AnalysisBroken("fewer than 6 settings found")

    def atom(n):
        return V(deps=frozenset([n]), top=True)

    def fresh_state():
        st = State({}, dict(st0.heap), E)
        f = dict(st.heap[r].fields)
        # mark every plain value by the setting it belongs to
        for k in list(f):
            if not f[k].refs and k != "_frozen":
                f[k] = atom("init." + k)
        st.heap[r] = st.heap[r].copy(fields=f)
        return st

    me = V(refs=frozenset([r]))
    step = [0]

    def call(func, st, args):
        it = Interp(prog)
        it.ignore_handlers = True
        env = {func.params[0].name: me}
        kw = {}
        for p in func.params[1:]:
            if p.kind == "kwarg":
                oid = f"kw:{id(args)}"
                st.heap[oid] = Obj(oid, "dict", fields=dict(args))
                env[p.name] = V(refs=frozenset([oid]))
            else:
                env[p.name] = atom("arg." + p.name)
        st = State({}, dict(st.heap), E)
        step[0] += 1
        it.stack.append(Frame(_modfunc(c.module), 0, ("step", step[0])))
        rv, st2 = it.exec_func(func, env, st, selfv=me)
        return rv, State({}, dict(st2.heap), E) if st2 is not None else None

    def read(k, st):
        it = Interp(prog)
        m = c.lookup(k)[0]
        if isinstance(m, Func) and m.kind == "property":
            rv, st2 = it.exec_func(m, {m.params[0].name: me}, State({}, dict(st.heap), E), selfv=me)
            return it.deep(rv, st2) | rv.ctl if rv is not None else E
        x = st.heap[r].fields.get(k)
        return (it.deep(x, st) | x.ctl) if x is not None else None

    where = leave.where()
    for i, k in enumerate(keys):
        other = keys[(i + 1) % len(keys)]
        try:
            st = fresh_state()
            base = {x: read(x, st) for x in (k, other)}
            _, st = call(enter_call, st, {k: atom("outer")})
            _, st = call(enter, st, {})
            rep.ob("P04.applied", k)
            d = read(k, st)
            if d is None or "outer" not in d or any(x.startswith("init.") and x in base[k] for x in d):
                rep.find("P04.applied", k, enter_call.where(), f"inside `with settings({k}=value)` the setting is {sorted(d or [])}, not the given value")
            out1 = d
            _, st1 = call(leave, st, {})
            rep.ob("P04.restore", f"{k} (single)")
            if read(k, st1) != base[k]:
                rep.find("P04.restore", f"{k} (single)", where, f"after the context `{k}` derives from {sorted(read(k, st1) or [])} instead of its value on entry")
            # nested contexts: the same setting, then another one together with it
            for inner, tag in (({k: atom("inner")}, "nested"), ({other: atom("inner2")}, "nested, other key"), ({k: atom("inner"), other: atom("inner2")}, "nested, two keys")):
                s = State({}, dict(st.heap), E)
                _, s = call(enter_call, s, inner)
                _, s = call(enter, s, {})
                _, s = call(leave, s, {})
                rep.ob("P04.restore", f"{k} ({tag})")
                if read(k, s) != out1 or read(other, s) != base[other]:
                    rep.find("P04.restore", f"{k} ({tag})", where, f"leaving an inner context gives `{k}` a value from {sorted(read(k, s) or [])} instead of the value of the enclosing context")
                    continue
                _, s = call(leave, s, {})
                if read(k, s) != base[k] or read(other, s) != base[other]:
                    rep.find("P04.restore", f"{k} ({tag})", where, f"leaving nested contexts leaves `{k}` at a value from {sorted(read(k, s) or [])}, `{other}` at {sorted(read(other, s) or [])}")
        except (Budget, RecursionError, AttributeError, TypeError):
            rep.skip(f"Settings context for {k}")
    # exceptions: the result of __exit__ must be false
    rep.ob("P04.propagate", "Settings.__exit__")
    rv, _ = call(leave, fresh_state(), {})
    if rv is not None and (rv.top or rv.refs or rv.funcs or any(x for x in (_const(w) for w in rv.consts))):
        rep.find("P04.propagate", "Settings.__exit__", where, "may return a true value: exceptions raised inside the context are swallowed")


def _const(w):
    from ..absint import unwrapc

    return unwrapc(w)


def check_writers(prog, rep):
    settings_cls = prog.cls("Settings")
    manager = prog.cls("BackendManager")
    for f in prog.funcs:
        if isinstance(f.node, ast.Lambda):
            continue
        if f.cls in (settings_cls, manager):
            continue
        rep.ob("P04.writer", f.short())
        for n in own(f.node):
            tgt = None
            if isinstance(n, ast.Assign):
                tgt = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgt = [n.target]
            for t in tgt or ():
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and kind_of(prog, f, x.value) in ("settings", "math"):
                        rep.find("P04.writer", f"{f.short()}:{dotted(x)}", f.where(n), f"assigns `{dotted(x)}`: a library call changes the user's configuration")
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and n.args and kind_of(prog, f, n.args[0]) in ("settings", "math"):
                    rep.find("P04.writer", f"{f.short()}:{n.func.id}", f.where(n), "sets an attribute of the user's configuration")
                elif isinstance(n.func, ast.Attribute) and n.func.attr == "change_backend" and kind_of(prog, f, n.func.value) == "math":
                    rep.find("P04.writer", f"{f.short()}:change_backend", f.where(n), "a library function changes the backend")
                elif isinstance(n.func, ast.Attribute) and n.func.attr in ("__setattr__", "__call__") and kind_of(prog, f, n.func.value) == "settings":
                    rep.find("P04.writer", f"{f.short()}:{n.func.attr}", f.where(n), "sets an attribute of the user's configuration")
                elif kind_of(prog, f, n.func) == "settings" and not in_with(f, n):
                    rep.find("P04.writer", f"{f.short()}:settings()", f.where(n), "changes settings outside a `with` statement: nothing restores them")
                else:
                    full = external(prog, f, n.func)
                    if full in GLOBAL_MUTATORS and not (full.startswith("warnings.") and catching(prog, f, n)):
                        rep.find("P04.writer", f"{f.short()}:{full}", f.where(n), f"calls `{full}`: a library call changes interpreter-wide state")
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and external(prog, f, n.value):
                rep.find("P04.writer", f"{f.short()}:{dotted(n)}", f.where(n), f"assigns `{dotted(n)}`: a library call changes interpreter-wide state")
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and external(prog, f, n.value) in ("os.environ", "matplotlib.rcParams", "matplotlib.pyplot.rcParams"):
                rep.find("P04.writer", f"{f.short()}:os.environ", f.where(n), "changes the environment of the process")
            if isinstance(n, ast.Attribute) and n.attr == "__dict__" and kind_of(prog, f, n.value) == "settings" and any(isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr == "update" and m.func.value is n for m in own(f.node)):
                rep.find("P04.writer", f"{f.short()}:__dict__", f.where(n), "changes the user's configuration")


def catching(prog, f, call):
    """Within `with warnings.catch_warnings()`, which restores the filters."""
    for n in own(f.node):
        if isinstance(n, ast.With) and any(isinstance(i.context_expr, ast.Call) and external(prog, f, i.context_expr.func) == "warnings.catch_warnings" for i in n.items):
            if any(x is call for b in n.body for x in ast.walk(b)):
                return True
    return False


def in_with(f, call):
    for n in own(f.node):
        if isinstance(n, (ast.With, ast.AsyncWith)) and any(i.context_expr is call for i in n.items):
            return True
        # ExitStack.enter_context(settings(...))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "enter_context" and call in n.args:
            return True
        # a variable that is used as a context manager right away
        if isinstance(n, ast.Assign) and n.value is call and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            nm = n.targets[0].id
            if any(isinstance(w, ast.With) and any(isinstance(i.context_expr, ast.Name) and i.context_expr.id == nm for i in w.items) for w in own(f.node)):
                return True
    return False


def kind_of(prog, f, expr):
    """'settings' / 'math' when `expr` is the settings / backend singleton (also through a local alias)."""
    if isinstance(expr, ast.Name):
        if expr.id in local_names(f):
            for n in own(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == expr.id for t in n.targets) and n.value is not expr and isinstance(n.value, (ast.Name, ast.Attribute)):
                    k = kind_of(prog, f, n.value) if not (isinstance(n.value, ast.Name) and n.value.id == expr.id) else None
                    if k:
                        return k
            return None
    elif not isinstance(expr, ast.Attribute):
        return None
    return singleton_kind(prog, f.module, expr)


def local_names(f):
    out = {p.name for p in f.params}
    for n in own(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def singleton_kind(prog, module, expr):
    r = prog.resolve_expr(module, expr)
    if isinstance(r, Module):
        return "math" if r.name == "mrmustard.math" else None
    if isinstance(r, tuple) and r and r[0] == "var" and isinstance(r[1], ast.Call):
        k = prog.resolve_expr(r[2], r[1].func)
        if isinstance(k, Class):
            return {"Settings": "settings", "BackendManager": "math"}.get(k.name)
    return None


def external(prog, f, expr):
    d = dotted(expr)
    if d is None:
        return None
    head = d.split(".")[0]
    if head in local_names(f):
        return None
    r = prog.resolve_expr(f.module, expr)
    if isinstance(r, tuple) and r and r[0] == "ext":
        return r[1]
    return None
