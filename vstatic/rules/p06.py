"""P06 -- an argument that is given is honoured."""

from ..calls import Calls
from .common import *

EMPTY = ("set()", "dict()", "list()", "tuple()", "{}", "[]", "()", "frozenset()")
# labels, verbosity and precision do not select a result
NEUTRAL = {"name", "debug", "verbose", "dtype"}


def check(prog, rep):
    rep.rule("P06.read", "every argument of a function influences its result, its effects or the errors it raises", 500)
    rep.rule("P06.path", "no path through a public function ignores an argument that the other paths use", 400)
    rep.rule("P06.overwritten", "an argument is not overwritten before it is used", 500)
    rep.rule("P06.falsy", "a default stands in only for an argument that was left out, not for one that is zero, False or empty", 30)
    rep.rule("P06.role", "an argument handed on reaches the parameter of its own name", 300)
    rep.rule("P06.constant", "a function that takes an argument does not hand a constant on in its place", 300)
    rep.rule("P06.dropped", "an option is handed on wherever the callee takes it too", 40)
    rep.rule("P06.accepted", "a call gives a function of the library the arguments it takes", 800)
    calls = Calls(prog)
    handed = address_taken(prog, calls)
    unread(prog, rep)
    for f in prog.funcs:
        if isinstance(f.node, ast.Lambda):
            continue
        if not is_stub(f) and not f.is_abstract():
            influence(prog, rep, f, handed)
            paths(rep, f, handed)
        falsy(prog, rep, f)
        for n in own(f.node):
            if isinstance(n, ast.Call):
                call(prog, rep, calls, f, n)


# ---- influence ------------------------------------------------------------------------------------


def address_taken(prog, calls):
    """Functions handed on as values: their signature is dictated by whoever calls them."""
    out = set()
    for f in prog.funcs:
        funcs = {id(n.func) for n in ast.walk(f.node) if isinstance(n, ast.Call)}
        for n in own(f.node):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load) and id(n) not in funcs:
                r = calls.resolve(f, n)
                if isinstance(r, Func):
                    out.add(r)
    for m in prog.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                for a in n.value.args:
                    r = prog.resolve_expr(m, a)
                    if isinstance(r, Func):
                        out.add(r)
    return out


def unread(prog, rep):
    """Constructor arguments kept in a field that nothing reads."""
    loads = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                loads.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                loads.add(n.value)
    for c in prog.classes.values():
        ini = c.members.get("__init__")
        if not isinstance(ini, Func) or not ini.params or "dataclass" in " ".join(ini.decorators):
            continue
        ps = {p.name for p in ini.params[1:]}
        me = ini.params[0].name
        uses = {}
        for n in own(ini.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ps:
                uses[n.id] = uses.get(n.id, 0) + 1
        for n in own(ini.node):
            if not isinstance(n, (ast.Assign, ast.AnnAssign)) or n.value is None:
                continue
            tgs = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in tgs:
                if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me) or len(tgs) > 1:
                    continue
                for p in sorted(names_in(n.value) & ps):
                    rep.ob("P06.read", f"{ini.short()}({p}) -> {t.attr}")
                    inside = sum(1 for x in ast.walk(n.value) if isinstance(x, ast.Name) and x.id == p)
                    if t.attr not in loads and uses.get(p, 0) == inside:
                        rep.find("P06.read", f"{ini.short()}({p})", ini.where(n), f"{c.name} keeps `{p}` in `{t.attr}`, which nothing reads")


def names_in(e, skip_shape=False):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def root(t):
    while isinstance(t, (ast.Attribute, ast.Subscript, ast.Starred)):
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


def targets(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)
    else:
        yield t


class Influence:
    """Flow-insensitive slice of one function: which names end up in results, effects or errors."""

    def __init__(self, f):
        self.f = f
        self.flows = []  # (sources, target name)
        self.sinks = []  # sources
        self.locals = {n.id for n in own(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        # what a loop variable stands for lives outside the function
        self.loops = {t.id for n in own(f.node) if isinstance(n, (ast.For, ast.AsyncFor)) for t in targets(n.target) if isinstance(t, ast.Name)}
        self.body(f.node.body, set())

    def body(self, stmts, ctl):
        for s in stmts:
            self.stmt(s, ctl)

    def stmt(self, s, ctl):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            src = set()
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    src.add(n.id)
            mine = {a.arg for a in s.args.args} if not isinstance(s, ast.ClassDef) else set()
            self.flows.append((src - mine | ctl, s.name))
            return
        for n in ast.walk(s) if not isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)) else ():
            if isinstance(n, ast.NamedExpr):
                self.flows.append((names_in(n.value) | ctl, n.target.id))
            elif isinstance(n, ast.comprehension):
                for t in targets(n.target):
                    if isinstance(t, ast.Name):
                        self.flows.append((names_in(n.iter), t.id))
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is None:
                return
            src = names_in(s.value) | ctl
            tgs = s.targets if isinstance(s, ast.Assign) else [s.target]
            for tg in tgs:
                for t in targets(tg):
                    if isinstance(t, ast.Name):
                        self.flows.append((src, t.id))
                    else:
                        idx = names_in(t) - {root(t)}
                        r = root(t)
                        if r in self.locals and isinstance(t, ast.Subscript) and r not in self.loops:
                            self.flows.append((src | idx, r))
                        else:
                            self.sinks.append(src | idx)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.sinks.append(names_in(s.value))
            self.sinks.append(ctl)
        elif isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Constant):
                return
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id in self.locals:
                self.flows.append((names_in(v) | ctl, v.func.value.id))
            # a call may change any local object it is given
            if isinstance(v, ast.Call):
                for a in v.args:
                    if isinstance(a, ast.Name) and a.id in self.locals:
                        self.flows.append((names_in(v) | ctl, a.id))
            self.sinks.append(names_in(v) | ctl)
        elif isinstance(s, (ast.Raise, ast.Assert)):
            self.sinks.append(names_in(s) | ctl)
        elif isinstance(s, ast.If):
            self.pre(s.test, ctl)
            c = ctl | names_in(s.test)
            self.body(s.body, c)
            self.body(s.orelse, c)
        elif isinstance(s, ast.While):
            self.pre(s.test, ctl)
            c = ctl | names_in(s.test)
            self.body(s.body, c)
            self.body(s.orelse, ctl)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.pre(s.iter, ctl)
            src = names_in(s.iter) | ctl
            for t in targets(s.target):
                if isinstance(t, ast.Name):
                    self.flows.append((src, t.id))
            self.body(s.body, src)
            self.body(s.orelse, ctl)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            src = set(ctl)
            for i in s.items:
                self.pre(i.context_expr, ctl)
                src |= names_in(i.context_expr)
                if i.optional_vars is not None:
                    for t in targets(i.optional_vars):
                        if isinstance(t, ast.Name):
                            self.flows.append((src, t.id))
            self.sinks.append(src)
            self.body(s.body, src)
        elif isinstance(s, ast.Try):
            self.body(s.body, ctl)
            for h in s.handlers:
                self.body(h.body, ctl)
            self.body(s.orelse, ctl)
            self.body(s.finalbody, ctl)
        elif isinstance(s, (ast.Match,)):
            c = ctl | names_in(s.subject)
            for k in s.cases:
                for n in ast.walk(k.pattern):
                    nm = getattr(n, "name", None)
                    if isinstance(nm, str):
                        self.flows.append((c, nm))
                self.body(k.body, c)
        elif isinstance(s, (ast.Break, ast.Continue)):
            self.sinks.append(ctl)
        elif isinstance(s, ast.Delete):
            pass

    def pre(self, e, ctl):
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                self.flows.append((names_in(n.value) | ctl, n.target.id))
            elif isinstance(n, ast.comprehension):
                for t in targets(n.target):
                    if isinstance(t, ast.Name):
                        self.flows.append((names_in(n.iter), t.id))

    def live(self):
        live = set().union(*self.sinks) if self.sinks else set()
        changed = True
        while changed:
            changed = False
            for src, t in self.flows:
                if t in live and not src <= live:
                    live |= src
                    changed = True
        return live


def influence(prog, rep, f, handed):
    if f in handed or (f.name.startswith("__") and f.name.endswith("__") and f.name not in ("__init__", "__new__", "__call__")):
        return
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars") for n in ast.walk(f.node)):
        return
    live = None
    twins = None
    for i, p in enumerate(f.params):
        if i == 0 and f.kind in ("method", "classmethod", "property", "setter"):
            continue
        if p.name.startswith("_") or p.name in ("self", "cls"):
            continue
        rep.ob("P06.read", f"{f.short()}({p.name})")
        if live is None:
            live = Influence(f).live()
        if p.name not in live:
            if twins is None:
                twins = siblings(prog, f)
            # the signature is shared with an implementation that uses it
            if any(q.name == p.name for t in twins for q in t.params):
                continue
            rep.find("P06.read", f"{f.short()}({p.name})", f.where(), f"the argument `{p.name}` of {f.short()} has no influence on what it does")
            continue
        if only_asked(f, p):
            if twins is None:
                twins = siblings(prog, f)
            if not any(q.name == p.name for t in twins for q in t.params):
                rep.find("P06.read", f"{f.short()}({p.name})", f.where(), f"{f.short()} only asks whether `{p.name}` was given and never uses it")
                continue
        rep.ob("P06.overwritten", f"{f.short()}({p.name})")
        n = overwritten(f, p.name)
        if n is not None:
            rep.find("P06.overwritten", f"{f.short()}({p.name})", f.where(n), f"`{p.name}` is overwritten before {f.short()} uses the value it was given")


def only_asked(f, p):
    """Is the parameter compared with None and nothing else?"""
    if kind_of(p) == "flag":
        return False
    asked = {id(n.left) for n in ast.walk(f.node) if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant)}
    # a test in front of an error is a use
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assert) or (isinstance(n, ast.If) and any(isinstance(s, ast.Raise) for s in n.body + n.orelse)):
            asked -= {id(x) for x in ast.walk(n.test)}
    uses = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == p.name and isinstance(n.ctx, ast.Load)]
    return bool(uses) and all(id(u) in asked for u in uses)


def siblings(prog, f):
    """Same-named methods of base classes, subclasses and classes that share a base."""
    if f.cls is None:
        return []
    out = []
    bases = [b for b in f.cls.mro[1:] if isinstance(b, Class)]
    for c in prog.classes.values():
        if c is f.cls:
            continue
        if c in bases or f.cls in c.mro or (set(bases) & set(c.mro)):
            m = c.members.get(f.name)
            if isinstance(m, Func):
                out.append(m)
    return out


def overwritten(f, name):
    """The unconditional assignment that replaces a parameter before anything reads it."""
    for s in f.node.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            if name in names_in(s.value):
                return None
            tgs = s.targets if isinstance(s, ast.Assign) else [s.target]
            for tg in tgs:
                for t in targets(tg):
                    if isinstance(t, ast.Name) and t.id == name:
                        return s
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == name:
                return None
    return None


# ---- paths ----------------------------------------------------------------------------------------

PATHS = 400
# paths on which an argument has nothing to say
IDLE = {
    ("CircuitComponent.contract", "mode"): "multiplication by a number",
    ("make_parameter", "bounds"): "constants have no bounds",
    ("make_parameter", "update_fn"): "constants are not updated",
    ("make_parameter", "is_trainable"): "an existing parameter is kept",
    ("State.auto_shape", "max_prob"): "a manual shape is given priority on request",
    ("State.auto_shape", "max_shape"): "a manual shape is given priority on request",
    ("State.auto_shape", "min_shape"): "a manual shape is given priority on request",
    ("BackendNumpy.conditional", "true_fn"): "the condition chooses",
    ("BackendNumpy.conditional", "false_fn"): "the condition chooses",
    ("BackendJax.conditional", "true_fn"): "the condition chooses",
    ("BackendJax.conditional", "false_fn"): "the condition chooses",
    ("complex_gaussian_integral_1", "measure"): "nothing is integrated",
    ("to_fock", "stable"): "Fock arrays are kept",
}


class TooMany(Exception):
    pass


class Path:
    """What the names hold, what decided the way here, and what went into effects."""

    __slots__ = ("ctl", "env", "sink")

    def __init__(self, env, ctl, sink):
        self.env, self.ctl, self.sink = env, ctl, sink

    def copy(self):
        return Path(dict(self.env), self.ctl, self.sink)


def trivial(e):
    """A value that no computation of the function went into."""
    if e is None or isinstance(e, ast.Constant):
        return True
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return all(trivial(x) for x in e.elts)
    if isinstance(e, ast.Dict):
        return not e.keys
    if isinstance(e, ast.UnaryOp):
        return trivial(e.operand)
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


class Paths:
    """Path-wise slices: what the value returned on each path was computed and chosen from."""

    def __init__(self, f):
        self.exits = []
        self.stored = {n.id for n in own(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        env = {p.name: frozenset([p.name]) for p in f.params}
        for p in self.body(f.node.body, [Path(env, frozenset(), frozenset())]):
            self.exits.append((p, None, frozenset()))

    def deps(self, p, e):
        out = frozenset()
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                out |= p.env.get(n.id, frozenset())
        return out

    def assign(self, p, t, d):
        for x in targets(t):
            if isinstance(x, ast.Name):
                p.env[x.id] = d
            else:
                r = root(x)
                d2 = d | self.deps(p, x)
                if r in p.env:
                    p.env[r] |= d2
                p.sink |= d2

    def body(self, ss, ps):
        for s in ss:
            if len(ps) > PATHS or len(self.exits) > 8 * PATHS:
                raise TooMany
            ps = [q for p in ps for q in self.stmt(s, p)]
            if not ps:
                break
        return ps

    def stmt(self, s, p):
        if not isinstance(s, (ast.If, ast.For, ast.AsyncFor, ast.While, ast.With, ast.AsyncWith, ast.Try, ast.Match, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.named(p, s)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            p.env[s.name] = self.deps(p, s)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is not None:
                d = self.deps(p, s.value)
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    self.assign(p, t, d)
        elif isinstance(s, ast.AugAssign):
            d = self.deps(p, s.value)
            if isinstance(s.target, ast.Name):
                d |= p.env.get(s.target.id, frozenset())
            self.assign(p, s.target, d)
        elif isinstance(s, ast.Return):
            # a name that this path never assigned: the path ends in an error
            e = s.value
            if e is None or not any(n.id in self.stored and n.id not in p.env for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)):
                self.exits.append((p, s, self.deps(p, e) if e is not None else frozenset()))
            return []
        elif isinstance(s, ast.Raise):
            return []
        elif isinstance(s, ast.Expr):
            d = self.deps(p, s.value)
            p.sink |= d
            for n in ast.walk(s.value):
                if isinstance(n, ast.Name) and n.id in p.env:
                    p.env[n.id] |= d
        elif isinstance(s, ast.Assert):
            p.sink |= self.deps(p, s)
        elif isinstance(s, ast.If):
            self.named(p, s.test)
            p.ctl |= self.deps(p, s.test)
            a = p.copy()
            ways = self.body(s.body, [a]), self.body(s.orelse, [p])
            x, filled = left_out(s.test)
            if x is not None and len(ways[0]) == len(ways[1]) == 1 and any(isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Store) for t in (s.body, s.orelse)[filled] for n in ast.walk(t)):
                # a default is put in: what it is made of is only needed for it
                (a,), (b,) = ways
                a.env = {k: a.env.get(k, frozenset()) | b.env.get(k, frozenset()) for k in a.env.keys() | b.env.keys()}
                a.sink |= b.sink
                a.ctl |= b.ctl
                return [a]
            return ways[0] + ways[1]
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            e = s.iter if not isinstance(s, ast.While) else s.test
            self.named(p, e)
            d = self.deps(p, e)
            p.ctl |= d
            if not isinstance(s, ast.While):
                self.assign(p, s.target, d)
            for o in self.body(s.body, [p.copy()]):
                for k, v in o.env.items():
                    p.env[k] = p.env.get(k, frozenset()) | v
                p.sink |= o.sink
                p.ctl |= o.ctl
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(n, ast.Break) for n in ast.walk(s)):
                return []
            return self.body(s.orelse, [p])
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                d = self.deps(p, i.context_expr)
                p.sink |= d
                if i.optional_vars is not None:
                    self.assign(p, i.optional_vars, d)
            return self.body(s.body, [p])
        elif isinstance(s, ast.Try):
            # the way through a handler is the way of an error
            q = p.copy()
            keep = len(self.exits)
            out = self.body(s.orelse, self.body(s.body, [p]))
            if len(self.exits) == keep and not out:
                for h in s.handlers:
                    out += self.body(h.body, [q.copy()])
            elif any(not ends(h.body) for h in s.handlers):
                for h in s.handlers:
                    if not ends(h.body):
                        out += self.body(h.body, [q.copy()])
            return self.body(s.finalbody, out)
        elif isinstance(s, ast.Match):
            p.ctl |= self.deps(p, s.subject)
            out = []
            for k in s.cases:
                q = p.copy()
                for n in ast.walk(k.pattern):
                    nm = getattr(n, "name", None)
                    if isinstance(nm, str):
                        q.env[nm] = self.deps(p, s.subject)
                out += self.body(k.body, [q])
            last = s.cases[-1]
            if last.guard is None and isinstance(last.pattern, ast.MatchAs) and last.pattern.pattern is None:
                return out
            return [*out, p]
        return [p]

    def named(self, p, e):
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                p.env[n.target.id] = self.deps(p, n.value)


def left_out(test):
    """(x, 0) for `x is None`, (x, 1) for `x is not None`."""
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
        if isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            return test.left.id, int(isinstance(test.ops[0], ast.IsNot))
    return None, 0


def ends(body):
    return any(isinstance(s, (ast.Return, ast.Raise)) for s in body)


def paths(rep, f, handed):
    private = f.name.startswith("_") and f.name not in ("__init__", "__call__", "__new__")
    if private or f in handed or f.outer is not None:
        return
    ps = [p.name for i, p in enumerate(f.params) if not (i == 0 and f.kind in ("method", "classmethod", "property", "setter")) and not p.name.startswith("_") and p.name not in ("self", "cls") and p.name not in NEUTRAL]
    if not ps:
        return
    try:
        exits = Paths(f).exits
    except TooMany:
        return
    if any(s is not None and s.value is not None and not trivial(s.value) for _, s, _ in exits):
        # running off the end of a function that returns something elsewhere
        exits = [e for e in exits if e[1] is not None]
    for nm in ps:
        rep.ob("P06.path", f"{f.short()}({nm})")
        hit = miss = None
        for p, s, d in exits:
            if nm in d or nm in p.ctl or nm in p.sink:
                hit = True
            elif miss is None and not (s is not None and trivial(s.value)):
                miss = s or f.node
        if hit and miss is not None and (f.short(), nm) not in IDLE:
            rep.find("P06.path", f"{f.short()}({nm})", f.where(miss), f"{f.short()} ignores `{nm}` on the way to this result, and uses it on other ways")


# ---- falsy ----------------------------------------------------------------------------------------


def kind_of(p):
    """'flag' for parameters that are only ever true or false, else 'value'."""
    a = ast.unparse(p.annotation) if p.annotation is not None else ""
    parts = [x.strip() for x in a.replace("Optional[", "").replace("]", "").split("|")]
    if parts == ["bool"] or (isinstance(p.default, ast.Constant) and isinstance(p.default.value, bool) and not a):
        return "flag"
    if a == "" and p.default is None:
        return "flag"
    return "value"


def falsy(prog, rep, f):
    ps = {p.name: p for p in f.params if p.kind in ("pos", "kwonly")}
    stores = {}
    for n in own(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            stores.setdefault(n.id, []).append(n)
    # plain aliases of a parameter
    alias = {}
    for n in own(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Name) and n.value.id in ps and len(stores.get(n.targets[0].id, ())) == 1 and n.value.id not in stores:
            alias[n.targets[0].id] = n.value.id

    def par(e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            e = e.args[0]
        if isinstance(e, ast.Name):
            nm = alias.get(e.id, e.id)
            return ps.get(nm)
        return None

    def truthy(test):
        """(param, polarity) when a test is the bare truth of a parameter."""
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            neg = not neg
            test = test.operand
        p = par(test)
        return (p, not neg) if p is not None else (None, None)

    def report(p, n, instead):
        rep.find("P06.falsy", f"{f.short()}({p.name})", f.where(n), f"{f.short()} treats a `{p.name}` that is zero, False or empty as if it were left out and uses {instead} instead")

    for n in own(f.node):
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and len(n.values) == 2:
            p = par(n.values[0])
            if p is not None and kind_of(p) == "value" and p.name not in NEUTRAL:
                rep.ob("P06.falsy", f"{f.short()}({p.name})")
                if not empty(n.values[1]) and not textual(p, n.values[1]):
                    report(p, n, f"`{ast.unparse(n.values[1])}`")
        elif isinstance(n, ast.IfExp):
            p, pol = truthy(n.test)
            if p is not None and kind_of(p) == "value" and p.name not in NEUTRAL:
                rep.ob("P06.falsy", f"{f.short()}({p.name})")
                used, other = (n.body, n.orelse) if pol else (n.orelse, n.body)
                if p.name in names_in(used) and not empty(other) and not textual(p, other) and not (isinstance(other, ast.Name) and other.id == p.name):
                    report(p, n, f"`{ast.unparse(other)}`")
        elif isinstance(n, ast.If):
            p, pol = truthy(n.test)
            if p is not None and kind_of(p) == "value" and p.name not in NEUTRAL and optional(p):
                rep.ob("P06.falsy", f"{f.short()}({p.name})")
                neg = n.orelse if pol else n.body
                pos = n.body if pol else n.orelse
                for s in neg:
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == p.name and not empty(s.value) and not textual(p, s.value):
                        report(p, n, f"`{ast.unparse(s.value)}`")
                if numeric(p) and any(p.name in names_in(s) for s in pos):
                    report(p, n, "nothing")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            p = par(n.left)
            if p is not None and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
                rep.ob("P06.falsy", f"{f.short()}({p.name})")


def optional(p):
    a = ast.unparse(p.annotation) if p.annotation is not None else ""
    return (isinstance(p.default, ast.Constant) and p.default.value is None) or "None" in a or "Optional" in a


def numeric(p):
    a = ast.unparse(p.annotation) if p.annotation is not None else ""
    return any(w in a for w in ("int", "float", "complex", "Real", "Complex", "Tensor", "Array", "Vector", "Matrix", "ndarray"))


def textual(p, other):
    """Texts: an empty one names nothing."""
    a = ast.unparse(p.annotation) if p.annotation is not None else ""
    return isinstance(other, ast.JoinedStr) or (isinstance(other, ast.Constant) and isinstance(other.value, str)) or a.replace(" ", "") in ("str", "str|None", "Optional[str]", "None|str")


def empty(e):
    s = ast.unparse(e)
    if s in EMPTY or s in ("None", "''"):
        return True
    # an object made of nothing but empty containers
    return isinstance(e, ast.Call) and (e.args or e.keywords) and isinstance(e.func, ast.Name) and all(empty(a) for a in e.args) and all(empty(k.value) for k in e.keywords)


# ---- calls ----------------------------------------------------------------------------------------


def signature(calls, f, n):
    """(callee, parameters the call fills) or None."""
    r = calls.resolve(f, n.func)
    if isinstance(r, Class):
        if not r.mro or any(isinstance(b, str) and b not in ("object", "ABC", "abc.ABC") for c in r.mro for b in c.bases):
            # a base outside the library may define the constructor
            own_init = r.lookup("__init__")[0]
            if not isinstance(own_init, Func):
                return None
        r = r.lookup("__init__")[0]
        if not isinstance(r, Func):
            return None
        return r, r.params[1:]
    if not isinstance(r, Func) or isinstance(r.node, ast.Lambda):
        return None
    if r.kind in ("property", "setter"):
        return None
    ps = r.params
    if r.kind == "classmethod":
        ps = ps[1:]
    elif r.kind == "method":
        if not isinstance(n.func, ast.Attribute):
            return None
        b = calls.resolve(f, n.func.value)
        if not isinstance(b, Class):
            ps = ps[1:]
    return r, ps


def plain(r):
    """No decorator that changes the signature."""
    ok = ("njit", "jit", "lru_cache", "cache", "staticmethod", "classmethod", "abstractmethod", "property", "wraps", "override", "overload", "custom_vjp", "contextmanager")
    return all(d.split(".")[-1].split("(")[0] in ok or "njit" in d or "jit" in d for d in r.decorators)


def bind(n, ps):
    """{param name: argument}, complete? -- or a message when the call does not fit."""
    pos = [p for p in ps if p.kind == "pos"]
    va = any(p.kind == "vararg" for p in ps)
    kw = any(p.kind == "kwarg" for p in ps)
    given = {}
    star = any(isinstance(a, ast.Starred) for a in n.args)
    dstar = any(k.arg is None for k in n.keywords)
    if star:
        for a, p in zip(n.args, pos):
            if isinstance(a, ast.Starred):
                break
            given[p.name] = a
    else:
        if len(n.args) > len(pos) and not va:
            return given, False, f"takes {len(pos)} positional arguments, {len(n.args)} are given"
        for a, p in zip(n.args, pos):
            given[p.name] = a
    names = {p.name for p in ps if p.kind in ("pos", "kwonly")}
    for k in n.keywords:
        if k.arg is None:
            continue
        if k.arg in names:
            if k.arg in given and not star:
                return given, False, f"gets `{k.arg}` twice"
            given[k.arg] = k.value
        elif not kw:
            return given, False, f"has no parameter `{k.arg}`"
    if not star and not dstar:
        for p in ps:
            if p.kind in ("pos", "kwonly") and p.default is None and p.name not in given:
                return given, False, f"is called without `{p.name}`"
    return given, not star and not dstar, None


def label(e):
    """The role an argument expression names."""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    if isinstance(e, ast.IfExp):
        # a default for a missing argument
        used = {n.id for n in ast.walk(e.test) if isinstance(n, ast.Name)}
        got = {label(x) for x in (e.body, e.orelse)} & used
        return got.pop() if len(got) == 1 else None
    if isinstance(e, ast.BoolOp):
        return label(e.values[0])
    if isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords and (dotted(e.func) or "").split(".")[-1] in CONVERSIONS:
        return label(e.args[0])
    return None


CONVERSIONS = {"asarray", "array", "asnumpy", "astensor", "int", "float", "complex", "bool", "tuple", "list", "set", "frozenset", "sorted"}


def upstream(f, n):
    """Everything the inputs of call `n` are computed from."""
    inf = getattr(f, "_p06_inf", None)
    if inf is None:
        inf = f._p06_inf = Influence(f)
    seen = names_in(n)
    changed = True
    while changed:
        changed = False
        for src, t in inf.flows:
            if t in seen and not src <= seen:
                seen |= src
                changed = True
    return seen


BUILTIN = set(dir(str)) | set(dir(list)) | set(dir(dict)) | set(dir(set)) | set(dir(int)) | set(dir(complex)) | {"conj", "reshape", "sum", "dot", "trace", "transpose", "astype", "sort", "eval"}


def candidates(prog, name):
    """Methods a call on an object of unknown class may reach."""
    c = getattr(prog, "_p06_methods", None)
    if c is None:
        c = prog._p06_methods = {}
        for k in prog.classes.values():
            for m in k.members.values():
                if isinstance(m, Func) and m.kind == "method" and not m.is_abstract():
                    c.setdefault(m.name, []).append(m)
    return c.get(name, [])


def open_call(prog, rep, calls, f, n):
    """A call whose receiver is unknown: every method of that name must agree."""
    if not isinstance(n.func, ast.Attribute) or n.func.attr in BUILTIN or n.func.attr.startswith("__"):
        return
    b = calls.resolve(f, n.func.value)
    if b is not None or any(isinstance(a, ast.Starred) for a in n.args):
        return
    cs = candidates(prog, n.func.attr)
    mine = {p.name for p in f.params} - {"self", "cls"}
    verdicts = []
    for r in cs:
        given, complete, problem = bind(n, r.params[1:])
        if problem:
            continue
        names = [p.name for p in r.params[1:]]
        v = set()
        for nm, a in given.items():
            t = label(a)
            if t is not None and t in names and t != nm and not deliberate(given, nm, t):
                v.add(("P06.role", nm, f"`{t}` is handed on as `{nm}` to {r.name}, which has a parameter `{t}`"))
            if nm in mine and isinstance(a, ast.Constant) and nm not in NEUTRAL and r.name != f.name and nm not in upstream(f, n):
                v.add(("P06.constant", nm, f"{f.short()} takes `{nm}` but hands {ast.unparse(a)} on to {r.name} in its place"))
        if complete:
            for p in r.params[1:]:
                if p.default is not None and p.name in mine and p.name not in NEUTRAL and p.name not in given and not combined(f, n, p.name):
                    v.add(("P06.dropped", p.name, f"{f.short()} takes `{p.name}` but does not hand it on to {r.name}, which takes it too"))
        verdicts.append(v)
    if verdicts:
        rep.ob("P06.role", f"{f.short()}->?.{n.func.attr}")
        for rule, nm, msg in sorted(set.intersection(*verdicts)):
            rep.find(rule, f"{f.short()}->{n.func.attr}({nm})", f.where(n), msg)


def call(prog, rep, calls, f, n):
    got = signature(calls, f, n)
    if got is None:
        open_call(prog, rep, calls, f, n)
        return
    r, ps = got
    if not plain(r):
        return
    given, complete, problem = bind(n, ps)
    key = f"{f.short()}->{r.short()}"
    rep.ob("P06.accepted", key)
    if problem:
        rep.find("P06.accepted", key, f.where(n), f"{r.short()} {problem}")
        return
    names = [p.name for p in ps]
    mine = {p.name for p in f.params}
    for nm, a in given.items():
        t = label(a)
        if t is not None and t in names:
            rep.ob("P06.role", f"{key}({nm})")
            if t != nm and not deliberate(given, nm, t):
                rep.find("P06.role", f"{key}({nm})", f.where(n), f"`{t}` is handed on as `{nm}` to {r.short()}, which has a parameter `{t}`")
        elif crossed(f, r, a, nm, t, mine):
            rep.find("P06.role", f"{key}({nm})", f.where(n), f"{f.short()} has both `{t}` and `{nm}`, and hands `{t}` on as `{nm}` to {r.short()}")
        if nm in mine and nm not in ("self", "cls"):
            rep.ob("P06.constant", f"{key}({nm})")
            if isinstance(a, ast.Constant) and nm not in NEUTRAL and f is not r and (nm not in upstream(f, n) or twin_call(calls, f, n, r, ps, nm)):
                rep.find("P06.constant", f"{key}({nm})", f.where(n), f"{f.short()} takes `{nm}` but hands {ast.unparse(a)} on to {r.short()} in its place")
    if not complete:
        return
    kept = stored(f)
    for p in ps:
        if p.default is not None and p.name in kept and p.name not in mine and p.name not in NEUTRAL:
            rep.ob("P06.dropped", f"{key}({p.name})")
            if p.name not in given:
                rep.find("P06.dropped", f"{key}({p.name})", f.where(n), f"{f.cls.name} is built with `{p.name}`, but {f.short()} does not hand it on to {r.short()}, which takes it too")
        if p.default is None or p.kind not in ("pos", "kwonly") or p.name not in mine or p.name in ("self", "cls") or p.name in NEUTRAL:
            continue
        rep.ob("P06.dropped", f"{key}({p.name})")
        if p.name not in given and not combined(f, n, p.name):
            rep.find("P06.dropped", f"{key}({p.name})", f.where(n), f"{f.short()} takes `{p.name}` but does not hand it on to {r.short()}, which takes it too")


def crossed(f, r, a, nm, t, mine):
    """Does the function have an input named like the parameter, and hand another of its inputs to it?"""
    if t is None or t == nm or r.name in CONVERSIONS:
        return False
    if isinstance(a, ast.Name):
        return nm in mine and t in mine and not {nm, t} & {"self", "cls"}
    kept = stored(f)
    return isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "self" and nm in kept and t.lstrip("_") in kept and t.lstrip("_") != nm


def stored(f):
    """Constructor arguments that the class keeps in a field of the same name, when `f` is a method of it."""
    c = f.cls
    if c is None or f.kind not in ("method", "property") or f.name == "__init__":
        return ()
    got = getattr(c, "_p06_stored", None)
    if got is None:
        got = set()
        ini = c.members.get("__init__")
        if isinstance(ini, Func) and ini.params:
            me = ini.params[0].name
            for n in own(ini.node):
                tg = n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else n.target if isinstance(n, ast.AnnAssign) and n.value is not None else None
                if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == me:
                    used = names_in(n.value)
                    got |= {p.name for p in ini.params[1:] if p.name in used and tg.attr.lstrip("_") == p.name}
        c._p06_stored = got
    return got


def twin_call(calls, f, n, r, ps, nm):
    """Another call of the same function in `f` hands the argument on to its own parameter."""
    for m in own(f.node):
        if isinstance(m, ast.Call) and m is not n and ast.dump(m.func) == ast.dump(n.func):
            given, _, problem = bind(m, ps)
            if not problem and nm in given and label(given[nm]) == nm:
                return True
    return False


def deliberate(given, nm, t):
    """The argument of that name is given to its own parameter as well."""
    return label(given[t]) == t if t in given else False


def combined(f, n, name):
    """Is the result of call `n` combined with the parameter on the spot (so it is honoured there)?"""
    for s in own(f.node):
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr, ast.AnnAssign)) and any(x is n for x in ast.walk(s)):
            inside = {id(x) for x in ast.walk(n)}
            if any(isinstance(x, ast.Name) and x.id == name and id(x) not in inside for x in ast.walk(s)):
                return True
            tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) else []
            for t in tg:
                r = root(t) if isinstance(t, ast.Subscript) else None
                if r is None:
                    continue
                for y in own(f.node):
                    if isinstance(y, (ast.Assign, ast.AnnAssign)) and y.value is not None and y is not s:
                        for z in y.targets if isinstance(y, ast.Assign) else [y.target]:
                            if any(isinstance(w, ast.Name) and w.id == r for w in targets(z)) and name in names_in(y.value):
                                return True
    return False
