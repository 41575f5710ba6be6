"""P05 -- randomness comes from settings.rng or from the seed that was passed, and from nothing else."""

from ..absint import E as NODEPS, unwrapc
from .common import *
from .p04 import external, kind_of, local_names

SEED_NAMES = {"seed", "rng", "random_state", "random_seed"}
LEGACY = {
    "rand", "randn", "randint", "random", "random_sample", "ranf", "sample", "choice", "shuffle", "permutation", "normal",
    "uniform", "standard_normal", "poisson", "binomial", "beta", "gamma", "exponential", "multinomial",
    "multivariate_normal", "bytes", "integers", "random_integers", "RandomState", "get_state", "geometric",
    "laplace", "logistic", "lognormal", "vonmises", "dirichlet", "triangular", "chisquare", "standard_exponential",
}
OTHER_SOURCES = {"os.urandom"}


def source_kind(full, call):
    """Why a call to the external `full` is a source of randomness outside our control, or None."""
    if full is None:
        return None
    if full.startswith("random."):
        if full == "random.Random" and call.args:
            return None
        return f"`{full}` draws from the global generator of the standard library"
    if full.startswith(("secrets.",)) or full in OTHER_SOURCES:
        return f"`{full}` cannot be seeded"
    if full.startswith("numpy.random."):
        last = full.split(".")[-1]
        if last in LEGACY:
            return f"`{full}` uses the global numpy state"
        if last in ("default_rng", "SeedSequence", "PCG64", "MT19937", "Philox"):
            a = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg in ("seed", "entropy")), None)
            if a is None or (isinstance(a, ast.Constant) and a.value is None):
                return f"`{full}()` without a seed is different in every run"
    if full.startswith("scipy.") and full.endswith(".rvs"):
        a = next((k.value for k in call.keywords if k.arg in ("random_state", None)), None)
        if a is None or (isinstance(a, ast.Constant) and a.value is None):
            return f"`{full}` without random_state uses the global numpy state"
    return None


def check(prog, rep):
    rep.rule("P05.source", "no library code draws from a generator that settings.SEED or a seed argument does not control", 40)
    rep.rule("P05.seeded", "with an explicit seed (zero included) every generator in use is built from it, in callees too", 4)
    rep.rule("P05.default", "without a seed every draw advances settings.rng", 4)
    rep.rule("P05.capture", "settings.rng is read when it is used, never stored or captured at import time", 3)
    rep.rule("P05.cache", "cached functions draw no random numbers", 2)
    rep.rule("P05.reseed", "assigning SEED restarts settings.rng from that seed", 1)
    check_sources(prog, rep)
    check_capture(prog, rep)
    check_seeds(prog, rep)
    check_cached(prog, rep)
    check_reseed(prog, rep)
    check_derived(prog, rep)


def is_label(prog, f, call, parents):
    """The number only labels an object (an ``id``): its value is never used."""
    n = call
    while n in parents:
        p = parents[n]
        if isinstance(p, ast.keyword) and p.arg == "id":
            return True
        if isinstance(p, (ast.AnnAssign, ast.Assign)):
            tg = [p.target] if isinstance(p, ast.AnnAssign) else p.targets
            return all((isinstance(t, ast.Name) and t.id == "id") or (isinstance(t, ast.Attribute) and t.attr in ("id", "_id")) for t in tg)
        if isinstance(p, ast.stmt):
            return False
        n = p
    return False


def check_sources(prog, rep):
    scls = prog.cls("Settings")
    seen_calls = 0
    for m in prog.modules.values():
        parents = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                parents[c] = n
        owner = {}
        for f in m.all_funcs:
            for n in own(f.node):
                owner[n] = f
        rep.ob("P05.source", m.name)
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            f = owner.get(n)
            d = dotted(n.func)
            if d is None:
                continue
            if f is not None:
                if f.cls is scls:
                    continue
                full = external(prog, f, n.func)
                if full is None:
                    full = local_import(f, d)
            else:
                r = prog.resolve_expr(m, n.func)
                full = r[1] if isinstance(r, tuple) and r and r[0] == "ext" else None
                if in_class(parents, n, scls.node):
                    continue
            why = source_kind(full, n)
            if why and not is_label(prog, f, n, parents):
                where = f.short() if f is not None else m.name
                rep.find("P05.source", f"{where}:{full}", f"{m.relpath}:{n.lineno} ({where})", f"{why}: results cannot be reproduced from settings.SEED")


def in_class(parents, n, cnode):
    while n in parents:
        n = parents[n]
        if n is cnode:
            return True
    return False


def local_import(f, d):
    """Full name of a dotted call when its head is imported inside the function."""
    head, _, rest = d.partition(".")
    for n in ast.walk(f.node):
        if isinstance(n, ast.Import):
            for a in n.names:
                if (a.asname or a.name.split(".")[0]) == head:
                    return (a.name if a.asname else head) + ("." + rest if rest else "")
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                if (a.asname or a.name) == head:
                    return n.module + "." + a.name + ("." + rest if rest else "")
    return None


def rng_read(prog, f, module, n):
    if isinstance(n, ast.Attribute) and n.attr == "rng" and isinstance(n.ctx, ast.Load):
        from .p04 import singleton_kind

        return (kind_of(prog, f, n.value) if f is not None else singleton_kind(prog, module, n.value)) == "settings"
    return False


def check_capture(prog, rep):
    scls = prog.cls("Settings")
    for m in prog.modules.values():
        infunc = set()
        for f in m.all_funcs:
            for n in own(f.node):
                infunc.add(n)
            defaults = set()
            if not isinstance(f.node, ast.Lambda):
                a = f.node.args
                for dflt in [*a.defaults, *[x for x in a.kw_defaults if x is not None]]:
                    defaults |= set(ast.walk(dflt))
                body = set()
                for s in f.node.body:
                    body |= set(ast.walk(s))
            else:
                body = set(ast.walk(f.node.body))
            for n in own(f.node):
                if rng_read(prog, f, m, n):
                    rep.ob("P05.capture", f.short())
                    if n in defaults:
                        rep.find("P05.capture", f.short(), f.where(n), "settings.rng is a default argument: it is the generator of import time, not the one of the current seed")
            if f.cls is scls:
                continue
            for n in own(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                    if any(isinstance(t, ast.Attribute) for t in tg) and rng_value(prog, f, m, n.value):
                        rep.find("P05.capture", f.short(), f.where(n), f"stores settings.rng in `{ast.unparse(tg[0])}`: it is not replaced when settings.SEED changes")
                if isinstance(n, ast.Global):
                    pass
        for n in ast.walk(m.tree):
            if n in infunc:
                continue
            if rng_read(prog, None, m, n):
                rep.find("P05.capture", m.name, f"{m.relpath}:{n.lineno}", "settings.rng is read when the module is imported: it is not replaced when settings.SEED changes")


def rng_value(prog, f, m, e):
    """The expression may be the generator object itself."""
    if rng_read(prog, f, m, e):
        return True
    if isinstance(e, ast.IfExp):
        return rng_value(prog, f, m, e.body) or rng_value(prog, f, m, e.orelse)
    if isinstance(e, ast.BoolOp):
        return any(rng_value(prog, f, m, x) for x in e.values)
    return False


def from_rng(deps):
    return any(d.endswith("ettings.rng") for d in deps)


class Watch:
    """Records the generators made and used during one abstract run."""

    def __init__(self, prog, seed_deps):
        self.prog = prog
        self.settings = prog.cls("Settings")
        self.seed = seed_deps
        self.built = []  # (call node, frame func, has seed dep, may be None)
        self.reads = []
        self.dropped = []
        self.used = False

    def on_call(self, f, o, args, kwargs, extra, node, frame, st):
        if f is None:
            return None
        if frame.func.cls is self.settings:
            return None
        if f.kind == "bm" and isinstance(f.b, V) and from_rng(f.b.deps):
            self.reads.append((node, frame.func))
        if f.kind == "ext":
            name = f.a
            last = name.split(".")[-1]
            if name.startswith("numpy.random.") and last in ("default_rng", "RandomState", "SeedSequence", "Generator"):
                a = args[0] if args else kwargs.get("seed")
                deps = self.it.deep(a, st) if a is not None else NODEPS
                deps |= a.ctl if a is not None else NODEPS
                if last in ("default_rng", "Generator") and from_rng(deps):
                    return None  # a generator passes through
                has = bool(deps & self.seed)
                self.built.append((node, frame.func, has, a is None or (not a.top and any(unwrapc(c) is None for c in a.consts))))
                self.used |= has
                v = self.it.new(st, "array", node, deps=deps)
                return V(deps, NODEPS, v.refs)
            if last == "rvs" and "random_state" in kwargs:
                a = kwargs["random_state"]
                if self.it.deep(a, st) & self.seed:
                    self.used = True
                if from_rng(self.it.deep(a, st)):
                    self.reads.append((node, frame.func))
        elif f.kind == "func" and isinstance(f.a, Func) and self.seed:
            names = [p.name for p in f.a.params]
            want = [n for n in names if n in SEED_NAMES]
            if want:
                pos = names[1:] if (f.a.cls is not None and f.a.kind in ("method", "classmethod", "property")) else names
                got = None
                for w in want:
                    if w in kwargs:
                        got = kwargs[w]
                    elif w in pos and pos.index(w) < len(args):
                        got = args[pos.index(w)]
                if extra is not None or "**" in kwargs:
                    return None
                if got is None or not (self.it.deep(got, st) & self.seed):
                    self.dropped.append((node, frame.func, f.a))
                else:
                    self.used = True
        return None


def seeded_roots(prog):
    for f in prog.funcs:
        if f.outer is not None or isinstance(f.node, ast.Lambda) or is_stub(f):
            continue
        for p in f.params:
            if p.name in SEED_NAMES:
                yield f, p


def random_names(prog):
    """Names of functions (and classes, through their constructors) from which a draw may be reachable."""
    names = {}
    calls = {}
    scls = prog.cls("Settings")
    for f in prog.funcs:
        if isinstance(f.node, ast.Lambda) or f.cls is scls:
            continue
        used = set()
        hit = any(p.name in SEED_NAMES for p in f.params)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                d = n.func
                nm = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else None
                if nm:
                    used.add(nm)
                    hit |= nm in ("default_rng", "rvs", "RandomState")
            elif isinstance(n, ast.Attribute):
                used.add("." + n.attr)
                hit |= rng_read(prog, f, f.module, n)
        nm = f.cls.name if f.name == "__init__" and f.cls is not None else f.name
        if f.kind == "property":
            nm = "." + nm
        names[nm] = names.get(nm, False) or hit
        calls.setdefault(nm, set()).update(used)
    hot = {n for n, h in names.items() if h}
    while True:
        more = {n for n in names if n not in hot and calls[n] & hot}
        if not more:
            return hot
        hot |= more


def check_seeds(prog, rep):
    hot = random_names(prog)

    def cold(f):
        nm = f.cls.name if f.name == "__init__" and f.cls is not None else f.name
        return ("." + nm if f.kind == "property" else nm) not in hot

    for f, p in seeded_roots(prog):
        classes = [None]
        if f.cls is not None:
            classes = [c for c in prog.subclasses(f.cls, strict=False) if c.lookup(f.name)[0] is f] or [f.cls]
        for c in classes[:4]:
            who = f"{c.name}.{f.name}" if c is not None else f.short()
            for val in (0, 7):
                w = Watch(prog, frozenset(["#seed"]))
                it = Interp(prog, on_call=w.on_call, no_inline=cold)
                w.it = it
                rv, _ = run_safe(rep, it, f, self_cls=c, overrides={p.name: const(val, deps=frozenset(["#seed"]))})
                if val == 0:
                    rep.ob("P05.seeded", who)
                for node, g in w.reads:
                    rep.find("P05.seeded", f"{f.short()}:{g.short()}", g.where(node), f"draws from settings.rng although {who} was called with {p.name}={val}")
                for node, g, has, none in w.built:
                    if not has:
                        rep.find("P05.seeded", f"{f.short()}:{g.short()}", g.where(node), f"the generator is not built from the {p.name} passed to {who}")
                for node, g, callee in w.dropped:
                    rep.find("P05.seeded", f"{f.short()}:{g.short()}->{callee.short()}", g.where(node), f"{callee.short()} is called without the {p.name} passed to {who}: its draws do not follow it")
                if rv is not None and not w.used and not w.dropped and not w.reads:
                    rep.find("P05.seeded", f"{f.short()}:unused", f.where(), f"{who} ignores its argument `{p.name}`")
            if p.default is None and not any(isinstance(d, ast.Constant) for d in [p.default]):
                continue
            w = Watch(prog, NODEPS)
            it = Interp(prog, on_call=w.on_call, no_inline=cold)
            w.it = it
            run_safe(rep, it, f, self_cls=c, overrides={p.name: const(None)})
            rep.ob("P05.default", who)
            for node, g, _, none in w.built:
                rep.find("P05.default", f"{f.short()}:{g.short()}", g.where(node), (f"without {p.name} the generator is unseeded" if none else f"without {p.name} a new generator is built at each call") + ": draws do not advance settings.rng")


DRAWN_FROM = ("default_rng", "rvs", "RandomState", "SeedSequence", "Generator", "PRNGKey", "key", "PCG64", "MT19937", "Philox", "seed")


def check_derived(prog, rep):
    """Generators made from settings.rng or settings.SEED instead of drawing from settings.rng."""
    scls = prog.cls("Settings")
    for f in prog.funcs:
        if f.cls is scls or isinstance(f.node, ast.Lambda):
            continue
        draws = False
        reads = []
        for n in own(f.node):
            if isinstance(n, ast.Call):
                last = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
                full = external(prog, f, n.func) or ""
                draws |= last in DRAWN_FROM or any(k.arg in SEED_NAMES for k in n.keywords)
                if full in ("copy.copy", "copy.deepcopy") and n.args and rng_value(prog, f, f.module, n.args[0]):
                    rep.find("P05.default", f"{f.short()}:copy", f.where(n), "draws from a copy of settings.rng: settings.rng does not advance")
                if last in ("spawn", "__copy__", "__deepcopy__") and isinstance(n.func, ast.Attribute) and rng_value(prog, f, f.module, n.func.value):
                    rep.find("P05.default", f"{f.short()}:{last}", f.where(n), "draws from a generator made from settings.rng: settings.rng does not advance")
            if isinstance(n, ast.Attribute) and n.attr == "SEED" and isinstance(n.ctx, ast.Load) and kind_of(prog, f, n.value) == "settings":
                reads.append(n)
        rep.ob("P05.default", f"{f.short()}:derived") if draws else None
        if draws:
            for n in reads:
                rep.find("P05.default", f"{f.short()}:SEED", f.where(n), "draws restart from settings.SEED at each call: settings.rng does not advance")


def check_cached(prog, rep):
    from ..absint import is_cached

    for f in prog.funcs:
        if isinstance(f.node, ast.Lambda) or not is_cached(f):
            continue
        w = Watch(prog, NODEPS)
        it = Interp(prog, on_call=w.on_call)
        w.it = it
        run_safe(rep, it, f, self_cls=f.cls)
        rep.ob("P05.cache", f.short())
        for node, g in w.reads:
            rep.find("P05.cache", f.short(), g.where(node), f"{f.short()} is cached but draws random numbers: later calls repeat the first draw")


def check_reseed(prog, rep):
    c = prog.cls("Settings")
    setter = c.lookup_setter("SEED")
    getter = c.lookup("SEED")[0]
    if not isinstance(setter, Func) or not isinstance(getter, Func):
        raise AnalysisBroken("Settings.SEED is no property")
    rep.ob("P05.reseed", "Settings.SEED")
    st = State({}, {}, NODEPS)
    it = Interp(prog)
    got = construct(rep, prog, c, it)
    if got is None:
        return
    it, me, st, _ = got
    st = State({}, dict(st.heap), NODEPS)
    mark = V(deps=frozenset(["#seed"]), top=True)
    ps = [p.name for p in setter.params]
    r = next(iter(me.refs))
    o = st.heap[r].copy()
    o.fields["rng"] = V(deps=frozenset(["#old"]), top=True)
    st.heap[r] = o
    _, st = it.exec_func(setter, {ps[0]: me, ps[1]: mark}, st, selfv=me)
    rng = st.heap[r].fields.get("rng")
    if rng is not None and "#old" in it.deep(rng, st) | rng.deps:
        rep.find("P05.reseed", "kept", setter.where(), "assigning SEED may keep the generator as it is: later draws do not restart from the seed")
    if rng is None or "#seed" not in it.deep(rng, st) | rng.deps:
        rep.find("P05.reseed", "rng", setter.where(), "assigning SEED does not restart settings.rng from the new seed")
    rv, _ = it.exec_func(getter, {getter.params[0].name: me}, State({}, dict(st.heap), NODEPS), selfv=me)
    if rv is None or "#seed" not in it.deep(rv, st) | rv.deps:
        rep.find("P05.reseed", "SEED", getter.where(), "settings.SEED does not return the seed that was assigned")
