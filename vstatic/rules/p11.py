"""P11 -- everything between the parameters and the cost can be traced by JAX."""

import re

from ..calls import Calls
from .common import *

T, X, M, N = frozenset("T"), frozenset("X"), frozenset("TM"), frozenset()
# an array that may be traced, a container of such arrays, a boolean array (its truth is not known either), anything else

ARRAYS = {"Batch", "Vector", "Matrix", "Tensor", "Scalar", "ArrayLike", "Array", "jnp.ndarray", "jax.Array"}
NUMBERS = {"float", "complex"}
OPEN = ARRAYS | NUMBERS | {"Any", "Callable", "object", "Parameter", "Variable", "Constant", "Sequence", "Iterable", "Iterator", "Generator", "dict"}
SCOPE = ("mrmustard.lab", "mrmustard.physics", "mrmustard.math.parameters", "mrmustard.math.parameter_set", "mrmustard.math.backend_jax", "mrmustard.math.jax_vjps", "mrmustard.math.caching", "mrmustard.training")
OUT = ("mrmustard.lab.samplers", "mrmustard.physics.wigner_discretized")
# what is evaluated eagerly: predicates, comparison, printing, drawing, saving, sampling, decompositions that look at ranks
EAGER = re.compile(
    r"^(is_.*|_is_.*|__eq__|__ne__|__hash__|__repr__|__str__|__format__|_repr.*|visualize.*|draw.*|plot.*|to_dict|from_dict|_?serialize.*|_?deserialize.*|sample.*|random.*|_?simplify.*"
    r"|physical_stellar_decomposition.*|wigner_discretized|_wigner_discretized.*|optimize.*|minimize|_optimization_loop|make_step|should_stop|to_string|_?format_.*|_tree_.*flatten|asnumpy|istraced|get_all_subclasses)$"
)
STATIC = {"shape", "ndim", "dtype", "size", "ansatz", "wires", "parameters", "name", "manual_shape", "weak_type", "aval"}
STATIC_RE = re.compile(r"^(.*_shape|.*_?shapes|n_.*|num_.*|.*dims?|.*_id|_?lin_sup|modes?|.*_modes|indices|.*bounds|update_fn|.*_fn|.*name)$")
# what numpy may be asked about a traced array
ASK = {"shape", "ndim", "size", "issubdtype", "result_type", "iscomplexobj", "isrealobj", "isscalar", "broadcast_shapes", "dtype", "errstate"}
# names of arguments that shape the computation, and their places in the functions of jax.numpy
KNOBS = {"axis", "axes", "shape", "dtype", "k", "offset", "axis1", "axis2", "perm", "num", "size", "length", "ndmin", "n", "N", "old", "new", "repeats", "reps", "cutoff", "cutoffs", "source", "destination", "static_argnums", "num_modes", "m_modes", "start", "limit", "stop", "delta", "ord", "total_repeat_length", "max_l2", "global_cutoff", "output_cutoff", "pnr_cutoffs", "method", "stable", "tol", "string"}
PLACES = {
    "reshape": (1,), "zeros": (0,), "ones": (0,), "eye": (0,), "arange": (0, 1, 2), "expand_dims": (1,), "swapaxes": (1, 2), "transpose": (1,), "broadcast_to": (1,), "concatenate": (1,),
    "stack": (1,), "moveaxis": (1, 2), "tile": (1,), "linspace": (2,), "repeat": (1,), "sum": (1,), "prod": (1,), "sort": (1,), "full": (0,), "tensordot": (2,), "identity": (0,), "einsum": (0,),
}
DATA_SHAPED = {"nonzero", "argwhere", "flatnonzero", "unique", "extract", "compress", "union1d", "setdiff1d", "intersect1d", "delete"}
REDUCE = {"any", "all", "sum", "prod", "max", "min", "norm", "argmax", "argmin"}


def check(prog, rep):
    rep.rule("P11.value", "no branch, loop bound, index of a list or Python number depends on the value of an array", 350)
    rep.rule("P11.leave", "what is computed from parameters and arrays stays in the backend and keeps its gradient", 450)
    rep.rule("P11.shape", "no shape, axis or static argument depends on the value of an array", 350)
    rep.rule("P11.once", "kernels are compiled for the process, not by a function for each trace or call", 100)
    once(prog, rep)
    a = Flow(prog, rep)
    a.solve()
    a.report()


KERNELS = {"njit", "vectorize", "guvectorize", "generated_jit", "stencil", "cfunc"}


def once(prog, rep):
    """A kernel compiled within a function is compiled, and kept by its callback, again for each shape that is traced."""
    for f in prog.funcs:
        if f.outer is not None or isinstance(f.node, ast.Lambda):
            continue
        rep.ob("P11.once", f.qualname)
        if any("cache" in ast.unparse(d) for d in f.node.decorator_list) or any(isinstance(n, ast.Global) for n in own(f.node)):
            continue  # remembered
        for st in f.node.body:
            for n in ast.walk(st):
                fn = n.func if isinstance(n, ast.Call) else None
                made = [fn] if fn is not None else list(n.decorator_list) if isinstance(n, ast.FunctionDef) else []
                for d in made:
                    r = prog.resolve_expr(f.module, d) if isinstance(d, (ast.Name, ast.Attribute)) else None
                    nm = r[1] if isinstance(r, tuple) and r[0] == "ext" else ""
                    if nm.split(".")[0] == "numba" and nm.split(".")[-1] in KERNELS:
                        rep.find("P11.once", f"{f.qualname}:{nm}", f"{f.file}:{n.lineno} ({f.name})", f"`{ast.unparse(d)}` compiles a kernel within `{f.name}`: each trace compiles, and keeps, another one")


def flat(k):
    if isinstance(k, tuple):
        return X if any(flat(x) for x in k) else N
    return k


def join(a, b):
    if a is None or b is None:
        return a if b is None else b
    if a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(join(x, y) for x, y in zip(a, b))
    return flat(a) | flat(b)


def elem(k):
    if isinstance(k, tuple):
        r = None
        for x in k:
            r = join(r, x)
        return r if r is not None else N
    return k | T if k else N


def traced(k):
    return not isinstance(k, tuple) and "T" in k


def words(a):
    return set(re.findall(r"[A-Za-z_][\w.]*", ast.unparse(a))) if a is not None else set()


def fixed(a):
    """Does an annotation say that this is no array?"""
    w = words(a)
    if not w:
        return False
    if not w & OPEN:
        return True
    return w <= {"Sequence", "Iterable", "dict", "int", "tuple", "None", "str", "bool", "list", "set", "Collection"}


class Flow:
    def __init__(self, prog, rep):
        self.prog, self.rep, self.calls = prog, rep, Calls(prog)
        self.par, self.ret, self.field, self.found, self.seen = {}, {}, {}, {}, {}
        self.meth, self.prop, self.lam, self._wrap = {}, {}, {}, {}
        for c in prog.classes.values():
            for d in c if isinstance(c, list) else [c]:
                if d.module.name.startswith(("mrmustard.math.backend", "mrmustard.widgets", "mrmustard.utils")):
                    continue
                for n, m in d.members.items():
                    if isinstance(m, Func):
                        (self.prop if m.kind == "property" else self.meth).setdefault(n, []).append(m)
        self.funcs = [
            f
            for f in prog.funcs
            if f.outer is None and not isinstance(f.node, ast.Lambda) and any(f.module.name == s or f.module.name.startswith(s + ".") for s in SCOPE) and not f.module.name.startswith(OUT)
        ]
        for f in prog.funcs:
            if isinstance(f.node, ast.Lambda):
                self.lam[f.node] = f
        self.jax = prog.maybe_cls("BackendJax")
        if self.jax is None:
            raise AnalysisBroken("class BackendJax not found")
        self.eager = self._eager()
        self.const = self._constants()

    def _eager(self):
        """Functions that are evaluated eagerly, and helpers that only those call."""
        out = {f for f in self.prog.funcs if EAGER.match(f.name)}
        callers = {}
        for f in self.prog.funcs:
            if isinstance(f.node, ast.Lambda) or f.outer is not None:
                continue
            for n in ast.walk(f.node):
                nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                if nm is not None:
                    callers.setdefault(nm, set()).add(f)
        while True:
            more = {f for f in self.prog.funcs if f not in out and not isinstance(f.node, ast.Lambda) and f.outer is None and f.name.startswith("_") and not f.name.startswith("__") and (c := callers.get(f.name, set()) - {f}) and c <= out}
            if not more:
                return out
            out |= more

    def _constants(self):
        """{class: parameters that are never trained}: they keep their values within a trace."""
        out = {}
        for f in self.funcs:
            if f.name == "__init__" and f.cls is not None:
                for n in own(f.node):
                    if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] == "make_parameter" and len(n.args) > 2:
                        t, nm = n.args[0], n.args[2]
                        if isinstance(t, ast.Constant) and t.value is False and isinstance(nm, ast.Constant):
                            out.setdefault(f.cls, set()).add(nm.value)
        return out

    def solve(self):
        for f in self.funcs:
            self.seed(f)
        for _ in range(12):
            self.changed = False
            self.found, self.seen = {}, {}
            for f in self.funcs:
                Walk(self, f).go()
            if not self.changed:
                break

    def statics(self, f):
        """Names of the static arguments of a jitted function."""
        out = set()
        for _, d in self.calls.decorators(f):
            if isinstance(d, ast.Call):
                for k in d.keywords:
                    if k.arg in ("static_argnames", "static_argnums", "nondiff_argnums"):
                        for c in ast.walk(k.value):
                            if isinstance(c, ast.Constant) and isinstance(c.value, str):
                                out.add(c.value)
                            elif isinstance(c, ast.Constant) and isinstance(c.value, int) and c.value < len(f.params):
                                out.add(f.params[c.value].name)
        return out

    def seed(self, f):
        jit = self.calls.is_jit(f)
        st = self.statics(f) if jit else ()
        ctor = f.name == "__init__" and f.cls is not None and f.module.name.startswith("mrmustard.lab.")
        for i, p in enumerate(f.params):
            w = words(p.annotation)
            if jit:
                # whatever is not static is traced
                if p.name not in st and not (i == 0 and f.cls is not None and f.kind == "method"):
                    self.given(f, p.name, X if p.kind == "vararg" else T, True)
            elif w & ARRAYS:
                if any(self.prog.maybe_cls(x) is not None for x in w - ARRAYS):
                    self.given(f, p.name, frozenset("TO"))  # an array or one of our own objects
                    continue
                self.given(f, p.name, X if ast.unparse(p.annotation).startswith(("Sequence", "list", "tuple", "Iterable")) else T)
            elif ctor and p.name in self.const.get(f.cls, ()):
                pass
            elif w & NUMBERS and (ctor or f.module.name == "mrmustard.physics.triples"):
                self.given(f, p.name, T)

    def given(self, f, n, k, force=False):
        if not force:
            p = next((p for p in f.params if p.name == n), None)
            if p is None or fixed(p.annotation) or (self.calls.is_jit(f) and n in self.statics(f)):
                return
        o = self.par.get((f, n))
        j = join(o, k)
        if j != o:
            self.par[f, n] = j
            self.changed = True

    def gives(self, f, k):
        r = getattr(f.node, "returns", None)
        if r is not None and fixed(r) and "bool" not in words(r):
            return
        o = self.ret.get(f)
        j = join(o, k)
        if j != o:
            self.ret[f] = j
            self.changed = True

    def result(self, f):
        """What `f`, or whatever overrides it, gives back."""
        k = self.ret.get(f, N)
        if f.cls is not None:
            for g in (self.prop if f.kind == "property" else self.meth).get(f.name, ()):
                if g is not f and g.cls is not None and f.cls in g.cls.mro:
                    k = join(k, self.ret.get(g, N))
        return k

    def wrappers(self, f):
        """The functions that decorators of the library put in the place of `f`."""
        if f not in self._wrap:
            out = []
            for d in getattr(f.node, "decorator_list", ()):
                r = self.calls.resolve(f, d)
                if isinstance(r, Func) and not isinstance(r.node, ast.Lambda):
                    for x in r.node.body:
                        if isinstance(x, ast.Return) and isinstance(x.value, ast.Name):
                            out += [g for g in self.prog.funcs if g.outer is r and g.name == x.value.id]
            self._wrap[f] = out
        return self._wrap[f]

    def holds(self, n, k):
        if n in STATIC or STATIC_RE.match(n) or not flat(k):
            return
        o = self.field.get(n)
        j = join(o, k)
        if j != o:
            self.field[n] = j
            self.changed = True

    def report(self):
        for (f, rule), n in self.seen.items():
            if f not in self.eager:
                for i in range(n):
                    self.rep.ob(rule, f"{f.short()}#{i}")
        for (f, rule, what, txt), node in sorted(self.found.items(), key=lambda z: (z[0][0].file, z[0][1], z[0][2], z[0][3])):
            if f not in self.eager and not self.inside_eager(f):
                self.rep.find(rule, f"{f.short()}:{what}:{txt}", f.where(node), f"{what}, which may be traced: `{txt}`")

    def inside_eager(self, f):
        while f.outer is not None:
            f = f.outer
            if f in self.eager:
                return True
        return False


class Walk:
    """One function, statement by statement: which names hold arrays that may be traced."""

    def __init__(self, a, f, env=None, host=False):
        self.a, self.f, self.env = a, f, dict(env or {})
        self.quiet = host
        self.buffers = set()
        for p in f.params:
            k = a.par.get((f, p.name), N)
            self.env[p.name] = (X if k else N) if p.kind in ("vararg", "kwarg") else k
        top = f
        while top.outer is not None:
            top = top.outer
        self.top = top
        self.eager = top in a.eager

    def go(self):
        n = self.f.node
        if isinstance(n, ast.Lambda):
            k = self.k(n.body)
            self.a.gives(self.f, k)
            return k
        self.block(n.body)
        return self.a.ret.get(self.f, N)

    def saw(self, rule):
        if not self.quiet:
            self.a.seen[self.top, rule] = self.a.seen.get((self.top, rule), 0) + 1

    def sink(self, rule, n, what):
        if not self.quiet:
            self.a.found.setdefault((self.top, rule, what, ast.unparse(n)[:90]), n)

    # ---- statements --------------------------------------------------------------------------

    def block(self, b):
        """Run statements; True when the end is not reached."""
        for x in b:
            if self.stmt(x):
                return True
        return False

    def test(self, e, what):
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                self.test(v, what)
            return
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            self.test(e.operand, what)
            return
        k = self.k(e)
        self.saw("P11.value")
        if traced(k):
            self.sink("P11.value", e, f"the {what} looks at an array's value")

    def guards(self, t):
        """(body, orelse) reached with traced arrays? And names that are plain in the body / the rest."""
        body, other, plain_b, plain_o = True, True, set(), set()
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            b, o, pb, po = self.guards(t.operand)
            return o, b, po, pb
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            for v in t.values:
                b, _, pb, _ = self.guards(v)
                body = body and b
                plain_b |= pb
            return body, True, plain_b, set()
        if isinstance(t, ast.BoolOp):
            for v in t.values:
                _, o, _, po = self.guards(v)
                other = other and o
                plain_o |= po
            return True, other, set(), plain_o
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            s = [ast.unparse(t.left), ast.unparse(t.comparators[0])]
            if any(x.endswith("backend_name") for x in s):
                eq = isinstance(t.ops[0], ast.Eq)
                if "'jax'" in s:
                    return (True, False, set(), set()) if eq else (False, True, set(), set())
                if "'numpy'" in s:
                    return (False, True, set(), set()) if eq else (True, False, set(), set())
            if isinstance(t.ops[0], (ast.Is, ast.IsNot)) and s[1] == "None" and isinstance(t.left, ast.Name):
                return (True, True, {t.left.id}, set()) if isinstance(t.ops[0], ast.Is) else (True, True, set(), {t.left.id})
        if isinstance(t, ast.Call):
            nm = (dotted(t.func) or "").split(".")[-1]
            if nm == "istraced":
                return True, False, set(), set()
            if nm == "any" and "istraced" in ast.unparse(t):
                return True, False, set(), set()
            if nm == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name):
                w = words(t.args[1])
                if w and w <= {"int", "float", "complex", "str", "bool", "Number", "numbers.Number", "np.ndarray", "numbers.Real", "Integral", "np.number", "slice", "type", "None", "numbers.Integral", "numbers.Complex"}:
                    return True, True, {t.args[0].id}, set()
        return True, True, set(), set()

    def branch(self, body, live, plain):
        """Run a branch; its end environment, or None when the end is not reached."""
        old, q = dict(self.env), self.quiet
        for n in plain:
            self.env[n] = N
        if not live:
            self.quiet = True
        done = self.block(body)
        env, self.env, self.quiet = self.env, old, q
        return None if done or not live else env

    def stmt(self, x):
        if isinstance(x, ast.Return):
            k = self.k(x.value) if x.value is not None else N
            if not self.quiet:
                self.a.gives(self.f, k)
                w = words(getattr(self.f.node, "returns", None))
                if traced(k) and w and w <= {"int", "tuple", "list", "None"}:
                    self.sink("P11.value", x, "a number that callers use as a size depends on an array's value")
            return True
        if isinstance(x, (ast.Raise, ast.Continue, ast.Break)):
            return isinstance(x, ast.Raise)
        if isinstance(x, ast.Assign):
            k = self.k(x.value)
            for t in x.targets:
                self.bind(t, k)
                if isinstance(t, ast.Name):
                    (self.buffers.add if self.buffer(x.value) else self.buffers.discard)(t.id)
        elif isinstance(x, ast.AnnAssign):
            if x.value is not None:
                self.bind(x.target, self.k(x.value))
        elif isinstance(x, ast.AugAssign):
            k = join(flat(self.k(x.target)), flat(self.k(x.value)))
            self.bind(x.target, T if traced(k) else k)
        elif isinstance(x, ast.If):
            self.test(x.test, "branch")
            b, o, pb, po = self.guards(x.test)
            e1 = self.branch(x.body, b, pb)
            e2 = self.branch(x.orelse, o, po)
            if e1 is None and e2 is None:
                return True
            self.env = e1 if e2 is None else e2
            if e1 is not None and e2 is not None:
                self.merge(e1)
        elif isinstance(x, ast.While):
            for _ in range(2):
                self.test(x.test, "loop")
                e0 = dict(self.env)
                self.block(x.body)
                self.merge(e0)
        elif isinstance(x, ast.For):
            k = self.iter(x.iter)
            for _ in range(2):
                e0 = dict(self.env)
                self.bind(x.target, k)
                self.block(x.body)
                self.merge(e0)
            self.block(x.orelse)
        elif isinstance(x, ast.With):
            for i in x.items:
                k = self.k(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, k)
            return self.block(x.body)
        elif isinstance(x, ast.Try):
            q = self.quiet
            # a computation that cannot be traced has a replacement
            if any(h.type is None or "Error" in ast.unparse(h.type) and ("BackendError" in ast.unparse(h.type) or "Tracer" in ast.unparse(h.type)) for h in x.handlers):
                self.quiet = True
            e0 = dict(self.env)
            done = self.block(x.body)
            self.quiet = q
            if not done:
                done = self.block(x.orelse)
            e1 = None if done else self.env
            for h in x.handlers:
                self.env = dict(e0)
                if not self.block(h.body):
                    if e1 is not None:
                        self.merge(e1)
                    e1 = self.env
            self.env = e1 if e1 is not None else e0
            return self.block(x.finalbody) or e1 is None
        elif isinstance(x, ast.Assert):
            self.test(x.test, "assertion")
        elif isinstance(x, ast.Expr):
            self.k(x.value)
        elif isinstance(x, ast.FunctionDef):
            g = self.f.locals_funcs.get(x.name)
            if g is not None:
                Walk(self.a, g, self.env, self.quiet or self.hosted(g)).go()
        elif isinstance(x, ast.Match):
            k = self.k(x.subject)
            if traced(k):
                self.sink("P11.value", x.subject, "the match looks at an array's value")
            for c in x.cases:
                e0 = dict(self.env)
                self.block(c.body)
                self.merge(e0)
        return False

    def buffer(self, e):
        r = self.a.calls.resolve(self.f, e.func) if isinstance(e, ast.Call) else None
        return isinstance(r, tuple) and r[0] == "ext" and r[1].startswith("numpy.") and r[1].split(".")[-1].split("_")[0] in ("zeros", "empty", "ones", "full", "eye", "array", "asarray")

    def hosted(self, g):
        """Is the local function only handed to a callback that runs outside of the trace?"""
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in ("pure_callback", "io_callback", "callback") and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == g.name:
                return True
        return False

    def merge(self, e):
        for n, k in e.items():
            self.env[n] = join(self.env.get(n), k)

    def bind(self, t, k):
        if isinstance(t, ast.Name):
            self.env[t.id] = k
        elif isinstance(t, ast.Starred):
            self.bind(t.value, X if flat(k) else N)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(k, tuple) and len(k) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, x in zip(t.elts, k):
                    self.bind(e, x)
            else:
                for e in t.elts:
                    if isinstance(e, ast.Starred):
                        self.bind(e.value, X if flat(k) else N)
                    else:
                        self.bind(e, elem(k))
        elif isinstance(t, ast.Attribute):
            self.k(t.value)
            self.a.holds(t.attr, k)
        elif isinstance(t, ast.Subscript):
            b = self.k(t.value)
            i = self.k(t.slice)
            if traced(b):
                self.saw("P11.leave")
                self.sink("P11.leave", t, "an array is written in place")
            elif isinstance(t.value, ast.Name) and t.value.id in self.buffers:
                self.saw("P11.leave")
                if traced(k):
                    self.sink("P11.leave", t, "a NumPy buffer is filled with an array")
            elif flat(i):
                self.sink("P11.value", t, "an array's value picks the place to write to")
            if isinstance(t.value, ast.Name) and flat(k) and not traced(b):
                self.env[t.value.id] = flat(b) | X

    # ---- expressions -------------------------------------------------------------------------

    def iter(self, e):
        if isinstance(e, ast.Call):
            nm = (dotted(e.func) or getattr(e.func, "attr", "")).split(".")[-1]
            if nm == "enumerate" and e.args:
                return (N, self.iter(e.args[0]))
            if nm == "zip":
                return tuple(elem(self.k(x.value)) if isinstance(x, ast.Starred) else self.iter(x) for x in e.args)
            if nm == "items" and isinstance(e.func, ast.Attribute) and not e.args:
                return (N, elem(self.k(e.func.value)))
            if nm == "keys":
                return N
        return elem(self.k(e))

    def k(self, e):
        if e is None:
            return N
        m = getattr(self, "k_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.k(c)
        return N

    def k_Name(self, e):
        return self.env.get(e.id, N)

    def k_Constant(self, e):
        return N

    def k_JoinedStr(self, e):
        return N

    def k_Starred(self, e):
        return self.k(e.value)

    def k_Slice(self, e):
        for x in (e.lower, e.upper, e.step):
            if x is not None and traced(self.k(x)):
                self.sink("P11.value", x, "the bound of a slice is an array's value")
        return N

    def k_NamedExpr(self, e):
        k = self.k(e.value)
        self.bind(e.target, k)
        return k

    def k_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            ks = [self.k(x) for x in e.elts]
            return X if any(flat(k) for k in ks) else N
        return tuple(self.k(x) for x in e.elts)

    k_List = k_Tuple

    def k_Set(self, e):
        for x in e.elts:
            self.k(x)
        return N

    def k_Dict(self, e):
        ks = [self.k(v) for v in e.values]
        return X if any(flat(k) for k in ks) else N

    def comp(self, e, elts):
        old = dict(self.env)
        for g in e.generators:
            self.bind(g.target, self.iter(g.iter))
            for c in g.ifs:
                self.test(c, "condition")
        ks = [self.k(x) for x in elts]
        self.env = old
        return X if any(flat(k) for k in ks) else N

    def k_ListComp(self, e):
        return self.comp(e, [e.elt])

    k_SetComp = k_GeneratorExp = k_ListComp

    def k_DictComp(self, e):
        return self.comp(e, [e.value])

    def k_BinOp(self, e):
        a, b = self.k(e.left), self.k(e.right)
        if isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and "M" in flat(a) | flat(b):
            return M
        if traced(a) or traced(b):
            return T
        return X if flat(a) | flat(b) else N

    def k_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            self.test(e.operand, "`not`")
            return N
        k = self.k(e.operand)
        return k if isinstance(e.op, ast.Invert) else T if traced(k) else k

    def k_BoolOp(self, e):
        r = None
        for i, v in enumerate(e.values):
            k = self.k(v)
            if i < len(e.values) - 1:
                self.saw("P11.value")
                if traced(k):
                    self.sink("P11.value", v, f"`{'and' if isinstance(e.op, ast.And) else 'or'}` looks at an array's value")
            r = join(r, k)
        return r if r is not None else N

    def k_Compare(self, e):
        xs = [e.left, *e.comparators]
        ks = [self.k(x) for x in xs]
        if all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops):
            return N
        if any(isinstance(x, ast.Constant) and (x.value is None or isinstance(x.value, (str, type(...)))) for x in xs):
            return N
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in e.ops):
            if any(traced(k) for k in ks):
                self.sink("P11.value", e, "membership of an array's value is asked")
            return N
        if any(traced(k) for k in ks):
            if len(e.ops) > 1:
                self.sink("P11.value", e, "a chained comparison looks at an array's value")
            return M
        return N

    def k_IfExp(self, e):
        self.test(e.test, "branch")
        b, o, pb, po = self.guards(e.test)
        out = None
        for x, live, plain in ((e.body, b, pb), (e.orelse, o, po)):
            old, q = dict(self.env), self.quiet
            for n in plain:
                self.env[n] = N
            self.quiet = q or not live
            k = self.k(x)
            self.env, self.quiet = old, q
            if live:
                out = join(out, k)
        return out if out is not None else N

    def k_Subscript(self, e):
        k, i = self.k(e.value), self.k(e.slice)
        if traced(k):
            self.saw("P11.shape")
            if "M" in flat(i):
                self.sink("P11.shape", e, "a boolean array picks elements, how many depends on its values")
            return k
        if isinstance(k, tuple) or k:
            if traced(i):
                self.sink("P11.value", e, "an array's value is used as the index of a list")
        if isinstance(k, tuple):
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(k) <= e.slice.value < len(k):
                return k[e.slice.value]
            return flat(k) if isinstance(e.slice, ast.Slice) else elem(k)
        if k:
            return X if isinstance(e.slice, ast.Slice) else T
        return N

    def k_Attribute(self, e):
        x = e.value if e.attr == "value" else e
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and x.value.attr == "parameters":
            r = self.a.calls.resolve(self.f, x.value.value)
            if isinstance(r, tuple) and r[0] == "inst" and any(x.attr in self.a.const.get(c, ()) for c in r[1].mro):
                return N
        b = self.k(e.value)
        if e.attr in STATIC or STATIC_RE.match(e.attr):
            return N
        if traced(b) and "O" not in b:
            return b if e.attr in ("T", "at") else T
        r = self.a.calls.resolve(self.f, e)
        if isinstance(r, Func):
            return self.a.result(r) if r.kind == "property" else N
        if r is not None:
            return N
        rv = self.a.calls.resolve(self.f, e.value)
        if isinstance(rv, tuple) and rv[0] == "ext":
            return N
        out = self.a.field.get(e.attr)
        for p in self.a.prop.get(e.attr, ()):
            out = join(out, self.a.ret.get(p, N))
        return out if out is not None else N

    def k_Lambda(self, e):
        g = self.a.lam.get(e)
        if g is not None:
            Walk(self.a, g, self.env, self.quiet).go()
        return N

    def func_of(self, e):
        """The function an argument denotes."""
        if isinstance(e, ast.Lambda):
            return self.a.lam.get(e)
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.a.calls.resolve(self.f, e)
            return r if isinstance(r, Func) and r.kind != "property" else None
        return None

    def k_Call(self, e):
        fn, d = e.func, dotted(e.func) or ""
        last = d.split(".")[-1] if d else getattr(fn, "attr", "")
        r = self.a.calls.resolve(self.f, fn)
        ext = r[1] if isinstance(r, tuple) and r[0] == "ext" else None
        if ext is not None and last in ("pure_callback", "io_callback", "callback"):
            for x in e.args[1:]:
                self.k(x)
            return T
        args = [self.k(x) for x in e.args]
        kws = {x.arg: self.k(x.value) for x in e.keywords}
        ks = [*args, *kws.values()]
        some = any(flat(k) for k in ks)
        if ext is not None:
            return self.foreign(e, ext, args, kws, some)
        if isinstance(r, Func) and r.cls is not None and r.cls.name == "BackendManager" or (r is None and d.startswith("math.") and "math" not in self.env and len(d.split(".")) == 2):
            return self.backend(e, last, args, kws, some)
        if isinstance(fn, ast.Name) and r is None and fn.id not in self.env:
            return self.builtin(e, fn.id, args, kws, some)
        if isinstance(r, Class):
            i = r.lookup("__init__")[0]
            if isinstance(i, Func):
                self.hand(e, i, args, kws, True)
            return N
        if isinstance(r, Func):
            if some and any("njit" in x or x.endswith("numba.jit") for x in map(str, r.decorators)):
                self.saw("P11.leave")
                self.sink("P11.leave", e, "compiled NumPy code is given an array")
                return T
            if some and self.a.calls.is_memo(r):
                self.saw("P11.leave")
                self.sink("P11.leave", e, "a remembering function is given an array as its key")
            self.hand(e, r, args, kws, r.cls is not None and r.kind in ("method", "classmethod"))
            for w in self.a.wrappers(r):
                if some:
                    self.hand(e, w, args, kws, False)
            return self.a.result(r)
        if isinstance(fn, ast.Attribute):
            return self.method(e, fn, args, kws, some)
        return T if some and isinstance(fn, ast.Name) else N

    def knobs(self, e, name, args, kws, names=None):
        """Arguments that shape the computation must not be traced."""
        where = PLACES.get(name, ()) if names is None else [i for i, n in enumerate(names) if n in KNOBS]
        for i, k in enumerate(args):
            if i in where:
                self.saw("P11.shape")
                if flat(k) and not (isinstance(e.args[i], ast.Starred)):
                    self.sink("P11.shape", e, "an array's value shapes the result")
        for n, k in kws.items():
            if n in KNOBS:
                self.saw("P11.shape")
                if flat(k):
                    self.sink("P11.shape", e, "an array's value shapes the result")

    def foreign(self, e, ext, args, kws, some):
        nm = ext.split(".")[-1]
        if ext.startswith("numpy"):
            if not some or nm in ASK or ext.startswith("numpy.random"):
                return N
            self.saw("P11.leave")
            self.sink("P11.leave", e, "NumPy is given an array")
            return T
        if ext.startswith("scipy"):
            if some:
                self.saw("P11.leave")
                self.sink("P11.leave", e, "SciPy is given an array")
            return T if some else N
        if ext.startswith(("jax", "equinox")):
            if nm in ("stop_gradient", "device_get"):
                self.sink("P11.leave", e, "the gradient is cut")
            if nm in ASK or nm in ("ShapeDtypeStruct",):
                return N
            if some:
                self.saw("P11.leave")
                if nm in DATA_SHAPED and "size" not in kws or nm == "where" and len(args) == 1 and "size" not in kws:
                    self.sink("P11.shape", e, "the shape of the result depends on an array's values")
            self.knobs(e, nm, args, kws)
            for x in e.args:
                g = self.func_of(x)
                if g is not None and some:
                    for p in g.params:
                        self.give(g, p.name, T)
            if nm in ("eigh", "svd", "slogdet", "qr"):
                return X if some else N
            if nm in ("isclose", "isnan", "isinf", "isfinite", "logical_and", "logical_or", "logical_not", "equal", "not_equal", "less", "greater", "less_equal", "greater_equal"):
                return M if some else N
            if nm in ("broadcast_arrays", "meshgrid", "split"):
                return X if some else N
            return T if some else N
        if ext.startswith(("math.", "cmath.")):
            if some:
                self.saw("P11.leave")
                self.sink("P11.leave", e, "Python's math is given an array")
            return N
        if nm in ("reduce",):
            return T if some else N
        if ext.startswith(("copy.", "itertools.")):
            return args[0] if args and ext.startswith("copy.") else X if some else N
        return N

    def backend(self, e, nm, args, kws, some):
        if nm == "asnumpy":
            if some:
                self.saw("P11.leave")
                self.sink("P11.leave", e, "an array leaves the backend")
            return N
        for x in e.args:
            g = self.func_of(x)
            if g is not None and some:
                for p in g.params:
                    self.give(g, p.name, T)
        g, _ = self.a.jax.lookup(nm)
        if isinstance(g, Func):
            ps = [p.name for p in (g.params[1:] if g.kind in ("method", "classmethod") else g.params)]
            if nm not in ("error_if", "conditional", "map_fn"):
                self.knobs(e, nm, args, kws, ps)
        if nm == "astensor":
            return T if some else N  # what is not traced stays a constant
        if nm in ("BackendError", "issubdtype", "get_backend", "change_backend", "istraced", "iscomplexobj", "broadcast_shapes", "backend_name"):
            return N
        self.saw("P11.leave")
        if not isinstance(g, Func) and self.a.jax.lookup(nm)[0] is None and not args and not kws:
            return N
        # also of plain numbers: within a trace every operation of the backend is part of the trace
        if nm in ("isnan", "equal", "isclose", "logical_and", "logical_or", "logical_not"):
            return M
        if nm in ("broadcast_arrays", "eigh", "schur"):
            return X
        return T

    def builtin(self, e, nm, args, kws, some):
        if nm in ("bool", "int", "float", "complex", "round", "range", "hash", "divmod"):
            self.saw("P11.value")
            if any(traced(k) for k in args):
                self.sink("P11.value", e, f"`{nm}` asks for an array's value")
            return N
        if nm in ("sorted", "min", "max", "any", "all"):
            if nm in ("any", "all") and e.args and "istraced" in ast.unparse(e.args[0]):
                return N
            self.saw("P11.value")
            if some:
                self.sink("P11.value", e, f"`{nm}` asks for an array's value")
            return N
        if nm in ("abs", "sum", "pow"):
            return T if some else N
        if nm in ("list", "tuple", "reversed", "iter"):
            if args and isinstance(args[0], tuple):
                return args[0]
            return X if some else N
        if nm == "map":
            g = self.func_of(e.args[0]) if e.args else None
            if g is not None and g.cls is not None and g.cls.name == "BackendManager":
                return X if some and g.name not in ("istraced", "iscomplexobj") else N
            if g is not None and some:
                for p in g.params:
                    self.give(g, p.name, T)
                return X if flat(self.a.ret.get(g, N)) else N
            return X if some else N
        if nm in ("zip", "enumerate", "filter", "dict"):
            return X if some else N
        if nm == "next":
            return elem(args[0]) if args else N
        if nm == "super" or nm[:1].isupper():
            return N
        return N

    def method(self, e, fn, args, kws, some):
        b = self.k(fn.value)
        if traced(b) and "O" not in b:
            self.saw("P11.leave")
            if fn.attr in ("item", "tolist", "__array__", "tobytes", "block_until_ready"):
                self.sink("P11.leave", e, "an array leaves the backend")
            if fn.attr in ("nonzero", "compress"):
                self.sink("P11.shape", e, "the shape of the result depends on an array's values")
            if fn.attr in ("fill", "sort", "put", "resize", "partition", "itemset"):
                self.sink("P11.leave", e, "an array is written in place")
            if fn.attr in ("reshape", "transpose", "swapaxes", "repeat"):
                self.saw("P11.shape")
                if any(flat(k) for k in args):
                    self.sink("P11.shape", e, "an array's value shapes the result")
            if fn.attr in ("any", "all"):
                return T
            return b if fn.attr in ("reshape", "ravel", "flatten", "copy") else T
        if flat(b) and "O" not in flat(b):
            if fn.attr in ("append", "extend", "insert", "update", "index", "count", "remove", "sort"):
                if fn.attr in ("index", "count", "remove", "sort"):
                    self.sink("P11.value", e, f"`{fn.attr}` compares arrays")
                return N
            return X if fn.attr in ("copy", "values", "items") else elem(b) if fn.attr in ("pop", "get") else N
        if fn.attr in ("append", "extend", "insert", "add", "setdefault", "update") and some and isinstance(fn.value, ast.Name):
            self.env[fn.value.id] = flat(self.env.get(fn.value.id, N)) | X
            return N
        rv = self.a.calls.resolve(self.f, fn.value)
        if isinstance(rv, tuple) and rv[0] == "ext":
            return N
        out = None
        c = self.a.meth.get(fn.attr, ())
        if len(c) <= 25:
            for m in c:
                self.hand(e, m, args, kws, m.kind != "staticmethod")
                out = join(out, self.a.ret.get(m, N))
        return out if out is not None else N

    def give(self, g, n, k):
        if not self.eager and not self.quiet:
            self.a.given(g, n, k)

    def hand(self, e, g, args, kws, bound):
        """What the call gives to the parameters of `g`."""
        ps = g.params[1:] if bound and g.params else g.params
        pos = [p for p in ps if p.kind == "pos"]
        var = next((p for p in ps if p.kind == "vararg"), None)
        st = self.a.statics(g) if self.a.calls.is_jit(g) else ()
        for i, (x, k) in enumerate(zip(e.args, args)):
            if isinstance(x, ast.Starred):
                break
            p = pos[i] if i < len(pos) else var
            if p is None:
                continue
            if p.name in st:
                self.saw("P11.shape")
                if flat(k):
                    self.sink("P11.shape", e, f"the static argument `{p.name}` is given an array")
            if flat(k):
                self.give(g, p.name, k)
        for n, k in kws.items():
            if n in st:
                self.saw("P11.shape")
                if flat(k):
                    self.sink("P11.shape", e, f"the static argument `{n}` is given an array")
            if n is not None and flat(k):
                self.give(g, n, k)
