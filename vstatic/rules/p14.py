"""P14 -- batches are computed element by element: the discipline of batch and core axes."""

import re

from ..calls import Calls
from .common import *

# An array is ("B", r): batch axes in front and r core axes (None: not known how many), or ("U", r): no batch axes.
# ("sh", array): its shape; ("bs",): the shape of a batch; ("tup", [kinds]), ("list", kind); None: not known.
# ("bs",): it includes the superposition axis, if there is one; ("bsn",): it does not. ("bd", n), ("bdn", n): the number of batch axes, plus n.
# ("axes", sup): numbers or labels of axes, counted from such a number. ("F",): a Fock array, whose superposition is summed.
BS = ("bs",)
BSN = ("bsn",)
FA = ("F",)
SCALAR = ("U", 0)
SCOPE = ("mrmustard.physics.triples", "mrmustard.physics.bargmann_utils", "mrmustard.physics.gaussian_integrals", "mrmustard.physics.ansatz", "mrmustard.lab.states", "mrmustard.lab.transformations", "mrmustard.lab.circuit_components", "mrmustard.lab.circuit_components_utils", "mrmustard.physics.mm_einsum")
OUT = re.compile(r"^(_?simplify.*|_order_batch|_find_unique.*|_equal.*|__eq__|__repr__|_repr.*|.*visuali[sz]e.*|random|_tree_.*|to_dict|from_dict|_?serialize|_?deserialize|real_gaussian_integral|wigner_to_bargmann.*|cayley|join_Abc_real|reorder_abc)$")
SAME = {
    "exp", "log", "sqrt", "sinh", "cosh", "tanh", "sin", "cos", "tan", "abs", "conj", "real", "imag", "cast", "astensor", "angle", "zeros_like", "ones_like", "infinity_like",
    "clip", "inv", "pinv", "expm", "isnan", "lgamma", "sqrtm", "negative", "sort", "square", "exp2", "asnumpy", "array", "asarray", "arctan", "arctanh", "arcsinh", "log10", "power", "make_complex", "xlogy", "pow", "minimum", "maximum", "mod", "equal",
}
REDUCE = {"sum", "prod", "max", "min", "mean", "norm", "average"}
UNIT = {"eye": 2, "identity": 2, "Xmat": 2, "Zmat": 2, "rotmat": 2, "J": 2, "_vacuum_A_matrix": 2, "_vacuum_B_vector": 1, "_X_matrix_for_unitary": 2, "arange": 1}
# operations that know nothing of batches
FLAT = {"diag": 1, "outer": None, "kron": None, "tensordot": None, "trace": None, "dot": None, "vdot": None, "diagflat": None}
GUARD = re.compile(r"batch|_lin_sup|\bndim\b|len\([^()]*\.shape\)|batch_size")


def check(prog, rep):
    rep.rule("P14.align", "arrays that are combined have the same number of core axes, so that batch meets batch", 200)
    rep.rule("P14.index", "a batched array is indexed from its core axes", 50)
    rep.rule("P14.axes", "reductions, products and rearrangements of a batched array name its core axes", 55)
    rep.rule("P14.size", "the size of a core axis is read from the end of the shape", 20)
    rep.rule("P14.sup", "a superposition is summed over its own axis, and no longer counted among the batch afterwards", 10)
    rep.rule("P14.kept", "an ansatz made from the data of another is told of its batch and its superposition", 12)
    a = Ranks(prog, rep)
    a.solve()
    a.report()
    kept(prog, rep)


def B(r):
    return ("B", r)


def is_b(k):
    return isinstance(k, tuple) and bool(k) and k[0] == "B"


def is_u(k):
    return isinstance(k, tuple) and bool(k) and k[0] == "U"


def arr(k):
    return is_b(k) or is_u(k)


def join(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    for x, y in ((a, b), (b, a)):
        if x == ("tup", ()) and y in (BS, BSN):
            return y
    if arr(a) and arr(b):
        if a[1] == b[1]:
            return B(a[1])
        return None
    if a[0] == b[0] == "tup" and len(a[1]) == len(b[1]):
        return ("tup", tuple(join(x, y) for x, y in zip(a[1], b[1])))
    return None


MISSING = object()


class Ranks:
    def __init__(self, prog, rep):
        self.prog, self.rep, self.calls = prog, rep, Calls(prog)
        self.par, self.ret, self.found, self.seen, self._bp = {}, {}, {}, {}, {}
        self.funcs = [
            f
            for f in prog.funcs
            if f.outer is None and not isinstance(f.node, ast.Lambda) and any(f.module.name == s or f.module.name.startswith(s + ".") for s in SCOPE) and not OUT.match(f.name) and not f.module.name.endswith("visualization")
        ]
        if not any(f.name == "complex_gaussian_integral_2" for f in self.funcs):
            raise AnalysisBroken("complex_gaussian_integral_2 not found")
        self.props = {}
        for f in self.funcs:
            if f.kind == "property":
                self.props.setdefault(f.name, []).append(f)

    def solve(self):
        for _ in range(6):
            self.found, self.seen = {}, {}
            before = (dict(self.par), dict(self.ret))
            self.newpar, self.ret = {}, {}
            old = before[1]
            self.old = old
            for f in self.funcs:
                w = Walk(self, f)
                w.go()
                self.ret[f] = w.got if w.got is not MISSING else None
            self.par = self.newpar
            if (self.par, self.ret) == before:
                break

    def given(self, f, n, k):
        if (f, n) in self.newpar:
            self.newpar[f, n] = join(self.newpar[f, n], k)
        else:
            self.newpar[f, n] = k

    def seed(self, f, p):
        a = ast.unparse(p.annotation) if p.annotation is not None else ""
        if f.module.name == "mrmustard.physics.triples" or (f.cls is not None and f.name == "__init__" and f.module.name.startswith("mrmustard.lab.")):
            if re.match(r"^(float|complex) \| Sequence\[(float|complex)\]( \| None)?$", a):
                return B(0)
        if f.module.name in ("mrmustard.physics.triples", "mrmustard.physics.bargmann_utils"):
            if re.match(r"^(Real|Complex)?Matrix( \| None)?$", a):
                return B(2)
        m = re.match(r"^Batch\[(?:Real|Complex)?(Matrix|Vector|Scalar|Tensor)\]( \| None)?$", a)
        if m and f.module.name.startswith("mrmustard.physics.ansatz"):
            return B({"Matrix": 2, "Vector": 1, "Scalar": 0, "Tensor": None}[m.group(1)])
        if f.module.name in ("mrmustard.physics.gaussian_integrals", "mrmustard.physics.bargmann_utils"):
            n = p.name
            if re.match(r"^(A|M|D|R|Q)\d?$", n):
                return B(2)
            if re.match(r"^(b|bM|bR)\d?$", n):
                return B(1)
            if n == "det_M":
                return B(0)
            if n == "S" and f.module.name.endswith("bargmann_utils"):
                return B(2)
            if re.match(r"^(log_)?c\d?$", n) and a not in ("float", "complex"):
                return B(None)
            if re.match(r"^(Abc|Ablogc)\d?$", n):
                return ("tup", (B(2), B(1), B(None)))
        return None

    def batched_parameters(self, c):
        """The parameters of a component that may be batches of numbers."""
        if c not in self._bp:
            out = set()
            for k in c.mro:
                m = getattr(k, "members", {}).get("__init__")
                if isinstance(m, Func):
                    out |= {p.name for p in m.params if is_b(self.seed(m, p))}
                    break
            self._bp[c] = out
        return self._bp[c]

    def report(self):
        for (f, rule), n in self.seen.items():
            for i in range(n):
                self.rep.ob(rule, f"{f.short()}#{i}")
        for (f, rule, what, txt), node in sorted(self.found.items(), key=lambda z: (z[0][0].file, z[0][1], z[0][2], z[0][3])):
            self.rep.find(rule, f"{f.short()}:{txt}", f.where(node), f"{what}: `{txt}`")


class Walk:
    def __init__(self, a, f, env=None):
        self.a, self.f = a, f
        self.env = dict(env or {})
        self.got = MISSING
        self.off = 0
        self.sup = self.nosup = 0
        self.arrays = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                self.arrays.setdefault(n.targets[0].id, []).append(isinstance(v, ast.Call) and getattr(v.func, "attr", getattr(v.func, "id", "")) in ("to_fock", "ArrayAnsatz", "reduce"))
        for p in f.params:
            k = a.seed(f, p)
            self.env[p.name] = k if k is not None else a.par.get((f, p.name)) if f.name.startswith("_") or f.module.name.startswith("mrmustard.physics") else None

    def go(self):
        self.block(self.f.node.body)

    def saw(self, rule):
        if not self.off or rule == "P14.sup":
            self.a.seen[self.f, rule] = self.a.seen.get((self.f, rule), 0) + 1

    def sink(self, rule, n, what):
        if not self.off or rule == "P14.sup":
            txt = " ".join(ast.unparse(n).split())
            self.a.found.setdefault((self.f, rule, what, txt[:90]), n)

    # ---- statements ------------------------------------------------------------------------------

    def block(self, b):
        """True when control never reaches the end of the block."""
        base = self.off, self.nosup
        for x in b:
            if self.stmt(x):
                self.off, self.nosup = base
                return True
        self.off, self.nosup = base
        return False

    def sup_test(self, t):
        """1: it holds only for superpositions; -1: never for superpositions; 0: neither."""
        if isinstance(t, ast.Attribute) and t.attr == "_lin_sup" or isinstance(t, ast.Name) and t.id in ("lin_sup", "_lin_sup"):
            return 1
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return -self.sup_test(t.operand)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            q = [self.sup_test(v) for v in t.values]
            return 1 if 1 in q else -1 if -1 in q else 0
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("bool", "int") and t.args:
            return self.sup_test(t.args[0])
        return 0

    def batch_test(self, t):
        """1: it holds for every batch; -1: only without a batch; 0: neither (a test of more than that)."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return -self.batch_test(t.operand)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Tuple) and not t.comparators[0].elts:
            q = self.batch_test(t.left)
            return q if isinstance(t.ops[0], ast.NotEq) else -q if isinstance(t.ops[0], ast.Eq) else 0
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0 and isinstance(t.left, ast.Call):
            q = self.batch_test(t.left.args[0]) if len(t.left.args) == 1 and getattr(t.left.func, "id", "") == "len" else 0
            return q if isinstance(t.ops[0], (ast.Gt, ast.NotEq)) else -q if isinstance(t.ops[0], ast.Eq) else 0
        if isinstance(t, ast.Attribute) and t.attr == "batch_shape" or isinstance(t, ast.Name) and t.id == "batch_shape":
            return 1
        return 0

    def stmt(self, x):
        if isinstance(x, ast.Return):
            k = self.k(x.value) if x.value is not None else None
            v = x.value
            if isinstance(v, ast.Tuple) and len(v.elts) == 3 and self.f.name.endswith("_Abc"):
                self.triple(v, v.elts)
            if isinstance(v, ast.Call) and (dotted(v.func) or "") in ("math.ones", "math.zeros") and v.args and self.f.module.name.startswith("mrmustard.lab."):
                q = self.k(v.args[0])
                if q in (BS, BSN):
                    self.saw("P14.sup")
                    if q == BS and not self.nosup:
                        self.sink("P14.sup", v, "returns a number for each term of a superposition instead of one for all")
            self.got = k if self.got is MISSING else join(self.got, k)
            return True
        if isinstance(x, (ast.Raise, ast.Continue, ast.Break)):
            return True
        if isinstance(x, ast.Assign):
            k = self.k(x.value)
            for t in x.targets:
                self.bind(t, k)
        elif isinstance(x, ast.AnnAssign):
            if x.value is not None:
                self.bind(x.target, self.k(x.value))
        elif isinstance(x, ast.AugAssign):
            k = self.combine(x, self.k(x.target), self.k(x.value), x.op)
            if isinstance(x.target, ast.Name):
                self.env[x.target.id] = k
        elif isinstance(x, ast.If):
            t = " ".join(ast.unparse(x.test).split())
            g = bool(GUARD.search(t))
            self.k(x.test)
            e0 = dict(self.env)
            q = self.sup_test(x.test)
            arrayish = isinstance(x.test, ast.Call) and isinstance(x.test.func, ast.Name) and x.test.func.id == "isinstance" and len(x.test.args) == 2 and ast.unparse(x.test.args[1]) == "ArrayAnsatz"
            bt = self.batch_test(x.test)
            self.off += g and bt <= 0
            self.sup += q > 0
            self.nosup += q < 0 or arrayish
            d1 = self.block(x.body)
            self.off += (g and bt < 0 and -1) or (g and bt > 0)
            self.sup -= q > 0
            self.nosup -= q < 0 or arrayish
            e1, self.env = self.env, dict(e0)
            self.sup += q < 0
            self.nosup += q > 0
            d2 = self.block(x.orelse)
            self.sup -= q < 0
            self.nosup -= q > 0
            self.off -= g and bt >= 0
            if q > 0 and d1 and not d2:
                self.nosup += 1
            if q and not d1 and not d2:
                (e1, e2) = (e1, self.env) if q > 0 else (self.env, e1)
                self.env = {n: self.without(e1[n], e2[n]) for n in e1.keys() & e2.keys()}
                return False
            e2 = self.env
            if d1 and d2:
                return True
            if arrayish and not d1 and not d2:
                e1 = {n: FA if k is None and e2.get(n) == FA else k for n, k in e1.items()}
            self.env = e2 if d1 else e1 if d2 else {n: join(e1[n], e2[n]) for n in e1.keys() & e2.keys()}
            if g and not q and (d1 and bt >= 0 or d2 and bt <= 0):
                # what is left is a special case
                self.off += 1
        elif isinstance(x, (ast.For, ast.While)):
            e0 = dict(self.env)
            if isinstance(x, ast.For):
                k = self.k(x.iter)
                if is_b(k):
                    self.saw("P14.index")
                    self.sink("P14.index", x.iter, "loops over the batch instead of a core axis")
                self.bind(x.target, self.elem(x.iter, k))
            else:
                self.k(x.test)
            # what the body changes is not known while it runs
            changed = {n.id for s in x.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for n in changed:
                q = self.off
                self.off += 1
                self.off = q
            e1 = dict(self.env)
            self.off += 1
            self.block(x.body)
            self.off -= 1
            after = self.env
            self.env = {n: (k if n not in changed else join(k, after.get(n))) for n, k in e1.items()}
            self.block(x.body)
            self.env = {n: join(e0.get(n), k) if n in e0 else k for n, k in self.env.items()}
            self.block(x.orelse)
        elif isinstance(x, ast.With):
            for i in x.items:
                self.k(i.context_expr)
            return self.block(x.body)
        elif isinstance(x, ast.Try):
            self.block(x.body)
            for h in x.handlers:
                self.block(h.body)
            self.block(x.orelse)
            self.block(x.finalbody)
        elif isinstance(x, ast.Expr):
            self.k(x.value)
        elif isinstance(x, ast.Assert):
            pass
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            self.env[x.name] = None
        return False

    def without(self, a, b):
        """What is a for superpositions and b for the rest."""
        if a == BSN and b == BS:
            return BSN
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "bd" and a[1] == b[1] - 1:
            return ("bdn", b[1])
        if FA in (a, b) and (a in (FA, None) or arr(a)) and (b in (FA, None) or arr(b)):
            return FA
        return join(a, b)

    def elem(self, e, k):
        if isinstance(k, tuple) and k and k[0] == "list":
            return k[1]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "zip":
            return ("tup", tuple(self.elem(x, self.k(x)) for x in e.args))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "enumerate" and e.args:
            return ("tup", (SCALAR, self.elem(e.args[0], self.k(e.args[0]))))
        return None

    def bind(self, t, k):
        if isinstance(t, ast.Name):
            self.env[t.id] = k
        elif isinstance(t, (ast.Tuple, ast.List)):
            ks = [None] * len(t.elts)
            if isinstance(k, tuple) and k:
                if k[0] == "tup" and len(k[1]) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                    ks = k[1]
                elif k[0] == "list":
                    ks = [k[1]] * len(t.elts)
                elif is_b(k) and not any(isinstance(e, ast.Starred) for e in t.elts):
                    self.sink("P14.index", t, "takes a batched array apart along the batch")
            for e, x in zip(t.elts, ks):
                self.bind(e.value if isinstance(e, ast.Starred) else e, None if isinstance(e, ast.Starred) else x)
        elif isinstance(t, ast.Subscript):
            self.k(t)

    # ---- expressions -----------------------------------------------------------------------------

    def k(self, e):
        m = getattr(self, "k_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.k(c)
        return None

    def k_Name(self, e):
        return self.env.get(e.id)

    def k_Constant(self, e):
        return SCALAR if isinstance(e.value, (int, float, complex)) else None

    def k_Lambda(self, e):
        return None

    def k_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.shape_of_elts(e)
        return ("tup", tuple(self.k(x) for x in e.elts))

    def shape_of_elts(self, e):
        """(*batch_shape, a, b): ("full", core)"""
        x = e.elts[0]
        if isinstance(x, ast.Starred):
            k = self.k(x.value)
            rest = e.elts[1:]
            for y in rest:
                if not isinstance(y, ast.Starred):
                    self.k(y)
            n = None if any(isinstance(y, ast.Starred) for y in rest) else len(rest)
            if k == BS:
                return ("full", n)
            if k == BSN:
                return BSN
            if k is None and isinstance(x.value, ast.Name) and re.search(r"batch_shape", x.value.id):
                return ("full", n)
            if isinstance(k, tuple) and k and k[0] == "full" and k[1] is not None and n is not None:
                return ("full", k[1] + n)
            if isinstance(k, tuple) and k and k[0] == "sh" and is_b(k[1]) and k[1][1] is not None and n is not None:
                return ("full", k[1][1] + n)
        else:
            ks = [self.k(y.value if isinstance(y, ast.Starred) else y) for y in e.elts]
            if BSN in ks:
                return BSN
            if BS in ks:
                if self.f.module.name.startswith("mrmustard.physics.") and not self.nosup:
                    self.saw("P14.axes")
                    self.sink("P14.axes", e, "puts a core axis in front of the batch")
                return ("full", None)
        return None

    def k_List(self, e):
        ks = [self.k(x.value if isinstance(x, ast.Starred) else x) for x in e.elts]
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return None
        if ks and all(isinstance(k, tuple) and k and k[0] == "tup" and not isinstance(k[1], str) and len(k) > 2 for k in ks):
            return None
        return ("tup", tuple(ks)) if ks else None

    def k_ListComp(self, e):
        env = dict(self.env)
        for g in e.generators:
            k = self.k(g.iter)
            if is_b(k):
                self.saw("P14.index")
                self.sink("P14.index", g.iter, "loops over the batch instead of a core axis")
            self.bind(g.target, self.elem(g.iter, k))
            for c in g.ifs:
                self.k(c)
        k = self.k(e.elt)
        self.env = env
        for g in e.generators:
            q = self.k(g.iter)
            if isinstance(q, tuple) and q and q[0] == "axes":
                return q
        return ("list", k)

    k_GeneratorExp = k_ListComp

    def k_IfExp(self, e):
        g = bool(GUARD.search(ast.unparse(e.test)))
        q = self.sup_test(e.test)
        bt = self.batch_test(e.test)
        self.k(e.test)
        self.off += g and bt <= 0
        self.sup += q > 0
        self.nosup += q < 0
        a = self.k(e.body)
        self.off += (g and bt < 0 and -1) or (g and bt > 0)
        self.sup += (q < 0) - (q > 0)
        self.nosup += (q > 0) - (q < 0)
        b = self.k(e.orelse)
        self.sup -= q < 0
        self.nosup -= q > 0
        self.off -= g and bt >= 0
        if q:
            return self.without(a, b) if q > 0 else self.without(b, a)
        return join(a, b)

    def k_BoolOp(self, e):
        for x in e.values:
            self.k(x)
        return None

    def k_Compare(self, e):
        ks = [self.k(x) for x in (e.left, *e.comparators)]
        k = ks[0]
        for y in ks[1:]:
            k = self.combine(e, k, y, None) if arr(k) and arr(y) else None
        return k

    def k_UnaryOp(self, e):
        return self.k(e.operand)

    def k_BinOp(self, e):
        return self.combine(e, self.k(e.left), self.k(e.right), e.op)

    def combine(self, e, a, b, op):
        if isinstance(op, ast.MatMult):
            return self.matmul(e, a, b)
        if arr(a) and arr(b):
            self.saw("P14.align")
            return self.align(e, [a, b])
        if isinstance(a, tuple) and a and a[0] in ("bd", "bdn") and isinstance(op, (ast.Add, ast.Sub)):
            right = e.right if isinstance(e, ast.BinOp) else e.value
            sign = 1 if isinstance(op, ast.Add) else -1
            if isinstance(right, ast.Constant) and isinstance(right.value, int):
                return (a[0], a[1] + sign * right.value)
            if a[0] == "bd" and sign == -1 and "lin_sup" in ast.unparse(right):
                return ("bdn", a[1])
            return ("axes", a[0] == "bd")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x and x[0] in ("axes", "bd", "bdn"):
                if ("axes", "fixed") in (x, y):
                    return ("axes", "fixed") if y is None or x is None or x == y or y[0] == "list" else None
                return ("axes", (x[0] == "bd" or x[0] == "axes" and x[1]) or (isinstance(y, tuple) and y and (y[0] == "bd" or y[0] == "axes" and y[1])))
            if x == FA and not isinstance(op, ast.MatMult):
                return FA
        # shapes
        if isinstance(op, ast.Add):
            n = None
            right = e.right if isinstance(e, ast.BinOp) else None
            if isinstance(right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in right.elts):
                n = len(right.elts)
            if a == BS and isinstance(b, tuple):
                return ("full", n)
            if a == BSN:
                return BSN
            if isinstance(a, tuple) and a and a[0] == "full" and a[1] is not None and n is not None:
                return ("full", a[1] + n)
            return None
        return None

    def align(self, e, ks):
        """Elementwise combination."""
        bs = [k for k in ks if is_b(k)]
        us = [k for k in ks if is_u(k)]
        rs = {k[1] for k in bs if k[1] is not None}
        if len(rs) > 1:
            lo, hi = min(rs), max(rs)
            self.sink("P14.align", e, f"combines batched arrays of {lo} and {hi} core axes, so that batch axes of one meet core axes of the other")
            return B(hi)
        if rs and all(k[1] is not None for k in bs):
            r = next(iter(rs))
            if any(u[1] is not None and u[1] > r for u in us):
                u = max(u[1] for u in us if u[1] is not None)
                self.sink("P14.align", e, f"combines a batched array of {r} core axes with an array of {u} axes, so that its batch axes meet the axes of the other")
                return B(u)
            return B(r)
        if bs:
            return B(None)
        if us:
            return ("U", None) if any(u[1] is None for u in us) else ("U", max(u[1] for u in us))
        return None

    def matmul(self, e, a, b):
        if not (arr(a) and arr(b)):
            return None
        self.saw("P14.align")
        if is_b(a) and is_b(b) or is_b(a) or is_b(b):
            if is_b(b) and b[1] == 1 and a[1] == 2 and is_b(a):
                self.sink("P14.align", e, "multiplies a matrix with a batch of vectors as if the batch were a matrix")
                return B(1)
            if is_b(b) and b[1] == 1 or is_b(a) and a[1] == 1:
                self.sink("P14.align", e, "multiplies with a batch of vectors as if the batch were a matrix")
                return B(1)
            if a[1] == b[1] == 2:
                return B(2)
            if a[1] == 2 and is_u(b) and b[1] == 1:
                return B(1)
            return B(None)
        return ("U", None) if None in (a[1], b[1]) else ("U", max(a[1] + b[1] - 2, 0))

    def k_Subscript(self, e):
        b = self.k(e.value)
        idx = e.slice
        parts = list(idx.elts) if isinstance(idx, ast.Tuple) else [idx]
        for p in parts:
            for c in ast.walk(p):
                if isinstance(c, (ast.Call, ast.Subscript)):
                    self.k(c)
                    break
        if isinstance(b, tuple) and b:
            if b[0] == "tup" and isinstance(idx, ast.Constant) and isinstance(idx.value, int) and -len(b[1]) <= idx.value < len(b[1]):
                return b[1][idx.value]
            if b[0] == "list":
                return None if isinstance(idx, ast.Slice) else b[1]
            if b[0] == "sh":
                return self.shape_part(e, b[1], idx)
            if b == BS and self.sup and not self.nosup and not (isinstance(idx, ast.Slice) and idx.step is None):
                self.saw("P14.sup")
                if self.const(idx) != -1:
                    self.sink("P14.sup", e, "takes the size of a batch axis that is not that of the superposition (the last of the batch)")
            elif b in (BS, BSN) and isinstance(self.const(idx) if not isinstance(idx, ast.Slice) else None, int):
                self.saw("P14.size")
                self.sink("P14.size", e, "takes the size of one batch axis where there may be none or several")
            if b == BS and isinstance(idx, ast.Slice) and idx.lower is None and idx.step is None and idx.upper is not None and self.const(idx.upper) == -1:
                return BSN
            if b[0] == "full":
                return None
        if not is_b(b):
            return ("U", None) if is_u(b) else None
        self.saw("P14.index")
        r = b[1]
        first = parts[0]
        if isinstance(idx, ast.Call) and isinstance(idx.func, ast.Name) and idx.func.id == "tuple" and idx.args and isinstance(idx.args[0], (ast.GeneratorExp, ast.ListComp)) and "batch" not in ast.unparse(idx):
            self.sink("P14.index", e, "indexes the batch of an array where a core axis is meant")
            return None
        if isinstance(first, ast.Constant) and first.value is Ellipsis:
            n = r
            if n is not None:
                for p in parts[1:]:
                    if isinstance(p, ast.Constant) and p.value is None:
                        n += 1
                    elif isinstance(p, ast.Slice):
                        pass
                    elif isinstance(p, ast.Constant) and isinstance(p.value, int) or isinstance(p, ast.UnaryOp):
                        n -= 1
                    else:
                        return B(None)
                taken = sum(1 for p in parts[1:] if not (isinstance(p, ast.Constant) and p.value is None))
                if taken > r:
                    self.sink("P14.index", e, f"indexes {taken} axes of a batched array of {r} core axes")
                    return B(None)
            return B(n)
        if any(isinstance(p, ast.Constant) and p.value is Ellipsis for p in parts):
            return B(None)
        if isinstance(first, ast.Constant) and first.value is None:
            return B(None)
        if isinstance(first, ast.Slice) and first.lower is None and first.upper is None and first.step is None:
            return B(None)
        q = self.k(first) if not isinstance(first, ast.Slice) else SCALAR
        if isinstance(first, (ast.Compare,)) or is_b(q):
            return None
        if isinstance(first, ast.Constant) and isinstance(first.value, int) or isinstance(first, ast.Slice) or (isinstance(first, ast.UnaryOp) and isinstance(first.operand, ast.Constant)):
            self.sink("P14.index", e, "indexes the batch of an array where a core axis is meant")
        return None

    def shape_part(self, e, b, idx):
        """`x.shape[...]`"""
        if not is_b(b):
            return None
        self.saw("P14.size")
        if isinstance(idx, ast.Slice):
            up, lo = idx.upper, idx.lower
            neg = lambda x: -x.operand.value if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) and isinstance(x.operand, ast.Constant) else None
            if lo is None and up is not None and idx.step is None:
                n = neg(up)
                if n is not None and b[1] is not None:
                    if -n == b[1]:
                        return BS
                    if -n < b[1]:
                        return ("full", b[1] + n)
                    self.sink("P14.size", e, f"cuts {-n} axes from the shape of a batched array of {b[1]} core axes")
                    return None
            if b[1] == 0 and up is None and lo is None:
                return BS
            if up is None and lo is not None and isinstance(self.const(lo), int) and self.const(lo) >= 1:
                self.sink("P14.size", e, "counts the batch axes as if their number were known")
            return None
        if isinstance(idx, ast.Constant) and isinstance(idx.value, int) and idx.value >= 0:
            self.sink("P14.size", e, "reads the size of a batch axis where that of a core axis is meant")
            return SCALAR
        if b[1] is not None and isinstance(idx, ast.UnaryOp) and isinstance(idx.operand, ast.Constant) and isinstance(idx.operand.value, int) and idx.operand.value > b[1]:
            self.sink("P14.size", e, f"reads axis {-idx.operand.value} of a batched array of {b[1]} core axes, which is one of the batch")
        return SCALAR

    def k_Attribute(self, e):
        if e.attr == "batch_shape":
            self.k(e.value)
            return BS if self.may_be_sup(e.value) else BSN if not self.off and self.is_array(e.value) else BS
        if e.attr == "batch_dims":
            self.k(e.value)
            return ("bd" if self.may_be_sup(e.value) else "bdn", 0)
        if e.attr in ("num_CV_vars", "num_derived_vars", "num_vars", "core_dims", "n_modes", "HBAR", "ATOL"):
            return SCALAR
        if e.attr == "value" and isinstance(e.value, ast.Attribute) and isinstance(e.value.value, ast.Attribute) and e.value.value.attr == "parameters":
            c = self.f.cls
            if c is not None and isinstance(e.value.value.value, ast.Name) and e.value.value.value.id == "self" and e.value.attr in self.a.batched_parameters(c):
                return B(0)
            return None
        b = self.k(e.value)
        if e.attr == "shape":
            if is_b(b) and b[1] == 0:
                return BS
            return ("sh", b) if arr(b) else None
        if e.attr == "T" and is_b(b):
            self.saw("P14.axes")
            self.sink("P14.axes", e, "transposes the batch axes too")
            return B(b[1])
        if e.attr == "T":
            return b
        if e.attr in ("A", "b", "c", "triple", "_A", "_b", "_c"):
            r = self.a.calls.resolve(self.f, e.value)
            own_ = isinstance(e.value, ast.Name) and e.value.id in ("self", "other") and self.f.cls is not None and self.f.cls.name == "PolyExpAnsatz"
            on = self.of_ansatz(e.value)
            inst = isinstance(r, tuple) and r[0] == "inst" and r[1].name == "PolyExpAnsatz"
            if own_ or on or inst:
                return {"A": B(2), "b": B(1), "c": B(None), "triple": ("tup", (B(2), B(1), B(None)))}[e.attr.strip("_")]
            return None
        if e.attr in ("array", "_array") and (
            isinstance(e.value, ast.Name) and e.value.id in ("self", "other") and self.f.cls is not None and self.f.cls.name == "ArrayAnsatz" or isinstance(e.value, ast.Attribute) and e.value.attr in ("ansatz", "_ansatz")
        ):
            return B(None)
        if e.attr == "scalar":
            return B(0)
        r = self.a.calls.resolve(self.f, e)
        if isinstance(r, Func) and r.kind == "property":
            return self.result(r)
        return None

    def of_ansatz(self, e):
        """`x.ansatz`, `x.ansatz.conj`, `x.ansatz.reorder(...)`."""
        while True:
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("reorder", "reorder_batch", "trace", "contract"):
                e = e.func.value
            elif isinstance(e, ast.Attribute) and e.attr in ("conj", "PS"):
                e = e.value
            else:
                return isinstance(e, ast.Attribute) and e.attr in ("ansatz", "_ansatz")

    def triple(self, e, parts):
        """A, b and c that make up one triple."""
        want = (2, 1)
        for x, w in zip(parts, want):
            q = self.k(x)
            if is_b(q) and q[1] is not None:
                self.saw("P14.align")
                if q[1] != w:
                    self.sink("P14.align", e, f"the {'matrix' if w == 2 else 'vector'} of a triple has {w} core axes, not {q[1]}")

    def is_array(self, base):
        while isinstance(base, ast.Attribute) and base.attr in ("ansatz", "_ansatz"):
            base = base.value
        if isinstance(base, ast.Name):
            if base.id in ("self", "other") and self.f.cls is not None and self.f.cls.name == "ArrayAnsatz":
                return True
            return bool(self.arrays.get(base.id)) and all(self.arrays[base.id])
        return isinstance(base, ast.Call) and getattr(base.func, "attr", "") == "to_fock"

    def may_be_sup(self, base):
        if self.nosup:
            return False
        if isinstance(base, ast.Name) and base.id != "self" and any(self.arrays.get(base.id, ())):
            return False
        if isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name) and any(self.arrays.get(base.value.id, ())):
            return False
        return not self.is_array(base)

    def result(self, g):
        return self.a.old.get(g)

    # ---- calls -----------------------------------------------------------------------------------

    def k_Call(self, e):
        d = dotted(e.func) or ""
        last = d.split(".")[-1] if d else getattr(e.func, "attr", "")
        if last in ("fock_array",) or last == "eval" and isinstance(e.func, ast.Attribute) and getattr(e.func.value, "attr", "") in ("ansatz", "_ansatz"):
            for x in e.args:
                self.k(x.value if isinstance(x, ast.Starred) else x)
            return FA
        if last == "PolyExpAnsatz" and len(e.args) >= 3 and not any(isinstance(x, ast.Starred) for x in e.args):
            self.triple(e, e.args[:3])
        if last == "from_bargmann":
            for x in e.args:
                if isinstance(x, ast.Tuple) and len(x.elts) == 3 and not any(isinstance(y, ast.Starred) for y in x.elts):
                    self.triple(e, x.elts)
        if last == "ArrayAnsatz":
            n = self.kw(e, "batch_dims", 1)
            q = self.k(n) if n is not None else None
            if e.args:
                self.k(e.args[0])
            if isinstance(q, tuple) and q and q[0] in ("bd", "bdn"):
                self.saw("P14.sup")
                if q[0] == "bd" and not self.nosup or q[1]:
                    self.sink("P14.sup", e, "counts the superposition among the batch of an array that has none")
            return None
        if last == "contract" and isinstance(e.func, ast.Attribute):
            for x in e.args[1:]:
                q = self.k(x)
                if isinstance(q, tuple) and q and q[0] == "axes":
                    self.saw("P14.sup")
                    if q[1] is True and not self.nosup:
                        self.sink("P14.sup", e, "names the axis of the superposition among the batch axes to contract")
                        break
        if last in ("error_if", "allclose", "all", "any", "isinstance", "issubclass", "istraced", "isclose"):
            return None
        if isinstance(e.func, ast.Attribute) and not d:
            self.k(e.func.value)
        lib = d.startswith("math.") and len(d.split(".")) == 2 or d.startswith(("np.", "jnp."))
        r = self.a.calls.resolve(self.f, e.func)
        if lib:
            return self.lib(e, last)
        if isinstance(e.func, ast.Name) and r is None and e.func.id not in self.env:
            return self.builtin(e, e.func.id)
        args = [self.k(x.value if isinstance(x, ast.Starred) else x) for x in e.args]
        kws = {x.arg: self.k(x.value) for x in e.keywords}
        if last in UNIT and isinstance(r, Func):
            return ("U", UNIT[last])
        if isinstance(r, Func):
            bound = r.cls is not None and r.kind in ("method", "classmethod")
            ps = r.params[1:] if bound else r.params
            if not any(isinstance(x, ast.Starred) for x in e.args):
                seen = set()
                for p, k in zip(ps, args):
                    self.a.given(r, p.name, k)
                    seen.add(p.name)
                for n, k in kws.items():
                    self.a.given(r, n, k)
                    seen.add(n)
                for p in ps:
                    if p.name not in seen and p.default is not None:
                        self.a.given(r, p.name, SCALAR if isinstance(p.default, ast.Constant) and isinstance(p.default.value, (int, float)) else None)
            else:
                for p in ps:
                    self.a.given(r, p.name, None)
            for p in ps:
                want = self.a.seed(r, p)
                k = dict(zip([q.name for q in ps], args)).get(p.name, kws.get(p.name))
                if want is not None and is_b(want) and is_b(k) and want[1] is not None and k[1] is not None:
                    self.saw("P14.align")
                    if want[1] != k[1]:
                        self.sink("P14.align", e, f"`{p.name}` has {want[1]} core axes, the argument given has {k[1]}")
            if not (r.is_abstract() if hasattr(r, "is_abstract") else False):
                return self.result(r)
            return None
        if isinstance(e.func, ast.Attribute):
            return self.method(e, e.func, self.k(e.func.value))
        return None

    def method(self, e, fn, b):
        if not is_b(b):
            return b if is_u(b) and fn.attr in ("copy", "astype", "conj") else None
        if fn.attr in ("copy", "astype", "conj", "conjugate"):
            return b
        if fn.attr in REDUCE:
            return self.reduce(e, b, e.args[0] if e.args else None)
        if fn.attr in ("transpose",) and not e.args:
            self.saw("P14.axes")
            self.sink("P14.axes", e, "transposes the batch axes too")
        return None

    def builtin(self, e, nm):
        if nm == "len" and len(e.args) == 1:
            k = self.k(e.args[0])
            if k in (BS, BSN):
                return ("bd" if k == BS and not self.nosup else "bdn", 0)
            if is_b(k):
                self.saw("P14.size")
                self.sink("P14.size", e, "takes the size of the batch where that of a core axis is meant")
            return SCALAR
        if nm in ("int", "float", "bool", "complex", "round"):
            for x in e.args:
                self.k(x)
            return SCALAR
        if nm == "abs" and e.args:
            return self.k(e.args[0])
        if nm in ("sum", "max", "min"):
            for x in e.args:
                k = self.k(x)
                if is_b(k) and len(e.args) == 1:
                    self.sink("P14.axes", e, "reduces over the batch")
            return None
        if nm in ("tuple", "list") and len(e.args) == 1:
            k = self.k(e.args[0])
            if k == BSN or isinstance(k, tuple) and k and k[0] == "axes":
                return k
            return k if k == BS or isinstance(k, tuple) and k and k[0] in ("sh", "full", "tup") else None
        ks = [self.k(x.value if isinstance(x, ast.Starred) else x) for x in e.args]
        if nm == "range":
            if len(e.args) == 2 and isinstance(self.const(e.args[0]), int) and self.const(e.args[0]) >= 1 and not any(isinstance(k, tuple) and k and k[0] in ("bd", "bdn", "axes") for k in ks):
                return ("axes", "fixed")
            q = [k for k in ks if isinstance(k, tuple) and k and k[0] in ("bd", "bdn", "axes")]
            if q:
                return ("axes", any(k[0] == "bd" or k[0] == "axes" and k[1] for k in q))
        if nm == "len" and ks and ks[0] in (BS, BSN):
            return ("bd" if ks[0] == BS and not self.nosup else "bdn", 0)
        return None

    def const(self, x):
        try:
            return ast.literal_eval(x)
        except (ValueError, TypeError, SyntaxError):
            return MISSING

    def reduce(self, e, k, ax):
        q = self.k(ax) if ax is not None else None
        if self.sup and not self.nosup:
            v = self.const(ax) if ax is not None else None
            self.saw("P14.sup")
            if ax is None or v is None:
                self.sink("P14.sup", e, "sums over everything where only the superposition is meant")
            elif isinstance(q, tuple) and q and q[0] == "bd" and q[1] != -1 or isinstance(q, tuple) and q and q[0] == "bdn" and q[1] != 0:
                self.sink("P14.sup", e, "sums an axis that is not that of the superposition (the last of the batch)")
            elif isinstance(v, int) and (v >= 0 or is_b(k) and k[1] is not None and v != -k[1] - 1):
                self.sink("P14.sup", e, "sums an axis that is not that of the superposition (the last of the batch)")
            return FA if not is_b(k) or k[1] is None else k
        if not is_b(k):
            return ("U", None) if is_u(k) else FA if k == FA else None
        self.saw("P14.axes")
        if isinstance(q, tuple) and q and q[0] in ("bd", "bdn"):
            if q[1] < 0:
                self.sink("P14.axes", e, "reduces over a batch axis")
            return B(None if k[1] is None else k[1] - 1)
        if ax is None or isinstance(ax, ast.Constant) and ax.value is None:
            if not self.f.name.startswith("is_"):
                self.sink("P14.axes", e, "reduces over the batch too")
            return SCALAR
        v = self.const(ax)
        if v is MISSING:
            return B(None)
        vs = [v] if isinstance(v, int) else list(v)
        if any(x >= 0 for x in vs):
            self.sink("P14.axes", e, "reduces over a batch axis")
            return B(None)
        if k[1] is not None:
            if any(-x > k[1] for x in vs):
                self.sink("P14.axes", e, f"reduces over axis {min(vs)} of a batched array of {k[1]} core axes, which is one of the batch")
                return B(None)
            return B(k[1] - len(vs))
        return B(None)

    def kw(self, e, n, i):
        for x in e.keywords:
            if x.arg == n:
                return x.value
        return e.args[i] if i is not None and i < len(e.args) else None

    def made(self, k):
        """The array of a given shape."""
        if k == BS:
            return B(0)
        if isinstance(k, tuple) and k:
            if k[0] == "full":
                return B(k[1])
            if k[0] == "tup":
                return ("U", len(k[1]))
            if k[0] == "sh":
                return k[1]
        return None

    def lib(self, e, nm):
        if nm == "einsum":
            return self.einsum(e)
        if nm in ("zeros", "ones", "full", "empty"):
            for x in e.args[1:]:
                self.k(x)
            return self.made(self.k(e.args[0])) if e.args else None
        if nm in ("reshape", "broadcast_to"):
            if len(e.args) < 2:
                return None
            a, s = self.k(e.args[0]), self.k(e.args[1])
            if a == FA:
                self.saw("P14.sup")
                if isinstance(s, tuple) and s and (s == BS or s[0] == "full") and not self.nosup:
                    self.sink("P14.sup", e, "gives a Fock array, whose superposition is summed, the batch shape of before the sum")
                return None
            m = self.made(s)
            if is_b(a) and nm == "broadcast_to" and is_b(m) and a[1] is not None and m[1] is not None:
                self.saw("P14.align")
                if a[1] != m[1]:
                    self.sink("P14.align", e, f"broadcasts a batched array of {a[1]} core axes to one of {m[1]}, so that its batch axes meet core axes")
            if is_b(a) and is_u(m):
                return None
            return m
        args = [self.k(x.value if isinstance(x, ast.Starred) else x) for x in e.args]
        for x in e.keywords:
            self.k(x.value)
        star = any(isinstance(x, ast.Starred) for x in e.args)
        a = args[0] if args else None
        if nm in UNIT:
            return ("U", UNIT[nm])
        if nm == "eye_like":
            return ("U", 2)
        if a == FA and (nm in SAME or nm in ("diagonal", "pad", "flip")):
            return FA
        if nm in SAME:
            xs = args[:1] if nm in ("cast", "astensor", "sqrt", "array", "asarray", "sqrtm", "clip", "sort") else args
            if star:
                return None
            if nm in ("astensor", "array", "asarray") and a is not None and not arr(a):
                return ("U", None) if a[0] == "tup" and all(is_u(x) and x[1] == 0 for x in a[1]) else None
            xs = [x for x in xs]
            if len(xs) == 1:
                return xs[0] if arr(xs[0]) else None
            if all(arr(x) for x in xs) and len(xs) > 1:
                self.saw("P14.align")
                return self.align(e, xs)
            return None
        if nm == "broadcast_arrays":
            ks = [x for x in args if x is not None]
            return ("tup", tuple(B(x[1]) if arr(x) else None for x in args)) if not star and ks else None
        if nm in REDUCE:
            return self.reduce(e, a, self.kw(e, "axis" if self.kw(e, "axes", None) is None else "axes", 1))
        if nm == "det":
            return (a[0], 0) if arr(a) else None
        if nm in ("eigvals", "diag_part"):
            if nm == "diag_part" and is_b(a):
                self.saw("P14.axes")
            return (a[0], 1) if arr(a) and a[1] == 2 else (a[0], None) if arr(a) else None
        if nm == "matvec" and len(args) == 2:
            b = args[1]
            if arr(a) and arr(b) and (is_b(a) or is_b(b)):
                self.saw("P14.align")
                if a[1] not in (2, None) or b[1] not in (1, None):
                    self.sink("P14.align", e, f"a matrix of {a[1]} and a vector of {b[1]} core axes")
                return B(1)
            return None
        if nm == "solve" and len(args) == 2:
            b = args[1]
            if arr(a) and arr(b):
                return B(b[1]) if is_b(a) or is_b(b) else b
            return None
        if nm == "matmul" and not star:
            k = a
            for b in args[1:]:
                k = self.matmul(e, k, b)
            return k
        if nm == "gather":
            ax = self.kw(e, "axis", 2)
            if is_b(a):
                self.saw("P14.axes")
                v = self.const(ax) if ax is not None else None
                if v is None or isinstance(v, int) and v >= 0:
                    self.sink("P14.axes", e, "picks from a batch axis")
                    return None
                if isinstance(v, int) and a[1] is not None and -v > a[1]:
                    self.sink("P14.axes", e, f"picks from axis {v} of a batched array of {a[1]} core axes, which is one of the batch")
            return a
        if nm in ("concat", "concatenate"):
            return self.concat(e, a, self.kw(e, "axis", 1))
        if nm == "block":
            ks = []
            if isinstance(a, tuple) and a and a[0] == "tup":
                for row in a[1]:
                    ks += list(row[1]) if isinstance(row, tuple) and row and row[0] == "tup" else [None]
            bs = [k for k in ks if is_b(k)]
            if bs:
                self.saw("P14.align")
                if any(is_u(k) and k[1] == 2 for k in ks):
                    self.sink("P14.align", e, "puts together batched blocks and blocks that are not")
            return B(2) if bs else ("U", 2) if ks and all(is_u(k) for k in ks) else None
        if nm == "stack":
            ks = list(a[1]) if isinstance(a, tuple) and a and a[0] == "tup" else [a[1]] if isinstance(a, tuple) and a and a[0] == "list" else []
            ax = self.kw(e, "axis", 1)
            if ks and any(is_b(k) for k in ks):
                self.saw("P14.axes")
                v = self.const(ax) if ax is not None else 0
                if v is not MISSING and isinstance(v, int):
                    r = self.align_only(ks)
                    if v >= 0:
                        self.sink("P14.axes", e, "stacks in front of the batch")
                        return None
                    if r is not None and -v > r + 1:
                        self.sink("P14.axes", e, f"stacks arrays of {r} core axes along axis {v}, in the middle of the batch")
                    return B(r + 1) if r is not None else B(None)
                r = self.align_only(ks)
                return B(r + 1) if r is not None else B(None)
            return None
        if nm == "expand_dims":
            v = self.const(self.kw(e, "axis", 1)) if self.kw(e, "axis", 1) is not None else MISSING
            if is_b(a):
                if isinstance(v, int) and v < 0 and a[1] is not None:
                    return B(a[1] + 1)
                return B(None)
            return None
        if nm in ("swapaxes", "moveaxis"):
            if is_b(a):
                self.saw("P14.axes")
                vs = [self.const(x) for x in e.args[1:3]]
                if all(isinstance(v, int) and v >= 0 for v in vs) and len(vs) == 2:
                    self.sink("P14.axes", e, "moves a batch axis")
            return a
        if nm == "transpose":
            if a == FA:
                self.saw("P14.sup")
                q = self.k(self.kw(e, "perm", 1)) if self.kw(e, "perm", 1) is not None else None
                if isinstance(q, tuple) and q and q[0] == "axes" and q[1] is True and not self.nosup:
                    self.sink("P14.sup", e, "counts the batch axes of a Fock array, whose superposition is summed, as before the sum")
                return FA
            if is_b(a):
                self.saw("P14.axes")
                if len(e.args) == 1 and not e.keywords:
                    self.sink("P14.axes", e, "transposes the batch axes too")
                    return a
                v = self.const(self.kw(e, "perm", 1)) if self.kw(e, "perm", 1) is not None else MISSING
                q = self.k(self.kw(e, "perm", 1)) if self.kw(e, "perm", 1) is not None else None
                if q == ("axes", "fixed"):
                    self.sink("P14.axes", e, "counts axes from the front as if it were known how many are batch")
                if isinstance(v, (tuple, list)) and a[1] is not None and len(v) == a[1] and all(isinstance(x, int) for x in v):
                    self.sink("P14.axes", e, "transposes an array as if it had no batch axes")
                return B(a[1])
            return a
        if nm in FLAT:
            if nm == "kron" and len(args) == 2 and is_b(args[0]) and is_u(args[1]):
                return args[0] if args[0][1] == args[1][1] else B(None)
            if any(is_b(x) for x in args):
                if nm == "trace" and nm == "trace":
                    return (a[0], 0) if arr(a) and a[1] == 2 else None
                self.saw("P14.axes")
                self.sink("P14.axes", e, f"`{nm}` knows nothing of batch axes")
            return None
        if nm == "dagger":
            if is_b(a):
                self.saw("P14.axes")
                self.sink("P14.axes", e, "swaps batch axes with core axes")
            return a
        return None

    def align_only(self, ks):
        rs = {k[1] for k in ks if arr(k)}
        return next(iter(rs)) if len(rs) == 1 and all(arr(k) for k in ks) else None

    def concat(self, e, a, ax):
        ks = list(a[1]) if isinstance(a, tuple) and a and a[0] == "tup" else [a[1]] if isinstance(a, tuple) and a and a[0] == "list" else []
        if not any(is_b(k) for k in ks):
            return None
        self.saw("P14.axes")
        v = self.const(ax) if ax is not None else MISSING
        rs = {k[1] for k in ks if is_b(k) and k[1] is not None}
        if len(rs) == 1 and any(is_u(k) and k[1] in rs for k in ks):
            self.saw("P14.align")
            self.sink("P14.align", e, "joins batched arrays and arrays that are not")
        if len(rs) > 1:
            self.saw("P14.align")
            self.sink("P14.align", e, f"joins batched arrays of {min(rs)} and {max(rs)} core axes")
            return B(None)
        r = next(iter(rs)) if len(rs) == 1 and all(arr(k) for k in ks) else None
        if isinstance(v, int):
            if v >= 0:
                self.sink("P14.axes", e, "joins along a batch axis")
                return None
            if rs and -v > next(iter(rs)):
                self.sink("P14.axes", e, f"joins along axis {v} arrays of {next(iter(rs))} core axes, which is one of the batch")
                return None
        return B(r)

    def einsum(self, e):
        if not e.args:
            return None
        s = self.const(e.args[0])
        ks = [self.k(x.value if isinstance(x, ast.Starred) else x) for x in e.args[1:]]
        if not isinstance(s, str) or any(isinstance(x, ast.Starred) for x in e.args[1:]):
            return None
        ins, _, out = s.replace(" ", "").partition("->")
        ins = ins.split(",")
        if not any(is_b(k) for k in ks):
            return None
        self.saw("P14.axes")
        if len(ins) != len(ks):
            return None
        for i, k in zip(ins, ks):
            n = len(i.replace("...", ""))
            if is_b(k) and "..." not in i and k[1] is not None:
                if n <= k[1] or n == k[1]:
                    self.sink("P14.axes", e, f"`{i}` leaves no room for the batch axes")
                    return None
            if is_b(k) and k[1] is not None and "..." in i and n != k[1]:
                self.saw("P14.align")
                self.sink("P14.align", e, f"`{i}` names {n} axes of a batched array of {k[1]} core axes")
                return B(len(out.replace("...", "")))
        if any("..." in i for i in ins) and "..." not in out:
            self.sink("P14.axes", e, "sums over the batch")
            return None
        return B(len(out.replace("...", ""))) if all("..." in i for i, k in zip(ins, ks) if is_b(k)) else None


# ---- P14.kept -------------------------------------------------------------------------------------

DATA = {"A", "b", "c", "triple", "_A", "_b", "_c", "_original_abc_data"}


def kept(prog, rep):
    """An ansatz built from the data of another keeps its batch dimensions and its superposition."""
    for f in prog.funcs:
        if isinstance(f.node, ast.Lambda) or f.outer is not None or not f.module.name.startswith("mrmustard."):
            continue
        inside = f.module.name.startswith("mrmustard.physics.ansatz") or f.module.name == "mrmustard.physics.mm_einsum"
        if not (inside or f.module.name.startswith("mrmustard.lab")):
            continue
        src = {}

        def tags(e, seen=()):
            out = set()
            for n in ast.walk(e):
                if isinstance(n, ast.Attribute):
                    if n.attr == "_lin_sup":
                        out.add("sup")
                    elif n.attr in ("batch_dims", "batch_shape", "ndim"):
                        out.add("dims")
                    elif n.attr in DATA and not (isinstance(n.value, ast.Name) and n.value.id in ("math", "np")):
                        out.add("abc")
                    elif n.attr in ("array", "_array"):
                        out.add("array")
                if isinstance(n, ast.Name) and n.id not in seen:
                    if n.id in ("lin_sup",):
                        out.add("sup")
                    if n.id in ("batch_dims",):
                        out.add("dims")
                    for v in src.get(n.id, ()):
                        out |= tags(v, (*seen, n.id))
            return out

        tests = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            src.setdefault(x.id, []).append(n.value)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(n.target, ast.Name) and n.value is not None:
                src.setdefault(n.target.id, []).append(n.value)
            if isinstance(n, (ast.If, ast.IfExp)) and "_lin_sup" in ast.unparse(n.test):
                tests.append(n)

        for e in ast.walk(f.node):
            if not isinstance(e, ast.Call):
                continue
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
            kws = {k.arg for k in e.keywords}
            if nm == "PolyExpAnsatz" and None not in kws:
                if not e.args and not e.keywords:
                    continue
                parts = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords if k.arg in ("A", "b", "c")]
                t = [tags(p) for p in parts]
                whole = inside and any("abc" in x for x in t) or any(isinstance(p, ast.Attribute) and p.attr == "triple" for p in parts)
                if f.name == "from_function" or not whole or "_original_abc_data" in " ".join(ast.unparse(p) for p in parts):
                    continue
                if not inside and not any(isinstance(p, ast.Attribute) and p.attr == "triple" for p in parts):
                    continue
                # the data recorded with an array is never that of a superposition
                if f.module.name == "mrmustard.physics.mm_einsum" and all(_recorded(src, p) for p in parts):
                    continue
                rep.ob("P14.kept", f"{f.short()}#{e.lineno}")
                given = [k.value for k in e.keywords if k.arg == "lin_sup"] + list(e.args[3:4])
                ok = any("sup" in tags(g) or isinstance(g, ast.Constant) and g.value is True for g in given) or any(e in set(ast.walk(x)) for x in tests)
                if not ok:
                    rep.find("P14.kept", f"{f.short()}:{nm}:lin_sup", f.where(e), f"an ansatz made from the data of another is not told whether it is a superposition: `{' '.join(ast.unparse(e).split())[:90]}`")
            elif nm == "ArrayAnsatz":
                parts = list(e.args[:1]) + [k.value for k in e.keywords if k.arg == "array"]
                if not parts or isinstance(parts[0], ast.Constant):
                    continue
                t = tags(parts[0])
                if not (t & {"array", "abc"} or "fock_array" in ast.unparse(parts[0])):
                    continue
                given = [k.value for k in e.keywords if k.arg == "batch_dims"] + list(e.args[1:2])
                rep.ob("P14.kept", f"{f.short()}#{e.lineno}")
                if not given or isinstance(given[0], ast.Constant):
                    rep.find("P14.kept", f"{f.short()}:{nm}:batch_dims", f.where(e), f"an array made from that of another ansatz is not told how many of its axes are batch: `{' '.join(ast.unparse(e).split())[:90]}`")
            elif nm == "from_bargmann" and e.args:
                parts = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
                if not any(isinstance(p, ast.Attribute) and p.attr == "triple" for p in parts):
                    continue
                if "state" not in ast.unparse(e.func).lower() and not (isinstance(e.func, ast.Attribute) and ast.unparse(e.func.value) in ("Ket", "DM", "State", "cls", "self")):
                    continue
                rep.ob("P14.kept", f"{f.short()}#{e.lineno}")
                given = [k.value for k in e.keywords if k.arg == "lin_sup"]
                if not any("sup" in tags(g) or isinstance(g, ast.Constant) and g.value is True for g in given):
                    rep.find("P14.kept", f"{f.short()}:{nm}:lin_sup", f.where(e), f"a state made from the data of another is not told whether it is a superposition: `{' '.join(ast.unparse(e).split())[:90]}`")


def _recorded(src, p):
    """Whether a value comes from what an array recorded of its origin, which is never a superposition."""
    if not isinstance(p, ast.Name):
        return False
    vs = [ast.unparse(v) for v in src.get(p.id, ())]
    return any("_original_abc_data" in v for v in vs)
