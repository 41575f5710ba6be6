"""Normal forms of the two implementations of an operation of ``math``, and their definite differences.

A term is a tuple: ("p", i) the i-th argument, ("c", value), ("call", head, positional, {keyword}), ("if", test, then, else),
("sub", base, index), ("bin", op, l, r), ("un", op, x), ("tuple", items), ("attr", base, name), ("?", text).
Terms that are built differently are not compared: only a difference at the same place of the same construction counts.
"""

import ast

from ..model import Func, dotted

NUMERIC = ("numpy", "jax", "scipy")
SYN = {
    "absolute": "abs", "conjugate": "conj", "concatenate": "concat", "asarray": "array", "astensor": "array", "power": "pow", "loggamma": "lgamma", "gammaln": "lgamma",
    "amax": "max", "amin": "min", "remainder": "mod", "take": "gather", "negative": "neg", "matrix_transpose": "mT", "divide": "truediv", "true_divide": "truediv", "product": "prod",
}
NEUTRAL = {"tuple", "list", "array", "asnumpy", "int", "float", "complex", "bool", "ascontiguousarray"}
DISTINCT = {
    "all", "any", "max", "min", "sum", "prod", "mean", "abs", "real", "imag", "conj", "exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "sqrt", "floor", "ceil", "round", "sign", "mod", "fmod",
    "maximum", "minimum", "eigh", "eigvals", "eigvalsh", "det", "inv", "pinv", "zeros", "ones", "expm", "logm", "sqrtm", "neg", "square", "cumsum", "cumprod", "argmax", "argmin",
    "median", "std", "var", "kron", "outer", "log2", "log10", "log1p", "expm1", "arcsin", "arccos", "arctan", "nanmax", "nansum", "triu", "tril", "isnan", "isinf", "isfinite",
}
METHODS = {"all", "any", "max", "min", "sum", "prod", "mean", "conj", "conjugate", "reshape", "transpose", "swapaxes", "astype", "flatten", "ravel", "trace", "dot", "round", "sort", "take", "diagonal", "squeeze"}
SIG = {
    "sum": ("a", "axis"), "prod": ("a", "axis"), "max": ("a", "axis"), "min": ("a", "axis"), "all": ("a", "axis"), "any": ("a", "axis"), "mean": ("a", "axis"), "norm": ("a", "ord", "axis"),
    "sort": ("a", "axis"), "diag": ("v", "k"), "trace": ("a", "offset", "axis1", "axis2"), "diagonal": ("a", "offset", "axis1", "axis2"), "stack": ("a", "axis"), "concat": ("a", "axis"),
    "gather": ("a", "indices", "axis"), "expand_dims": ("a", "axis"), "transpose": ("a", "axes"), "moveaxis": ("a", "source", "destination"), "swapaxes": ("a", "axis1", "axis2"), "eye": ("N", "M", "k"),
    "allclose": ("a", "b", "rtol", "atol"), "clip": ("a", "a_min", "a_max"), "tile": ("A", "reps"), "reshape": ("a", "shape"), "tensordot": ("a", "b", "axes"), "pad": ("array", "pad_width", "mode"),
    "arange": ("start", "stop", "step"), "full_like": ("a", "fill_value"), "broadcast_to": ("array", "shape"), "argsort": ("a", "axis"), "flip": ("a", "axis"), "roll": ("a", "shift", "axis"),
}
DEFAULT = {
    "sum": {"axis": None}, "prod": {"axis": None}, "max": {"axis": None}, "min": {"axis": None}, "all": {"axis": None}, "any": {"axis": None}, "mean": {"axis": None}, "norm": {"ord": None, "axis": None},
    "sort": {"axis": -1}, "argsort": {"axis": -1}, "diag": {"k": 0}, "trace": {"offset": 0, "axis1": 0, "axis2": 1}, "diagonal": {"offset": 0, "axis1": 0, "axis2": 1}, "stack": {"axis": 0}, "concat": {"axis": 0},
    "gather": {"axis": None}, "transpose": {"axes": None}, "eye": {"M": None, "k": 0}, "flip": {"axis": None}, "allclose": {"rtol": 1e-05, "atol": 1e-08}, "tensordot": {"axes": 2}, "roll": {"axis": None},
}
UNORDERED = {"trace": ("axis1", "axis2"), "swapaxes": ("axis1", "axis2"), "diagonal": ("axis1", "axis2")}
SKIPPED_KW = {"dtype", "out", "where", "initial", "mode", "precision", "casting", "optimize"}


class Terms:
    def __init__(self, prog, cls, opaque=()):
        self.prog, self.cls, self.opaque = prog, cls, opaque

    def of(self, m):
        ps = [p.name for p in m.params]
        if m.kind in ("method", "classmethod") and ps:
            ps = ps[1:]
        env = {n: ("p", i) for i, n in enumerate(ps)}
        for p in m.params:
            if getattr(p, "vararg", False):
                return None
        r = self.block(m, m.body, env, 0)
        return r[1] if r and r[0] == "ret" else None

    # ---- statements --------------------------------------------------------------------------

    def block(self, f, body, env, depth):
        """("ret", term) | ("env", env) | ("raise",) | None (not understood)"""
        for i, s in enumerate(body):
            if isinstance(s, ast.Return):
                return ("ret", self.t(f, s.value, env, depth) if s.value is not None else ("c", None))
            if isinstance(s, ast.Raise):
                return ("raise",)
            if isinstance(s, ast.Expr):
                if isinstance(s.value, ast.Constant):
                    continue
                return None
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                v = self.t(f, s.value, env, depth)
                env = self.bind(s.targets[0], v, env)
                if env is None:
                    return None
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                env = self.bind(s.target, self.t(f, s.value, env, depth), env)
                if env is None:
                    return None
            elif isinstance(s, ast.If):
                c = self.t(f, s.test, env, depth)
                a = self.block(f, s.body, dict(env), depth)
                b = self.block(f, s.orelse, dict(env), depth)
                if a is None or b is None:
                    return None
                if a[0] == "raise" and b[0] == "raise":
                    return ("raise",)
                if a[0] == "raise":
                    a = b
                    b = b if b[0] == "ret" else b
                    if b[0] == "ret":
                        return b
                    env = b[1]
                    continue
                if b[0] == "raise":
                    if a[0] == "ret":
                        return a
                    env = a[1]
                    continue
                if a[0] == "ret" or b[0] == "ret":
                    rest = body[i + 1 :]
                    if a[0] == "env":
                        a = self.block(f, rest, a[1], depth)
                    if b[0] == "env":
                        b = self.block(f, rest, b[1], depth)
                    if a is None or b is None:
                        return None
                    if a[0] == "raise":
                        return b
                    if b[0] == "raise":
                        return a
                    if a[0] != "ret" or b[0] != "ret":
                        return None
                    return ("ret", cond(c, a[1], b[1]))
                e1, e2 = a[1], b[1]
                env = {n: e1[n] if e1[n] == e2[n] else cond(c, e1[n], e2[n]) for n in e1.keys() & e2.keys()}
            elif isinstance(s, ast.With):
                r = self.block(f, s.body, env, depth)
                if r is None or r[0] != "env":
                    return r
                env = r[1]
            else:
                return None
        return ("env", env)

    def bind(self, t, v, env):
        env = dict(env)
        if isinstance(t, ast.Name):
            env[t.id] = v
            return env
        if isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in t.elts):
            for i, x in enumerate(t.elts):
                env[x.id] = item(v, i)
            return env
        return None

    # ---- expressions -------------------------------------------------------------------------

    def t(self, f, e, env, depth):
        if isinstance(e, ast.Name):
            return env.get(e.id, ("?", e.id))
        if isinstance(e, ast.Constant):
            return ("c", e.value.lower() if isinstance(e.value, str) else e.value) if e.value is not Ellipsis else ("?", "...")
        if isinstance(e, (ast.Tuple, ast.List)):
            return ("tuple", tuple(self.t(f, x, env, depth) for x in e.elts))
        if isinstance(e, ast.Starred):
            return ("star", self.t(f, e.value, env, depth))
        if isinstance(e, ast.UnaryOp):
            x = self.t(f, e.operand, env, depth)
            if isinstance(e.op, ast.USub) and x[0] == "c" and isinstance(x[1], (int, float)):
                return ("c", -x[1])
            return ("un", type(e.op).__name__, x)
        if isinstance(e, ast.BinOp):
            return ("bin", type(e.op).__name__, self.t(f, e.left, env, depth), self.t(f, e.right, env, depth))
        if isinstance(e, ast.IfExp):
            return cond(self.t(f, e.test, env, depth), self.t(f, e.body, env, depth), self.t(f, e.orelse, env, depth))
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            return ("cmp", type(e.ops[0]).__name__, self.t(f, e.left, env, depth), self.t(f, e.comparators[0], env, depth))
        if isinstance(e, ast.Subscript):
            return ("sub", self.t(f, e.value, env, depth), self.index(f, e.slice, env, depth))
        if isinstance(e, ast.Attribute):
            if self.library(f, e):
                return ("?", e.attr)
            return ("attr", self.t(f, e.value, env, depth), e.attr)
        if isinstance(e, ast.Call):
            return self.call(f, e, env, depth)
        return ("?", ast.unparse(e))

    def index(self, f, e, env, depth):
        if isinstance(e, ast.Tuple):
            return ("tuple", tuple(self.index(f, x, env, depth) for x in e.elts))
        if isinstance(e, ast.Slice):
            return ("slice", *(self.t(f, x, env, depth) if x is not None else ("c", None) for x in (e.lower, e.upper, e.step)))
        return self.t(f, e, env, depth)

    def library(self, f, e):
        r = self.prog.resolve_expr(f.module, e)
        return r[1] if isinstance(r, tuple) and r and r[0] == "ext" else None

    def call(self, f, e, env, depth):
        if any(k.arg is None for k in e.keywords):
            return ("?", ast.unparse(e))
        args = tuple(self.t(f, a, env, depth) for a in e.args)
        kw = {k.arg: self.t(f, k.value, env, depth) for k in e.keywords}
        full = self.library(f, e.func) if dotted(e.func) and not (isinstance(e.func, ast.Name) and e.func.id in env) else None
        if full == "jax.lax.cond" and len(e.args) >= 3:
            rest = args[3:]
            return cond(args[0], self.apply(f, e.args[1], args[1], rest, env, depth), self.apply(f, e.args[2], args[2], rest, env, depth))
        if full is not None and full.split(".")[0] in NUMERIC:
            head = full.split(".")[-1]
            return ("call", SYN.get(head, head), args, kw)
        if isinstance(e.func, ast.Name):
            if e.func.id in env:
                return ("call", env[e.func.id], args, kw)
            g = f.module.names.get(e.func.id)
            if isinstance(g, Func) and g not in self.opaque and depth < 3 and not isinstance(g.node, ast.Lambda) and g.module is f.module:
                r = self.inline(g, [p.name for p in g.params], args, kw, depth)
                if r is not None:
                    return r
            return ("call", SYN.get(e.func.id, e.func.id), args, kw)
        if isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Name) and e.func.value.id == "self":
                g, _ = self.cls.lookup(e.func.attr)
                if isinstance(g, Func) and e.func.attr.startswith("_") and depth < 3:
                    ps = [p.name for p in g.params]
                    r = self.inline(g, ps[1:] if g.kind != "staticmethod" else ps, args, kw, depth)
                    if r is not None:
                        return r
                return ("call", SYN.get(e.func.attr, e.func.attr), args, kw)
            if e.func.attr in METHODS and not self.library(f, e.func.value):
                base = self.t(f, e.func.value, env, depth)
                if not (base[0] == "?" and isinstance(e.func.value, ast.Name)):
                    return ("call", SYN.get(e.func.attr, e.func.attr), (base, *args), kw)
            return ("call", dotted(e.func) or "?", (self.t(f, e.func.value, env, depth), *args), kw) if dotted(e.func) is None else ("call", dotted(e.func), args, kw)
        return ("?", ast.unparse(e))

    def inline(self, g, names, args, kw, depth):
        if len(args) > len(names) or any(k not in names for k in kw):
            return None
        env = dict(zip(names, args)) | kw
        for p in g.params:
            if p.name in names and p.name not in env:
                if not isinstance(p.default, ast.Constant):
                    return None
                env[p.name] = ("c", p.default.value)
        r = self.block(g, g.body, env, depth + 1)
        return r[1] if r and r[0] == "ret" else None

    def apply(self, f, node, term, rest, env, depth):
        if isinstance(node, ast.Lambda):
            names = [a.arg for a in node.args.args]
            return self.t(f, node.body, env | dict(zip(names, rest)), depth)
        return ("call", term, tuple(rest), {})


def cond(c, a, b):
    while c[0] == "un" and c[1] == "Not":
        c, a, b = c[2], b, a
    if c[0] == "cmp" and c[1] in ("IsNot", "NotEq", "NotIn"):
        c = ("cmp", {"IsNot": "Is", "NotEq": "Eq", "NotIn": "In"}[c[1]], *c[2:])
        a, b = b, a
    return a if a == b else ("if", c, a, b)


def item(v, i):
    if v[0] == "tuple" and i < len(v[1]) and all(x[0] != "star" for x in v[1]):
        return v[1][i]
    if v[0] == "if":
        return cond(v[1], item(v[2], i), item(v[3], i))
    return ("sub", v, ("c", i))


def strip(a):
    while a[0] == "call" and a[1] in NEUTRAL and len(a[2]) == 1:
        a = a[2][0]
    return a


def clean(a):
    """Without the wrappers that change no value."""
    if not isinstance(a, tuple):
        return a
    if a and a[0] == "call":
        a = strip(a)
    if a and a[0] == "call":
        return ("call", clean(a[1]) if isinstance(a[1], tuple) else a[1], tuple(clean(x) for x in a[2]), tuple(sorted((k, clean(v)) for k, v in a[3].items() if k not in SKIPPED_KW)) if isinstance(a[3], dict) else a[3])
    return tuple(clean(x) if isinstance(x, tuple) else x for x in a)


def roots(a):
    if not isinstance(a, tuple):
        return frozenset()
    if a and a[0] == "p" and len(a) == 2 and isinstance(a[1], int):
        return frozenset([a[1]])
    out = frozenset()
    for x in a:
        if isinstance(x, tuple):
            out |= roots(x)
    return out


def same(a, b):
    return a == b or a[:1] == b[:1] == ("bin",) and a[1] == b[1] and a[1] in ("Add", "Mult") and {repr(a[2]), repr(a[3])} == {repr(b[2]), repr(b[3])}


def text(a, names):
    if not isinstance(a, tuple) or not a:
        return str(a)
    k = a[0]
    if k == "p":
        return names[a[1]] if a[1] < len(names) else f"arg{a[1]}"
    if k == "c":
        return repr(a[1])
    if k == "call":
        h = a[1] if isinstance(a[1], str) else text(a[1], names)
        return f"{h}({', '.join([text(x, names) for x in a[2]] + [f'{n}={text(v, names)}' for n, v in a[3]])})"
    if k == "un":
        return {"USub": "-", "Not": "not "}.get(a[1], a[1]) + text(a[2], names)
    if k == "bin":
        return f"{text(a[2], names)} {({'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'Pow': '**', 'MatMult': '@'}).get(a[1], a[1])} {text(a[3], names)}"
    if k == "sub":
        return f"{text(a[1], names)}[{text(a[2], names)}]"
    if k == "tuple":
        return ", ".join(text(x, names) for x in a[1])
    if k == "attr":
        return f"{text(a[1], names)}.{a[2]}"
    if k == "if":
        return f"{text(a[2], names)} if {text(a[1], names)} else {text(a[3], names)}"
    if k == "slice":
        return ":".join("" if x == ("c", None) else text(x, names) for x in a[1:])
    return str(a[-1]) if not isinstance(a[-1], tuple) else k


def transformed(a, b):
    """`b` is a definite change of `a`."""
    if b[0] == "un" and b[1] in ("USub", "Not") and same(b[2], a):
        return True
    if b[0] == "call" and b[1] in ("conj", "real", "imag", "abs", "neg", "exp", "log", "sqrt", "sort", "flip", "roll", "square") and b[2] and same(b[2][0], a):
        return True
    if b[0] == "sub" and same(b[1], a) and (b[2][0] == "slice" and b[2][3][0] == "c" and b[2][3][1] not in (None, 1)):
        return True
    if b[0] == "if":
        return all(transformed(a, x) or x == ("c", None) for x in b[2:]) and any(transformed(a, x) for x in b[2:])
    if b[0] == "bin" and (b[3] in (("c", 1), ("c", 1.0)) and b[1] in ("Mult", "Div", "Pow") or b[3] in (("c", 0), ("c", 0.0)) and b[1] in ("Add", "Sub")):
        return False
    return b[0] == "bin" and b[1] in ("Add", "Sub", "Mult", "Div", "Pow") and on_spine(a, b)


def on_spine(a, b):
    if same(a, b):
        return True
    return b[0] == "bin" and b[1] in ("Add", "Sub", "Mult", "Div", "Pow") and (on_spine(a, b[2]) or b[1] in ("Add", "Mult") and on_spine(a, b[3]))


def diff(a, b, out, seen):
    """Definite differences of two cleaned terms; counts what was compared in `seen`."""
    if same(a, b):
        seen.append(a)
        return
    a, b = picked(a, b), picked(b, a)
    ka, kb = a[0], b[0]
    if ka == kb == "call":
        return diff_calls(a, b, out, seen)
    if ka == kb == "if":
        if same(a[1], b[1]):
            if same(a[2], b[3]) and same(a[3], b[2]):
                out.append((a, b))
                return
            diff(a[2], b[2], out, seen)
            diff(a[3], b[3], out, seen)
        elif same(a[2], b[2]) and same(a[3], b[3]):
            diff(a[1], b[1], out, seen)
        return
    if ka == kb == "sub":
        if same(a[1], b[1]):
            if a[2][0] == "c" == b[2][0] and a[2] != b[2] or a[2][0] == b[2][0] == "slice" and all(x[0] == "c" for x in (*a[2][1:], *b[2][1:])):
                out.append((a, b))
        elif same(a[2], b[2]):
            diff(a[1], b[1], out, seen)
        return
    if ka == kb == "tuple":
        if len(a[1]) == len(b[1]):
            for x, y in zip(a[1], b[1]):
                diff(x, y, out, seen)
        return
    if ka == kb == "bin":
        if a[1] == b[1]:
            if a[1] in ("Add", "Mult"):
                la, lb = [repr(a[2]), repr(a[3])], [repr(b[2]), repr(b[3])]
                common = [i for i, x in enumerate(la) if x in lb]
                if len(common) == 1:
                    diff(a[3 - common[0]], b[2 + 1 - lb.index(la[common[0]])], out, seen)
                return
            if same(a[2], b[2]):
                diff(a[3], b[3], out, seen)
            elif same(a[3], b[3]):
                diff(a[2], b[2], out, seen)
            return
        if same(a[2], b[2]) and same(a[3], b[3]) or on_spine(a, b) or on_spine(b, a):
            out.append((a, b))
        return
    if ka == kb == "un":
        if a[1] == b[1]:
            diff(a[2], b[2], out, seen)
        return
    if ka == kb == "attr":
        if a[2] == b[2]:
            diff(a[1], b[1], out, seen)
        return
    if ka == kb == "cmp":
        if same(a[2], b[2]) and same(a[3], b[3]) and a[1] != b[1]:
            out.append((a, b))
        elif a[1] == b[1] and same(a[2], b[2]):
            diff(a[3], b[3], out, seen)
        elif a[1] == b[1] and same(a[3], b[3]):
            diff(a[2], b[2], out, seen)
        return
    leaf(a, b, out)


def picked(a, b):
    """The call whose one component `a` is, when `b` is the result of another call."""
    x, y = a, b
    if x[0] == "sub" and x[2][0] == "c":
        x = x[1]
    if y[0] == "sub" and y[2][0] == "c":
        y = y[1]
    return x if x[0] == y[0] == "call" and x[1] != y[1] else a


def leaf(a, b, out):
    if a[0] == "c" == b[0]:
        if a[1] != b[1] or type(a[1]) is bool and type(b[1]) is not bool:
            out.append((a, b))
    elif a[0] == "p" == b[0]:
        out.append((a, b))
    elif transformed(a, b) or transformed(b, a):
        out.append((a, b))
    elif roots(a) and roots(b) and not roots(a) & roots(b):
        out.append((a, b))
    elif a[0] == "c" and b[0] == "p" or a[0] == "p" and b[0] == "c":
        out.append((a, b))


def named(c):
    sig = SIG.get(c[1], ()) if isinstance(c[1], str) else ()
    kw = dict(c[3])
    pos = list(c[2])
    if any(x[0] == "star" for x in pos):
        return None
    out = {}
    for i, x in enumerate(pos):
        out[sig[i] if i < len(sig) else i] = x
    alias = {"a": ("array", "x", "arrays", "tensor"), "axes": ("perm",)}
    for k, v in kw.items():
        for n, al in alias.items():
            if k in al and n in sig:
                k = n
        out[k] = v
    return out


def diff_calls(a, b, out, seen):
    if a[1] != b[1]:
        if isinstance(a[1], tuple) and isinstance(b[1], tuple):
            if a[2] == b[2]:
                diff(a[1], b[1], out, seen)
            return
        if a[1] in DISTINCT and b[1] in DISTINCT and roots(a) == roots(b):
            out.append((a, b))
            return
        if transformed(a, b) or transformed(b, a):
            out.append((a, b))
            return
        # other functions: what is computed from the same arguments is compared
        xs, ys = ([x for x in (*c[2], *(v for _, v in c[3])) if roots(x)] for c in (a, b))
        for x in list(xs):
            if x in ys:
                xs.remove(x)
                ys.remove(x)
                seen.append(x)
        for r in {roots(x) for x in xs}:
            p, q = [x for x in xs if roots(x) == r], [y for y in ys if roots(y) == r]
            if len(p) == len(q):
                for x, y in zip(p, q):
                    diff(x, y, out, seen)
        return
    na, nb = named(a), named(b)
    if na is None or nb is None:
        return
    dflt = DEFAULT.get(a[1], {})
    un = UNORDERED.get(a[1])
    if un:
        va, vb = [[m.get(k, ("c", dflt[k]) if k in dflt else None) for k in un] for m in (na, nb)]
        if None not in va and None not in vb:
            if sorted(map(repr, va)) != sorted(map(repr, vb)) and all(x[0] == "c" for x in (*va, *vb)):
                out.append((a, b))
            na, nb = ({k: v for k, v in m.items() if k not in un} for m in (na, nb))
    seen.append(a)
    if {"a", "b"} <= na.keys() | nb.keys() or not any(isinstance(k, str) for k in na):
        keys = [k for k in na if k in nb]
        swapped = [(i, j) for i in keys for j in keys if str(i) < str(j) and not same(na[i], na[j]) and roots(na[i]) and roots(na[i]) == roots(nb[j]) and roots(na[j]) == roots(nb[i]) and roots(na[i]) != roots(na[j])]
        if swapped:
            if a[1] not in ("maximum", "minimum", "equal", "allclose"):
                out.append((a, b))
            return
    for k in na.keys() | nb.keys():
        x, y = na.get(k), nb.get(k)
        if k in SKIPPED_KW:
            continue
        if x is None or y is None:
            z = x if x is not None else y
            if k in dflt and z[0] == "c" and z[1] != dflt[k]:
                out.append((a, b))
            continue
        diff(x, y, out, seen)


def always_changed(a, i, changed=False, acc=None):
    """Whether every use of argument `i` as a value is changed the same definite way: the set of ways."""
    acc = set() if acc is None else acc
    if not isinstance(a, tuple) or not a:
        return acc
    if a == ("p", i):
        acc.add(changed)
        return acc
    k = a[0]
    if k == "if" or k == "cmp":
        for x in a[2:] if k == "if" else ():
            always_changed(x, i, changed, acc)
        return acc
    if k == "un" and a[1] == "USub":
        return always_changed(a[2], i, "-", acc)
    if k == "call" and a[1] in ("conj", "neg", "real", "imag"):
        for x in a[2]:
            always_changed(x, i, a[1], acc)
        return acc
    if k == "call" and a[1] == "abs" or k == "attr":
        return acc
    for x in a:
        if isinstance(x, tuple):
            always_changed(x, i, changed, acc)
    return acc
