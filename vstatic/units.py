"""Unit inference: how many powers of hbar an expression scales with.

A value abstracts a number or array by its *degree*: the exponent d such that rescaling the unit of
position and momentum by a factor k (so hbar by k**2) rescales the value by k**(2 d).  Constants have
degree 0, zero has any degree, sums and concatenations need equal degrees, products add them.  Shapes
of the declared inputs are fixed (two modes), so that integer expressions over shapes are constants.
A degree the analysis cannot derive is unknown and raises nothing.
"""

from __future__ import annotations

import ast
from fractions import Fraction

from .model import Class, Func, Module

ANY = "any"
MIX = "mix"
NOC = object()
HALF = Fraction(1, 2)


class D:
    """deg: Fraction, ANY (a zero), MIX (components of different degrees) or None (unknown)."""

    __slots__ = ("deg", "const", "items", "shape", "fn", "rec", "block")

    def __init__(self, deg=None, const=NOC, items=None, shape=None, fn=None, rec=None):
        self.deg = Fraction(deg) if isinstance(deg, (int, float)) else deg
        self.const = const
        self.items = items
        self.shape = shape
        self.fn = fn
        self.rec = rec
        self.block = None  # nested blocks of a stacked array: list of D

    @property
    def known(self):
        return isinstance(self.deg, Fraction)

    def scaled(self, deg, shape=None):
        return D(deg, shape=self.shape if shape is None else shape)

    def __repr__(self):
        return f"D({self.deg}{'' if self.const is NOC else f' ={self.const!r}'}{f' {self.items}' if self.items is not None else ''})"


UNK = D()


def total(v):
    """One degree for a value or a nested sequence of values."""
    if v is None:
        return None
    if v.items is not None:
        return join_deg([total(x) for x in v.items])
    return v.deg


def join_deg(ds):
    ds = list(ds)
    if any(d is None for d in ds):
        return None
    ks = {d for d in ds if d != ANY}
    if not ks:
        return ANY
    if len(ks) == 1:
        return ks.pop()
    return MIX


def merge(a, b):
    """Join of two branches."""
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        return D(items=[merge(x, y) for x, y in zip(a.items, b.items)])
    if a.fn is not None or b.fn is not None or a.rec is not None or b.rec is not None:
        return a if (a.fn, a.rec) == (b.fn, b.rec) else UNK
    da, db = total(a), total(b)
    if da == ANY:
        deg = db
    elif db == ANY:
        deg = da
    else:
        deg = da if da == db else None
    const = a.const if a.const is not NOC and b.const is not NOC and type(a.const) is type(b.const) and a.const == b.const else NOC
    return D(deg, const=const, shape=a.shape if a.shape == b.shape else None)


SAME = set(
    "reshape cast transpose conj conjugate dagger real imag abs fabs sum mean broadcast_to expand_dims squeeze diag_part diag "
    "astensor asarray array asnumpy sort flip tile repeat moveaxis swapaxes trace copy ravel flatten max min amax amin "
    "atleast_1d atleast_2d atleast_nd atleast_3d gather eigvals eigvalsh norm unique item set_diag real_if_close "
    "stop_gradient block_diag diagflat float complex ascontiguousarray nan_to_num make_complex round median".split()
)
FIRST_ONLY = set("reshape cast broadcast_to expand_dims tile repeat moveaxis transpose astensor sum mean norm swapaxes round".split())
ZERO = set(
    "ones eye J Xmat rotmat arange ones_like identity len range isclose allclose shape ndim int bool isinstance hasattr angle sign "
    "factorial comb sqrt_int arctan2 atan2 array_equal any all logical_and logical_or logical_not argsort argmax argmin "
    "argwhere floor ceil".split()
)
DIMLESS_ARG = set(
    "exp log log2 log10 sin cos tan sinh cosh tanh arcsin arccos arctan arcsinh arccosh arctanh expm lgamma xlogy gammaln erf".split()
)
JOIN = set("concat concatenate stack hstack vstack block where maximum minimum append broadcast_arrays meshgrid dstack linspace pad".split())
PROD = set("matmul matvec dot kron outer tensordot vdot inner einsum multiply prod_pair".split())
ZEROS = set("zeros zeros_like".split())


class Units:
    """Interpreter.  ``spec(func)`` gives (variants, ...) for declared functions; ``report`` gets findings."""

    MAXDEPTH = 7

    def __init__(self, prog, spec, report, attrs=None, methods=None):
        self.prog = prog
        self.spec = spec  # Func -> Signature or None
        self.report = report  # (rule, func, node, message, key)
        self.attrs = attrs or {}
        self.methods = methods or {}
        self.stack = []
        self.steps = 0

    # -- running -------------------------------------------------------------------------------
    def run(self, func, args, closure=None):
        """args: name -> D.  Returns the list of (return node, value)."""
        self.stack.append(func)
        try:
            env = dict(closure or {})
            for p in func.params:
                if p.name in args:
                    env[p.name] = args[p.name]
                elif p.default is not None:
                    env[p.name] = self.ev(p.default, {}, func)
                else:
                    env[p.name] = UNK
            rets = []
            self.block(func.body, env, func, rets)
            return rets
        finally:
            self.stack.pop()

    def block(self, stmts, env, f, rets):
        """Returns False when the end of the block is not reached."""
        for s in stmts:
            self.steps += 1
            if self.steps > 200000:
                return False
            if not self.stmt(s, env, f, rets):
                return False
        return True

    def stmt(self, s, env, f, rets):
        if isinstance(s, ast.Return):
            rets.append((s, self.ev(s.value, env, f) if s.value is not None else UNK))
            return False
        if isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env, f)
            for t in s.targets:
                self.assign(t, v, env, f)
            return True
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env, f), env, f)
            return True
        if isinstance(s, ast.AugAssign):
            cur = self.ev(_load(s.target), env, f)
            v = self.binop(s.op, cur, self.ev(s.value, env, f), s, f)
            self.assign(s.target, v, env, f)
            return True
        if isinstance(s, ast.Expr):
            self.ev(s.value, env, f)
            return True
        if isinstance(s, ast.If):
            t = self.truth(s.test, env, f)
            if t is True:
                return self.block(s.body, env, f, rets)
            if t is False:
                return self.block(s.orelse, env, f, rets)
            e1, e2 = dict(env), dict(env)
            a = self.block(s.body, e1, f, rets)
            b = self.block(s.orelse, e2, f, rets)
            if a and b:
                self.join_env(env, e1, e2)
            elif a:
                env.clear(), env.update(e1)
            elif b:
                env.clear(), env.update(e2)
            return a or b
        if isinstance(s, (ast.For, ast.While)):
            for _ in range(2):
                e1 = dict(env)
                if isinstance(s, ast.For):
                    self.assign(s.target, self.element(self.ev(s.iter, env, f)), e1, f)
                else:
                    self.ev(s.test, e1, f)
                self.block(s.body, e1, f, rets)
                self.join_env(env, e1, dict(env))
            if s.orelse:
                self.block(s.orelse, env, f, rets)
            return True
        if isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env, f)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, f)
            return self.block(s.body, env, f, rets)
        if isinstance(s, ast.Try):
            e0 = dict(env)
            a = self.block(s.body, env, f, rets)
            out = a
            for h in s.handlers:
                e1 = dict(e0)
                if self.block(h.body, e1, f, rets):
                    if out:
                        self.join_env(env, e1, dict(env))
                    else:
                        env.clear(), env.update(e1)
                        out = True
            self.block(s.finalbody, env, f, rets)
            return out
        if isinstance(s, (ast.FunctionDef,)):
            g = f.locals_funcs.get(s.name) if isinstance(f, Func) else None
            env[s.name] = D(fn=("func", g, env)) if g is not None else UNK
            return True
        return True

    def join_env(self, env, e1, e2):
        keys = set(e1) | set(e2)
        out = {k: merge(e1.get(k), e2.get(k)) for k in keys}
        env.clear()
        env.update(out)

    def assign(self, t, v, env, f):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = any(isinstance(x, ast.Starred) for x in t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, UNK, env, f)
                elif v.items is not None and not star and len(v.items) == len(t.elts):
                    self.assign(x, v.items[i], env, f)
                else:
                    self.assign(x, self.element(v), env, f)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            cur = env.get(t.value.id)
            if cur is not None:
                env[t.value.id] = D(join_deg([total(cur), total(v)]), shape=cur.shape)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            r = env.get(t.value.id)
            if r is not None and r.rec is not None:
                r.rec[t.attr] = v

    def element(self, v):
        if v.items is not None:
            out = None
            for x in v.items:
                out = merge(out, x)
            return out if out is not None else UNK
        if v.deg in (None, MIX):
            return UNK
        return D(v.deg, shape=v.shape[1:] if v.shape else None)

    # -- expressions ---------------------------------------------------------------------------
    def truth(self, e, env, f):
        v = self.ev(e, env, f)
        if v.const is not NOC:
            try:
                return bool(v.const)
            except Exception:  # noqa: BLE001
                return None
        return None

    def ev(self, e, env, f):
        m = getattr(self, "e_" + type(e).__name__, None)
        return m(e, env, f) if m else UNK

    def e_Constant(self, e, env, f):
        c = e.value
        if c is None or isinstance(c, (bool, str)):
            return D(0 if isinstance(c, bool) else None, const=c)
        if isinstance(c, (int, float, complex)):
            return D(ANY if c == 0 else 0, const=c, shape=())
        return UNK

    def e_Name(self, e, env, f):
        if e.id in env:
            return env[e.id]
        r = self.prog.resolve_name(f.module, e.id) if isinstance(f, Func) else None
        return self.wrap(r, e.id, f)

    def wrap(self, r, name, f):
        if isinstance(r, Func):
            return D(fn=("func", r, None))
        if isinstance(r, Class):
            return D(fn=("class", r, None))
        if isinstance(r, Module):
            return D(fn=("mod", r, None))
        if isinstance(r, tuple) and r and r[0] in ("ext", "extern", "external"):
            return D(fn=("ext", r[1], None))
        if isinstance(r, str):
            return D(fn=("ext", r, None))
        if r is None:
            return D(fn=("ext", name, None))
        return D(fn=("obj", name, None))

    def e_Tuple(self, e, env, f):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env, f)
                if v.items is not None:
                    items += v.items
                elif v.shape is not None and v.const is not NOC:
                    items += [D(0, const=c) for c in v.const]
                else:
                    return D(join_deg([total(self.ev(y.value if isinstance(y, ast.Starred) else y, env, f)) for y in e.elts]))
            else:
                items.append(self.ev(x, env, f))
        const = NOC
        if all(i.const is not NOC for i in items):
            const = tuple(i.const for i in items)
        return D(items=items, const=const)

    e_List = e_Tuple

    def e_UnaryOp(self, e, env, f):
        v = self.ev(e.operand, env, f)
        if isinstance(e.op, ast.USub):
            c = NOC
            if v.const is not NOC and isinstance(v.const, (int, float, complex)):
                c = -v.const
            return D(v.deg if v.items is None else total(v), const=c, shape=v.shape)
        if isinstance(e.op, ast.Not):
            return D(0, const=(not v.const) if v.const is not NOC else NOC)
        return v

    def e_BinOp(self, e, env, f):
        return self.binop(e.op, self.ev(e.left, env, f), self.ev(e.right, env, f), e, f)

    def binop(self, op, a, b, node, f):
        if a.items is not None and b.items is not None and isinstance(op, ast.Add):
            return D(items=a.items + b.items)
        const = NOC
        if a.const is not NOC and b.const is not NOC:
            try:
                const = _arith(op, a.const, b.const)
            except Exception:  # noqa: BLE001
                const = NOC
        da, db = total(a), total(b)
        shape = _bshape(a.shape, b.shape) if not isinstance(op, ast.MatMult) else None
        if isinstance(op, (ast.Add, ast.Sub)):
            if da == ANY:
                return D(db, const, shape=shape)
            if db == ANY:
                return D(da, const, shape=shape)
            if isinstance(da, Fraction) and isinstance(db, Fraction):
                if da != db:
                    if a.items is None and b.items is None:
                        self.report("sum", f, node, f"adds a quantity that scales with {pw(da)} to one that scales with {pw(db)}: `{_src(node)}`", _src(node))
                    return UNK
                return D(da, const, shape=shape)
            return D(MIX if MIX in (da, db) else None, const, shape=shape)
        if isinstance(op, (ast.Mult, ast.MatMult)):
            return D(_add(da, db), const, shape=shape)
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            return D(_add(da, _neg(db)), const, shape=shape)
        if isinstance(op, ast.Pow):
            if da in (ANY,):
                return D(ANY, const, shape=a.shape)
            if da == 0:
                return D(0, const, shape=a.shape)
            if isinstance(da, Fraction) and b.const is not NOC and isinstance(b.const, (int, float)):
                return D(da * Fraction(b.const).limit_denominator(64), const, shape=a.shape)
            return D(None)
        return D(0 if da == 0 and db == 0 else None, const)

    def e_Compare(self, e, env, f):
        vs = [self.ev(e.left, env, f)] + [self.ev(c, env, f) for c in e.comparators]
        if len(vs) == 2:
            a, b = vs
            op = e.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and b.const is None:
                if a.const is None:
                    return D(0, const=isinstance(op, ast.Is))
                if a.known or a.items is not None:
                    return D(0, const=isinstance(op, ast.IsNot))
            elif a.const is not NOC and b.const is not NOC:
                try:
                    return D(0, const=_cmp(op, a.const, b.const))
                except Exception:  # noqa: BLE001
                    pass
            elif a.known and b.known and a.deg != b.deg and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                self.report("sum", f, e, f"compares a quantity that scales with {pw(a.deg)} with one that scales with {pw(b.deg)}: `{_src(e)}`", _src(e))
        return D(0)

    def e_BoolOp(self, e, env, f):
        vs = [self.ev(x, env, f) for x in e.values]
        if all(v.const is not NOC for v in vs):
            try:
                c = all(v.const for v in vs) if isinstance(e.op, ast.And) else any(v.const for v in vs)
                return D(0, const=c)
            except Exception:  # noqa: BLE001
                pass
        out = None
        for v in vs:
            out = merge(out, v)
        return D(out.deg if out.items is None else total(out))

    def e_IfExp(self, e, env, f):
        t = self.truth(e.test, env, f)
        if t is True:
            return self.ev(e.body, env, f)
        if t is False:
            return self.ev(e.orelse, env, f)
        return merge(self.ev(e.body, env, f), self.ev(e.orelse, env, f))

    def e_NamedExpr(self, e, env, f):
        v = self.ev(e.value, env, f)
        self.assign(e.target, v, env, f)
        return v

    def e_Starred(self, e, env, f):
        return self.ev(e.value, env, f)

    def e_Lambda(self, e, env, f):
        return D(fn=("lambda", e, env))

    def e_JoinedStr(self, e, env, f):
        return UNK

    def comp(self, e, elt, env, f):
        env = dict(env)
        for g in e.generators:
            self.assign(g.target, self.element(self.ev(g.iter, env, f)), env, f)
        v = self.ev(elt, env, f)
        return D(total(v))

    def e_ListComp(self, e, env, f):
        return self.comp(e, e.elt, env, f)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_Subscript(self, e, env, f):
        v = self.ev(e.value, env, f)
        if v.items is not None:
            i = self.ev(e.slice, env, f)
            if isinstance(i.const, int) and not isinstance(i.const, bool) and -len(v.items) <= i.const < len(v.items):
                return v.items[i.const]
            if isinstance(e.slice, ast.Slice):
                try:
                    lo, hi, st = (self.ev(x, env, f).const if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step))
                    return D(items=v.items[lo:hi:st], const=v.const[lo:hi:st] if v.const is not NOC else NOC)
                except Exception:  # noqa: BLE001
                    return D(total(v) if total(v) != MIX else None)
            return D(total(v) if total(v) != MIX else None)
        if v.deg == MIX:
            return UNK
        sh = None
        if isinstance(v.const, tuple):
            i = self.ev(e.slice, env, f)
            if isinstance(i.const, int):
                try:
                    return D(0, const=v.const[i.const])
                except Exception:  # noqa: BLE001
                    return D(0)
            return D(0)
        for x in ast.walk(e.slice):
            if isinstance(x, ast.expr) and not isinstance(x, (ast.Slice, ast.Tuple, ast.Starred)):
                pass
        if v.shape is not None and _keeps_shape(e.slice):
            sh = v.shape
        return D(v.deg, shape=sh)

    def e_Attribute(self, e, env, f):
        if isinstance(e.value, ast.Name) and e.value.id not in env and e.value.id == "settings":
            if e.attr == "HBAR":
                return D(1, shape=())
            return D(0 if e.attr in ("ATOL", "DEFAULT_FOCK_SIZE") else None)
        v = self.ev(e.value, env, f)
        if v.rec is not None:
            if e.attr in v.rec:
                return v.rec[e.attr]
            return UNK
        if v.fn is not None:
            if v.fn[0] == "mod":
                return self.wrap(self.prog.resolve_attr(v.fn[1], e.attr), e.attr, f)
            if v.fn[0] in ("ext", "obj"):
                if e.attr in ("pi", "e", "newaxis", "inf", "complex128", "float64"):
                    return D(0)
                return D(fn=("ext", f"{v.fn[1]}.{e.attr}", None))
            return D(fn=("ext", e.attr, None))
        if e.attr == "shape":
            if v.shape is not None:
                return D(items=[D(0, const=n) if n is not None else D(0) for n in v.shape], const=tuple(v.shape) if None not in v.shape else NOC)
            return D(0)
        if e.attr == "ndim":
            return D(0, const=len(v.shape)) if v.shape is not None else D(0)
        if e.attr in ("T", "real", "imag", "flat"):
            return D(total(v), shape=v.shape[::-1] if e.attr == "T" and v.shape else v.shape)
        if e.attr in ("dtype", "size"):
            return D(0)
        if e.attr in self.attrs:
            return self.attrs[e.attr]
        return D(fn=("meth", e.attr, v))

    # -- calls ---------------------------------------------------------------------------------
    def e_Call(self, e, env, f):
        fv = self.ev(e.func, env, f)
        args, unknown_args = [], False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, f)
                if v.items is not None:
                    args += v.items
                else:
                    unknown_args = True
            else:
                args.append(self.ev(a, env, f))
        kws = {}
        for k in e.keywords:
            v = self.ev(k.value, env, f)
            if k.arg is None:
                unknown_args = True
            else:
                kws[k.arg] = v
        fn = fv.fn
        if fn is None:
            return UNK
        kind = fn[0]
        if kind == "lambda":
            lam, cenv = fn[1], dict(fn[2])
            for p, a in zip(lam.args.args, args):
                cenv[p.arg] = a
            return self.ev(lam.body, cenv, f)
        if kind == "func":
            g = fn[1]
            if g is None:
                return UNK
            return self.call(g, args, kws, unknown_args, e, f, fn[2])
        if kind == "class":
            c = fn[1]
            for b in (c, *c.mro):
                if b.name in self.methods:
                    return self.methods[b.name]
            return UNK
        if kind == "meth":
            name, base = fn[1], fn[2]
            if name in self.methods:
                return self.methods[name]
            if base.deg is not None or base.items is not None:
                return self.op(name, [base, *args], kws, e, f)
            return UNK
        if kind == "ext":
            name = fn[1].split(".")[-1]
            return self.op(name, args, kws, e, f, unknown_args)
        return UNK

    def bind(self, g, args, kws, skip_self):
        out = {}
        ps = [p for p in g.params if p.kind in ("pos",)]
        if skip_self and ps:
            ps = ps[1:]
        for p, a in zip(ps, args):
            out[p.name] = a
        for k, v in kws.items():
            out[k] = v
        return out

    def call(self, g, args, kws, unknown_args, e, f, closure):
        skip = g.cls is not None and g.kind in ("method", "classmethod", "property")
        bound = self.bind(g, args, kws, skip) if not unknown_args else dict(kws)
        sig = self.spec(g)
        if sig is not None:
            for name, want in sig.params.items():
                if name in bound and isinstance(want.deg, Fraction):
                    got = total(bound[name])
                    if isinstance(got, Fraction) and got != want.deg:
                        self.report("call", f, e, f"`{name}` of {g.name} scales with {pw(want.deg)}, the argument given scales with {pw(got)}", f"{g.name}({name})")
            return sig.result
        if len(self.stack) > self.MAXDEPTH or g in self.stack or g.module.name.endswith("backend_manager"):
            return self.op(g.name, args, kws, e, f) if g.module.name.endswith("backend_manager") else UNK
        if any("math.lattice" in g.module.name or ".math." in g.module.name for _ in (0,)):
            return self.op(g.name, args, kws, e, f)
        rets = self.run(g, bound, closure)
        out = None
        for _, v in rets:
            out = merge(out, v)
        return out if out is not None else UNK

    def op(self, name, args, kws, e, f, unknown_args=False):
        a0 = args[0] if args else (kws[next(iter(kws))] if kws else UNK)
        d0 = total(a0)
        if name in DIMLESS_ARG:
            for a in args[:2] if name == "xlogy" else args[:1]:
                d = total(a)
                if isinstance(d, Fraction) and d != 0:
                    self.report("sum", f, e, f"{name} of a quantity that scales with {pw(d)}: `{_src(e)}`", _src(e))
                    return UNK
            return D(0 if isinstance(d0, Fraction) or d0 == ANY else None, shape=a0.shape)
        if name in SAME:
            if name == "trace" or name == "norm":
                return D(d0)
            keep = a0.shape if name in ("cast", "conj", "real", "imag", "abs", "astensor", "asarray", "array", "copy", "asnumpy", "dagger") or (name == "transpose" and len(args) == 1) else None
            if name in ("astensor", "array", "asarray", "make_complex"):
                d0 = join_deg([total(a) for a in (args[:2] if name == "make_complex" else args[:1])]) if args else d0
            return D(d0, shape=keep, const=a0.const if name in ("float", "complex") else NOC)
        if name in ZERO:
            if name == "len" and a0.shape:
                return D(0, const=a0.shape[0]) if a0.shape[0] is not None else D(0)
            if name == "len" and a0.items is not None:
                return D(0, const=len(a0.items))
            if name == "int" and isinstance(a0.const, (int, float)):
                return D(0, const=int(a0.const))
            return D(0)
        if name in ZEROS:
            return D(ANY)
        if name in JOIN:
            if name == "broadcast_arrays" or name == "meshgrid":
                return D(items=[D(total(a)) for a in args])
            src = args[1:3] if name == "where" else args[:1] if name in ("concat", "concatenate", "stack", "hstack", "vstack", "block", "pad", "dstack") else args[:2]
            if name in ("maximum", "minimum", "append", "linspace"):
                ds = [total(a) for a in src]
                ks = {d for d in ds if isinstance(d, Fraction)}
                if len(ks) > 1:
                    self.report("sum", f, e, f"{name} of quantities that scale differently with hbar: `{_src(e)}`", _src(e))
            out = D(join_deg([total(a) for a in src]))
            if name == "stack" and a0.items is not None:
                out.block = a0.items
            return out
        if name == "kron" and len(args) == 2 and args[0].block is not None:
            return scale_block(args[0], total(args[1]))
        if name in PROD:
            ops = args[1:] if name == "einsum" else args[:2]
            if unknown_args:
                return UNK
            out = Fraction(0)
            for a in ops:
                out = _add(out, total(a))
            return D(out)
        if name == "sqrt":
            return D(_mul(d0, HALF), shape=a0.shape)
        if name == "sqrtm":
            return D(_mul(d0, HALF))
        if name in ("pow", "power", "float_power"):
            b = args[1] if len(args) > 1 else UNK
            if d0 == 0:
                return D(0)
            if isinstance(b.const, (int, float)) and isinstance(d0, Fraction):
                return D(d0 * Fraction(b.const).limit_denominator(64))
            return UNK
        if name == "square":
            return D(_mul(d0, Fraction(2)))
        if name == "inv" or name == "pinv" or name == "reciprocal":
            return D(_neg(d0), shape=a0.shape)
        if name == "solve":
            return D(_add(total(args[1]), _neg(d0)) if len(args) > 1 else None)
        if name in ("det", "prod"):
            if d0 == 0:
                return D(0)
            if isinstance(d0, Fraction) and a0.shape and isinstance(a0.shape[-1], int):
                return D(d0 * a0.shape[-1])
            return UNK
        if name in ("eig", "eigh"):
            return D(items=[D(d0), D(0)])
        if name == "error_if":
            return UNK
        if name.startswith("hermite_renormalized"):
            ds = [total(a) for a in args[:2]]
            for a in ds:
                if isinstance(a, Fraction) and a != 0:
                    self.report("sum", f, e, f"{name} of a quantity that scales with {pw(a)}: `{_src(e)}`", _src(e))
                    return UNK
            if len(args) > 2 and all(d == 0 or d == ANY for d in ds):
                return D(total(args[2]))
            return UNK
        if name in ("list", "tuple", "reversed", "sorted"):
            return a0
        if name in ("zip", "enumerate"):
            return UNK
        return UNK


def scale_block(v, d):
    out = D(_add(total(v), d))
    if v.block is not None:
        out.block = [scale_block(x, d) for x in v.block]
    return out


def pw(d):
    if d == 0:
        return "hbar^0"
    return f"hbar^{d}" if d.denominator == 1 else f"hbar^({d})"


def _src(n):
    s = ast.unparse(n)
    return s if len(s) < 90 else s[:87] + "..."


def _add(a, b):
    if a == ANY or b == ANY:
        return ANY if None not in (a, b) else None
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    return MIX if MIX in (a, b) and None not in (a, b) else None


def _neg(a):
    return -a if isinstance(a, Fraction) else a


def _mul(a, k):
    return a * k if isinstance(a, Fraction) else a


def _bshape(a, b):
    if a == ():
        return b
    if b == ():
        return a
    if a is None or b is None:
        return None
    return a if len(a) >= len(b) else b


def _keeps_shape(s):
    return False


def _load(t):
    t = ast.parse(ast.unparse(t), mode="eval").body
    return t


def _arith(op, a, b):
    import operator as o

    fn = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow}[type(op)]
    if isinstance(op, ast.Pow) and (abs(a) > 1000 or abs(b) > 64):
        raise ValueError
    if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
        if not isinstance(op, ast.Add):
            raise ValueError
    return fn(a, b)


def _cmp(op, a, b):
    import operator as o

    fn = {ast.Eq: o.eq, ast.NotEq: o.ne, ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge, ast.Is: o.is_, ast.IsNot: o.is_not}.get(type(op))
    if fn is None:
        raise ValueError
    return fn(a, b)
