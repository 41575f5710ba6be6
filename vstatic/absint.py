"""Abstract interpreter over the resolved program (``model.Program``).

Domain.  A value abstracts the set of run-time values an expression may take:

* ``deps``   the input atoms (parameters, fields of parameters, settings) its *data* may depend on,
* ``ctl``    the input atoms deciding whether it was produced (branch conditions),
* ``refs``   the heap objects it may alias (instances, lists, dicts, arrays; views alias their base),
* ``consts`` the Python constants it may be (kept only while the set is small),
* ``funcs``  the callables it may be,
* ``top``    anything else as well.

The interpreter walks statements in order, joins the two branches of an undecided test, runs loop
bodies over known elements or twice with a join, and inlines calls to functions of the package up to
a depth bound; calls it cannot resolve return a fresh value depending on all their arguments.  No
code of the package is executed, and no path condition is solved.
"""

from __future__ import annotations

import ast

from .model import Class, Func, Module, Program, dotted

E = frozenset()
MAXCONST = 6
MAXUNROLL = 12
NONE_SET = frozenset([("c", None)])


def wrapc(c):
    return ("c", c) if not isinstance(c, bool) else ("b", c)


def unwrapc(w):
    return w[1]


class V:
    __slots__ = ("deps", "ctl", "refs", "consts", "funcs", "top")

    def __init__(self, deps=E, ctl=E, refs=E, consts=E, funcs=(), top=False):
        self.deps = deps
        self.ctl = ctl
        self.refs = refs
        self.consts = consts
        self.funcs = funcs
        self.top = top

    def __repr__(self):
        return (
            f"V(deps={sorted(self.deps)}, refs={sorted(self.refs)}, "
            f"consts={[unwrapc(c) for c in self.consts]}, funcs={len(self.funcs)}, top={self.top})"
        )

    def with_(self, deps=E, ctl=E):
        if deps <= self.deps and ctl <= self.ctl:
            return self
        return V(self.deps | deps, self.ctl | ctl, self.refs, self.consts, self.funcs, self.top)

    def const(self):
        """The single constant this value is, or raise KeyError."""
        if len(self.consts) == 1 and not self.refs and not self.funcs and not self.top:
            return unwrapc(next(iter(self.consts)))
        raise KeyError

    def is_const(self):
        return len(self.consts) == 1 and not self.refs and not self.funcs and not self.top

    def may_none(self):
        return self.top or ("c", None) in self.consts

    def only_none(self):
        return self.consts == NONE_SET and not self.refs and not self.funcs and not self.top


BOT = V()


def join(*vs):
    vs = [v for v in vs if v is not None]
    if not vs:
        return BOT
    if len(vs) == 1:
        return vs[0]
    deps, ctl, refs, consts = E, E, E, E
    funcs = []
    top = False
    for v in vs:
        deps |= v.deps
        ctl |= v.ctl
        refs |= v.refs
        consts |= v.consts
        for f in v.funcs:
            if f not in funcs:
                funcs.append(f)
        top |= v.top
    if len(consts) > MAXCONST:
        consts = E
        top = True
    if len(funcs) > 8:
        funcs = funcs[:8]
        top = True
    return V(deps, ctl, refs, consts, tuple(funcs), top)


def _class_of(v):
    """The one class `v` is, or None."""
    if len(v.funcs) == 1 and v.funcs[0].kind == "class" and not v.top and not v.refs and not v.consts:
        return v.funcs[0].a
    return None


def const(c, deps=E, ctl=E):
    try:
        hash(c)
    except TypeError:
        return V(deps, ctl, top=True)
    return V(deps, ctl, consts=frozenset([wrapc(c)]))


def unknown(deps=E, ctl=E):
    return V(deps, ctl, top=True)


class Obj:
    """A heap object.  Treated as immutable: every write makes a new Obj."""

    __slots__ = ("id", "kind", "cls", "fields", "items", "elem", "origin", "tag")

    def __init__(self, id, kind, cls=(), fields=None, items=None, elem=None, origin=None, tag=None):
        self.id = id
        self.kind = kind  # inst, list, tuple, set, dict, array, unknown
        self.cls = cls  # tuple of possible Classes (inst only)
        self.fields = fields if fields is not None else {}
        self.items = items  # known elements of list/tuple, or None
        self.elem = elem  # summary element
        self.origin = origin  # access path of an input object, None when freshly allocated
        self.tag = tag

    def copy(self, **kw):
        o = Obj(self.id, self.kind, self.cls, self.fields, self.items, self.elem, self.origin, self.tag)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class State:
    __slots__ = ("env", "heap", "ctl")

    def __init__(self, env, heap, ctl=E):
        self.env = env
        self.heap = heap
        self.ctl = ctl

    def fork(self):
        return State(dict(self.env), dict(self.heap), self.ctl)


class Closure:
    __slots__ = ("func", "env", "frame")

    def __init__(self, func, env, frame):
        self.func = func
        self.env = env
        self.frame = frame


class FV:
    """Callable value."""

    __slots__ = ("kind", "a", "b", "c")

    def __init__(self, kind, a=None, b=None, c=None):
        self.kind, self.a, self.b, self.c = kind, a, b, c

    def key(self):
        return (self.kind, id(self.a) if not isinstance(self.a, str) else self.a, self.bkey())

    def bkey(self):
        b = self.b
        if isinstance(b, V):
            return (b.refs, b.deps)
        return id(b) if b is not None and not isinstance(b, str) else b

    def __eq__(self, o):
        return isinstance(o, FV) and self.key() == o.key()

    def __hash__(self):
        return hash((self.kind,))

    def __repr__(self):
        return f"FV({self.kind},{self.a})"


class Effect:
    __slots__ = ("kind", "origin", "path", "node", "func", "detail", "tag", "stack")

    def __init__(self, kind, origin, path, node, func, detail, tag, stack):
        self.kind = kind  # 'attr', 'item', 'aug', 'mutcall'
        self.origin = origin
        self.path = path
        self.node = node
        self.func = func
        self.detail = detail
        self.tag = tag
        self.stack = stack


class Budget(Exception):
    pass


class Frame:
    def __init__(self, func, depth, ctx):
        self.func = func
        self.depth = depth
        self.ctx = ctx
        self.returns = []
        self.breaks = []
        self.continues = []
        self.selfv = None
        self.module = func.module
        self.closure_env = None
        self.yields = None
        self.raises = []


VIEW_FUNCS = {
    "asarray", "reshape", "transpose", "swapaxes", "moveaxis", "broadcast_to", "expand_dims",
    "squeeze", "ravel", "atleast_1d", "atleast_2d", "atleast_3d", "diagonal", "asanyarray",
    "broadcast_arrays", "split", "array_split", "flip", "rollaxis", "ascontiguousarray",
    "real", "imag", "nan_to_num_view", "require", "rot90", "matrix_transpose",
}
VIEW_METHODS = {"reshape", "transpose", "swapaxes", "view", "squeeze", "ravel", "diagonal", "flatten_view"}
VIEW_ATTRS = {"T", "flat", "mT", "real", "imag"}
PURE_ATTRS = {"shape", "ndim", "size", "dtype", "itemsize", "nbytes", "__name__", "__qualname__", "__doc__", "__module__"}
LIST_MUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"}
DICT_MUT = {"update", "pop", "popitem", "clear", "setdefault"}
SET_MUT = {"add", "discard", "remove", "update", "clear", "pop", "intersection_update", "difference_update", "symmetric_difference_update"}
ARR_MUT = {"fill", "sort", "resize", "partition", "put", "itemset", "setflags"}
ALL_MUT = LIST_MUT | DICT_MUT | SET_MUT | ARR_MUT
# numpy functions that write into an argument (position)
NP_MUT = {
    "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.copyto": 0, "numpy.fill_diagonal": 0,
    "numpy.put_along_axis": 0, "numpy.add.at": 0, "numpy.random.shuffle": 0, "random.shuffle": 0,
    "numpy.subtract.at": 0, "numpy.multiply.at": 0,
}
IMMUT_ANN = {"int", "float", "str", "bool", "complex", "tuple", "Scalar", "bytes", "frozenset"}
ARRAY_ANN = (
    "Matrix", "Vector", "Tensor", "ArrayLike", "ndarray", "array", "Batch", "ComplexMatrix",
    "ComplexVector", "ComplexTensor", "RealMatrix", "RealVector", "RealTensor", "Array", "Trainable",
    "Wavefunction", "DensityMatrix",
)

DUNDER = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.MatMult: "matmul",
    ast.RShift: "rshift", ast.LShift: "lshift", ast.BitAnd: "and", ast.BitOr: "or", ast.Pow: "pow",
    ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.BitXor: "xor",
}


class Interp:
    ignore_handlers = False  # assume that no statement raises (exception handlers are dead)
    """One analysis run from one root function."""

    def __init__(self, prog: Program, *, backend="BackendNumpy", max_depth=7, budget=60000,
                 on_call=None, on_return=None, on_setattr=None, no_inline=None, on_branch=None, on_read=None, on_test=None,
                 inline_only=None):
        self.prog = prog
        self.backend = prog.maybe_cls(backend)
        self.manager = prog.maybe_cls("BackendManager")
        self.max_depth = max_depth
        self.budget = budget
        self.effects: list[Effect] = []
        self.on_call = on_call
        self.on_return = on_return
        self.on_setattr = on_setattr
        self.on_branch = on_branch
        self.on_read = on_read
        self.on_test = on_test
        self.no_inline = no_inline or (lambda f: False)
        self.inline_only = inline_only
        self.stack: list[Frame] = []
        self.entered = set()  # functions analysed as part of another one
        self._globals: dict = {}
        self.truncated = set()

    # ---- public ----------------------------------------------------------------------

    def run(self, func: Func, *, self_cls=None, self_val=None, state=None, overrides=None):
        """Evaluate `func` with abstract inputs.  Returns (value, state)."""
        st = state or State({}, {}, E)
        args = {}
        for i, p in enumerate(func.params):
            if overrides and p.name in overrides:
                args[p.name] = overrides[p.name]
                continue
            if i == 0 and func.cls is not None and func.kind in ("method", "property", "setter") and func.outer is None:
                if self_val is not None:
                    args[p.name] = self_val
                else:
                    args[p.name] = self.input_obj(st, p.name, self_cls or func.cls)
                continue
            if i == 0 and func.kind == "classmethod":
                args[p.name] = V(funcs=(FV("class", self_cls or func.cls),))
                continue
            args[p.name] = self.input_param(st, func, p)
        return self.exec_func(func, args, st, selfv=args.get(func.params[0].name) if func.params else None)

    def input_obj(self, st, path, cls=None, kind="inst"):
        oid = "in:" + path
        if oid not in st.heap:
            cl = self.expand(cls)
            st.heap[oid] = Obj(oid, kind if not cl else "inst", cl, {}, origin=path)
        return V(deps=frozenset([path]), refs=frozenset([oid]))

    def expand(self, cls):
        if cls is None:
            return ()
        if isinstance(cls, tuple):
            out = []
            for c in cls:
                for x in self.expand(c):
                    if x not in out:
                        out.append(x)
            return tuple(out)
        if any(isinstance(m, Func) and m.is_abstract() for m in cls.members.values()):
            subs = [
                c
                for c in self.prog.subclasses(cls)
                if not any(isinstance(m, Func) and m.is_abstract() for m in c.members.values())
            ]
            leaf = [c for c in subs if not any(c is not d and c in d.mro for d in subs)]
            if subs and len(subs) <= 4:
                return tuple(subs)
            tops = [c for c in subs if not any(d is not c and d in c.mro for d in subs)]
            return tuple(tops[:4]) or tuple(leaf[:4])
        return (cls,)

    def input_param(self, st, func, p):
        path = p.name
        if p.kind == "vararg":
            oid = "in:*" + path
            classes, tag = self.ann_info(func.module, p.annotation, func)
            el = self._input_from_ann(st, path + "[]", classes, tag, self.ann_elem(func.module, p.annotation, func))
            st.heap[oid] = Obj(oid, "tuple", items=None, elem=el)
            return V(deps=frozenset([path]), refs=frozenset([oid]))
        if p.kind == "kwarg":
            oid = "in:**" + path
            st.heap[oid] = Obj(oid, "dict", elem=unknown(frozenset([path])))
            return V(deps=frozenset([path]), refs=frozenset([oid]))
        classes, tag = self.ann_info(func.module, p.annotation, func)
        v = self._input_from_ann(st, path, classes, tag, self.ann_elem(func.module, p.annotation, func))
        return v

    def ann_elem(self, module, ann, func=None):
        """Classes of the elements of a container annotation (set[X], Sequence[X], ...)."""
        out = []
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return out
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.ann_elem(module, ann.left, func) + self.ann_elem(module, ann.right, func)
        if isinstance(ann, ast.Subscript):
            last = (dotted(ann.value) or "").split(".")[-1]
            if last == "Optional":
                return self.ann_elem(module, ann.slice, func)
            if last in ("list", "List", "set", "Set", "Sequence", "Iterable", "tuple", "Tuple", "Collection", "Iterator"):
                elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                for x in elts:
                    out += [c for c in self.ann_info(module, x, func)[0] if c not in out]
            elif last in ("dict", "Dict", "Mapping") and isinstance(ann.slice, ast.Tuple) and len(ann.slice.elts) == 2:
                out += self.ann_info(module, ann.slice.elts[1], func)[0]
        return out

    def in_elem(self, st, o):
        """The element object of an input container whose element class is known, or None."""
        if isinstance(o.tag, tuple) and o.tag and o.tag[0] == "elem":
            v = self.input_obj(st, (o.origin or o.id) + "[]", o.tag[1])
            return V(v.deps, v.ctl, v.refs, v.consts, v.funcs, True)
        return None

    def _input_from_ann(self, st, path, classes, tag, elem=()):
        if elem and tag != "immut" or elem and not classes:
            oid = "in:" + path
            if not classes:
                if oid not in st.heap:
                    st.heap[oid] = Obj(oid, "list" if tag == "list" else "unknown", origin=path, tag=("elem", tuple(elem)))
                return V(deps=frozenset([path]), refs=frozenset([oid]), top=True)
        d = frozenset([path])
        if tag == "immut" and not classes:
            return V(deps=d, top=True)
        if classes:
            v = self.input_obj(st, path, tuple(classes))
            if tag == "opt":
                v = V(v.deps, v.ctl, v.refs, v.consts, v.funcs, True)
            return v
        oid = "in:" + path
        if oid not in st.heap:
            st.heap[oid] = Obj(oid, "array" if tag == "array" else ("list" if tag == "list" else ("dict" if tag == "dict" else "unknown")), origin=path,
                               elem=None, tag=tag)
        return V(deps=d, refs=frozenset([oid]), top=True)

    def ann_info(self, module, ann, func=None):
        """(classes, tag) of an annotation; tag in {'immut','array','list','dict','opt',None}."""
        if ann is None:
            return [], None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return [], None
        if isinstance(ann, ast.Constant) and ann.value is None:
            return [], "none"
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            c1, t1 = self.ann_info(module, ann.left, func)
            c2, t2 = self.ann_info(module, ann.right, func)
            cl = c1 + [c for c in c2 if c not in c1]
            tags = {t for t in (t1, t2)}
            if "none" in tags:
                other = t1 if t2 == "none" else t2
                if cl:
                    return cl, "opt"
                return [], other
            if cl:
                if (not c1) or (not c2):
                    return cl, "opt"
                return cl, None
            if t1 == t2:
                return [], t1
            if "array" in tags:
                return [], None if None in tags else "mixed"
            return [], None
        if isinstance(ann, ast.Subscript):
            d = dotted(ann.value) or ""
            last = d.split(".")[-1]
            if last in ("Optional",):
                c, t = self.ann_info(module, ann.slice, func)
                return c, "opt" if c else t
            if last in ("Batch",):
                return [], "array"
            if last in ("list", "List"):
                return [], "list"
            if last in ("dict", "Dict"):
                return [], "dict"
            if last in ("tuple", "Tuple"):
                return [], "immut"
            if last in ("Literal",):
                return [], "immut"
            return self.ann_info(module, ann.value, func)
        d = dotted(ann)
        if d is None:
            return [], None
        last = d.split(".")[-1]
        r = self.prog.resolve_expr(module, ann)
        if isinstance(r, Class):
            return [r], None
        if last == "Self" and func is not None and func.cls is not None:
            return [func.cls], None
        if last in IMMUT_ANN:
            return [], "immut"
        if last in ARRAY_ANN:
            return [], "array"
        if last in ("list",):
            return [], "list"
        if last in ("dict",):
            return [], "dict"
        return [], None

    # ---- dependency closure -------------------------------------------------------------

    def deep(self, v, st, limit=400):
        """All atoms a value depends on, through freshly allocated containers as well."""
        out = set(v.deps)
        seen = set()
        todo = list(v.refs)
        fvs = list(v.funcs)
        while (todo or fvs) and len(seen) < limit:
            if fvs:
                f = fvs.pop()
                if isinstance(f.b, V):
                    out |= f.b.deps
                    todo.extend(f.b.refs)
                elif f.kind == "partial":
                    for x in [f.a, *f.b, *f.c.values()]:
                        out |= x.deps
                        todo.extend(x.refs)
                        if len(fvs) < 20:
                            fvs.extend(x.funcs)
                elif f.kind == "func" and isinstance(f.c, dict) and len(seen) < 200:
                    for nm in free_names(f.a):
                        x = f.c.get(nm)
                        if x is not None and x is not v and not x.funcs:
                            out |= x.deps
                            todo.extend(x.refs)
                continue
            r = todo.pop()
            if r in seen:
                continue
            seen.add(r)
            o = st.heap.get(r)
            if o is None:
                continue
            if o.origin is not None:
                out.add(o.origin)
            vals = []
            if o.items is not None:
                vals += o.items
            if o.elem is not None:
                vals.append(o.elem)
            if o.origin is None or o.kind != "inst":
                vals += list(o.fields.values())
            for x in vals:
                out |= x.deps
                todo.extend(x.refs)
        return frozenset(out)

    # ---- function execution ------------------------------------------------------------

    def exec_func(self, func, args, st, selfv=None, closure_env=None, ctxnode=None):
        frame = Frame(func, len(self.stack), (self.stack[-1].ctx if self.stack else ()) + ((id(ctxnode) if ctxnode is not None else 0),))
        frame.selfv = selfv
        frame.closure_env = closure_env
        if self.stack:
            self.entered.add(func)
        self.stack.append(frame)
        outer_env = st.env
        inner = State(dict(args), st.heap, st.ctl)
        try:
            is_gen = not isinstance(func.node, ast.Lambda) and any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own(func.node)
            )
            if is_gen:
                frame.yields = []
            out = self.block(func.body, inner)
            if out is not None:
                frame.returns.append((const(None, ctl=out.ctl), out))
            if not frame.returns:
                # every path raises
                st2 = State(outer_env, inner.heap, st.ctl)
                return None, st2
            val = join(*[r[0] for r in frame.returns])
            res = frame.returns[0][1]
            for _, s in frame.returns[1:]:
                res = self.join_states(res, s)
            if is_gen:
                y = join(*frame.yields) if frame.yields else BOT
                val = self.new(res, "list", func.node, items=None, elem=y)
            if self.on_return:
                self.on_return(func, val, res, frame)
            return val, State(outer_env, res.heap, st.ctl)
        finally:
            self.stack.pop()

    def join_states(self, a, b, ctl=E):
        if a is None:
            return b
        if b is None:
            return a
        env = dict(a.env)
        for k, v in b.env.items():
            env[k] = join(env[k], v).with_(ctl=ctl) if k in env and env[k] is not v else v
        heap = dict(a.heap)
        for k, o in b.heap.items():
            p = heap.get(k)
            if p is None:
                heap[k] = o
            elif p is not o:
                heap[k] = self.join_obj(p, o, ctl)
        return State(env, heap, a.ctl & b.ctl)

    def join_obj(self, p, o, ctl=E):
        fields = dict(p.fields)
        if ctl:
            for k in fields:
                if k not in o.fields:
                    fields[k] = fields[k].with_(ctl=ctl)
        for k, v in o.fields.items():
            if k in fields:
                if fields[k] is not v:
                    fields[k] = join(fields[k], v).with_(ctl=ctl)
            elif p.origin is not None and p.kind in ("inst", "unknown"):
                fields[k] = join(v, V(frozenset([f"{p.origin}.{k}"]), refs=frozenset(["in:%s.%s" % (p.origin, k)]), top=True)) if isinstance(k, str) else v
            else:
                fields[k] = v.with_(ctl=ctl)
        for k in p.fields:
            if k not in o.fields and o.origin is not None and o.kind in ("inst", "unknown") and isinstance(k, str):
                fields[k] = join(p.fields[k], V(frozenset([f"{o.origin}.{k}"]), refs=frozenset(["in:%s.%s" % (o.origin, k)]), top=True))
        items = None
        elem = None
        if p.items is not None and o.items is not None and len(p.items) == len(o.items):
            items = [join(x, y) for x, y in zip(p.items, o.items)]
        else:
            parts = (p.items or []) + (o.items or [])
            if p.elem is not None:
                parts.append(p.elem)
            if o.elem is not None:
                parts.append(o.elem)
            elem = join(*parts) if parts else None
            if p.items is None and o.items is None and p.elem is None and o.elem is None:
                elem = None
        cls = p.cls if p.cls == o.cls else tuple(dict.fromkeys(p.cls + o.cls))
        if items is not None and (p.elem is not None or o.elem is not None):
            elem = join(p.elem, o.elem) if p.elem is not None and o.elem is not None else (p.elem or o.elem)
        return Obj(p.id, p.kind if p.kind == o.kind else "unknown", cls, fields, items, elem, p.origin or o.origin, p.tag)

    def new(self, st, kind, node, cls=(), fields=None, items=None, elem=None, deps=E):
        ctx = self.stack[-1].ctx if self.stack else ()
        oid = f"n:{hash(ctx) & 0xFFFFFFFF:x}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}:{kind}:{id(node) & 0xFFFFFF:x}"
        o = Obj(oid, kind, cls, fields or {}, items, elem)
        if oid in st.heap and kind != "inst" and st.heap[oid].origin is None:
            o = self.join_obj(st.heap[oid], o)
        st.heap[oid] = o
        return V(deps=deps, ctl=st.ctl, refs=frozenset([oid]))

    # ---- statements --------------------------------------------------------------------

    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()

    def stmt(self, s, st):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def s_Pass(self, s, st):
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else const(None)
        self.stack[-1].returns.append((v.with_(ctl=st.ctl), st))
        return None

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        self.stack[-1].raises.append((s, st.ctl))
        return None

    def s_Assert(self, s, st):
        self.ev(s.test, st)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                self.effect("item", base, st, s, "del item")
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st).with_(ctl=st.ctl)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st).with_(ctl=st.ctl)
            self.assign(s.target, v, st, s)
        return st

    def s_AugAssign(self, s, st):
        t = s.target
        cur = self.ev(_load(t), st)
        r = self.ev(s.value, st)
        # in-place on lists and arrays; rebinding on immutable values
        for ref in cur.refs:
            o = st.heap.get(ref)
            if o is None:
                continue
            if o.kind in ("array", "list", "set", "dict") or (o.kind == "unknown" and o.tag == "array"):
                self.effect_obj("aug", o, st, s, ast.unparse(s))
        d = cur.deps | r.deps
        lists = [st.heap[x] for x in cur.refs if x in st.heap]
        if lists and all(o.kind == "inst" and o.cls for o in lists):
            v = self.binop(s.op, cur, r, st, s)
        elif lists and all(o.kind in ("list", "tuple") for o in lists) and isinstance(s.op, ast.Add):
            if all(o.kind == "list" for o in lists):
                el = self.elements(r, st)
                for o in lists:
                    self.append_obj(o, el, st, strong=len(lists) == 1 and not cur.top and not cur.funcs)
                v = V(d, cur.ctl | r.ctl | st.ctl, cur.refs, E, (), cur.top)
            else:
                v = self.binop(s.op, cur, r, st, s)
        else:
            v0 = self.binop(s.op, cur, r, st, s)
            refs = frozenset(x for x in cur.refs if st.heap.get(x) and st.heap[x].kind in ("array", "list"))
            v = V(v0.deps | d, cur.ctl | r.ctl | st.ctl, v0.refs | refs, v0.consts, (), v0.top)
        self.assign(t, v, st, s, aug=True)
        return st

    def append_obj(self, o, els, st, strong):
        cur = st.heap[o.id]
        known, summ = els
        if cur.items is not None and known is not None and strong and len(cur.items) + len(known) <= 64:
            st.heap[o.id] = cur.copy(items=cur.items + list(known))
        else:
            parts = list(cur.items or [])
            if cur.elem is not None:
                parts.append(cur.elem)
            parts += list(known) if known is not None else ([summ] if summ is not None else [])
            st.heap[o.id] = cur.copy(items=None, elem=join(*parts) if parts else None)

    def s_If(self, s, st):
        tv = self.ev(s.test, st)
        b = self.truth(tv, st)
        if self.on_branch:
            self.on_branch(s, tv, st, self.stack[-1])
        if self.on_test:
            self.on_test(s.test, tv, st, self.stack[-1])
        if b is True:
            return self.block(s.body, self.narrow(s.test, st, True))
        if b is False:
            return self.block(s.orelse, self.narrow(s.test, st, False))
        ctl0 = st.ctl
        d = self.deep(tv, st) | tv.ctl
        s1, s2 = st.fork(), st.fork()
        s1.ctl = ctl0 | d
        s2.ctl = ctl0 | d
        s1 = self.narrow(s.test, s1, True)
        s2 = self.narrow(s.test, s2, False)
        o1 = self.block(s.body, s1)
        o2 = self.block(s.orelse, s2)
        out = self.join_states(o1, o2, d)
        if out is not None:
            # when one branch leaves the function the rest is still decided by the test
            out.ctl = ctl0 if (o1 is not None and o2 is not None) else ctl0 | d
        return out

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        known, summ = self.elements(it, st)
        frame = self.stack[-1]
        sb, sc = frame.breaks, frame.continues
        frame.breaks, frame.continues = [], []
        ctl0 = st.ctl
        if known is not None and len(known) <= MAXUNROLL:
            cur = st
            brk = None
            for v in known:
                if cur is None:
                    break
                self.assign(s.target, v.with_(deps=E, ctl=cur.ctl), cur, s)
                cur = self.block(s.body, cur)
                for c in frame.continues:
                    cur = self.join_states(cur, c)
                frame.continues = []
            for b in frame.breaks:
                brk = self.join_states(brk, b)
            if cur is not None and s.orelse:
                cur = self.block(s.orelse, cur)
            out = self.join_states(cur, brk)
        else:
            if known is not None:
                summ = join(*known) if known else BOT
            el = (summ if summ is not None else unknown()).with_(deps=it.deps if not it.refs else E, ctl=it.ctl)
            acc = st
            for _ in range(2):
                body = acc.fork()
                body.ctl = ctl0
                self.assign(s.target, el, body, s)
                r = self.block(s.body, body)
                for c in frame.continues:
                    r = self.join_states(r, c)
                frame.continues = []
                acc = self.join_states(acc, r)
            for b in frame.breaks:
                acc = self.join_states(acc, b)
            if s.orelse and acc is not None:
                acc2 = self.block(s.orelse, acc.fork())
                acc = self.join_states(acc, acc2)
            out = acc
        frame.breaks, frame.continues = sb, sc
        if out is not None:
            out.ctl = ctl0
        return out

    s_AsyncFor = s_For

    def s_While(self, s, st):
        frame = self.stack[-1]
        sb, sc = frame.breaks, frame.continues
        frame.breaks, frame.continues = [], []
        ctl0 = st.ctl
        acc = st
        always = isinstance(s.test, ast.Constant) and bool(s.test.value)
        for _ in range(2):
            tv = self.ev(s.test, acc)
            body = acc.fork()
            body.ctl = ctl0 | self.deep(tv, acc)
            r = self.block(s.body, body)
            for c in frame.continues:
                r = self.join_states(r, c)
            frame.continues = []
            acc = self.join_states(acc, r)
        out = None if always else acc
        for b in frame.breaks:
            out = self.join_states(out, b)
        frame.breaks, frame.continues = sb, sc
        if out is not None:
            out.ctl = ctl0
        return out

    def s_Break(self, s, st):
        self.stack[-1].breaks.append(st)
        return None

    def s_Continue(self, s, st):
        self.stack[-1].continues.append(st)
        return None

    def s_Try(self, s, st):
        pre = st.fork()
        ctl0 = st.ctl
        post = self.block(s.body, st)
        outs = []
        handler_entry = self.join_states(pre.fork(), post.fork() if post is not None else None)
        for h in s.handlers if post is None or not self.ignore_handlers else ():
            hs = handler_entry.fork()
            if h.name:
                hs.env[h.name] = unknown()
            outs.append(self.block(h.body, hs))
        if post is not None and s.orelse:
            post = self.block(s.orelse, post)
        out = post
        for o in outs:
            out = self.join_states(out, o)
        if s.finalbody:
            if out is None:
                self.block(s.finalbody, handler_entry.fork())
            else:
                out = self.block(s.finalbody, out)
        if out is not None:
            out.ctl = ctl0
        return out

    s_TryStar = s_Try

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, V(v.deps, v.ctl, v.refs, E, (), True), st, s)
        return self.block(s.body, st)

    s_AsyncWith = s_With

    def s_FunctionDef(self, s, st):
        f = getattr(s, "_vfunc", None)
        if f is None:
            return st
        # decorators are treated as transparent
        st.env[s.name] = V(funcs=(FV("func", f, None, st.env),))
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_Match(self, s, st):
        subj = self.ev(s.subject, st)
        out = None
        fall = st
        ctl0 = st.ctl
        wild = False
        for case in s.cases:
            cs = st.fork()
            cs.ctl = ctl0 | self.deep(subj, st)
            for n in ast.walk(case.pattern):
                nm = getattr(n, "name", None)
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and nm:
                    cs.env[nm] = V(subj.deps, subj.ctl, subj.refs, E, (), True)
            if isinstance(case.pattern, ast.MatchAs) and case.pattern.pattern is None and case.guard is None:
                wild = True
            out = self.join_states(out, self.block(case.body, cs))
        if not wild:
            out = self.join_states(out, fall)
        if out is not None:
            out.ctl = ctl0
        return out

    def s_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            r = self.prog.modules.get(full)
            st.env[nm] = self.from_res(r if r is not None else ("ext", full), st)
        return st

    def s_ImportFrom(self, s, st):
        base = self.prog._abs_from(self.stack[-1].module, s)
        for a in s.names:
            mm = self.prog.modules.get(base)
            if mm is not None:
                r = self.prog.resolve_name(mm, a.name) or self.prog.modules.get(base + "." + a.name)
            else:
                r = ("ext", base + "." + a.name)
            st.env[a.asname or a.name] = self.from_res(r, st)
        return st

    # ---- assignment --------------------------------------------------------------------

    def assign(self, t, v, st, node, aug=False):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            known, summ = self.elements(v, st)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if known is not None and not star and len(known) == len(t.elts):
                for e, x in zip(t.elts, known):
                    self.assign(e, x.with_(ctl=st.ctl), st, node)
                return
            if known is not None and len(star) == 1 and len(known) >= len(t.elts) - 1:
                i = star[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], known[:i]):
                    self.assign(e, x, st, node)
                mid = known[i : len(known) - after]
                self.assign(t.elts[i].value, self.new(st, "list", t.elts[i], items=list(mid)), st, node)
                for e, x in zip(t.elts[i + 1 :], known[len(known) - after :]):
                    self.assign(e, x, st, node)
                return
            s = summ if summ is not None else (join(*known) if known else BOT)
            el = V(s.deps | (v.deps if not v.refs else E), s.ctl | v.ctl | st.ctl, s.refs, s.consts, s.funcs, True)
            for e in t.elts:
                if isinstance(e, ast.Starred):
                    self.assign(e.value, self.new(st, "list", e, elem=el), st, node)
                else:
                    self.assign(e, el, st, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.setattr(base, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.ev_index(t.slice, st)
            if not aug or True:
                self.effect("item", base, st, node, ast.unparse(t))
            self.store_item(base, idx, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def store_item(self, base, idx, v, st):
        strong = len(base.refs) == 1 and not base.top
        for r in base.refs:
            o = st.heap.get(r)
            if o is None:
                continue
            if o.kind == "dict":
                if isinstance(o.tag, tuple) and o.tag[0] == "__dict__" and o.tag[1] in st.heap:
                    inst = st.heap[o.tag[1]]
                    ff = dict(inst.fields)
                    names = [unwrapc(c) for c in idx.consts] if idx.consts and not idx.top else []
                    for k in names:
                        if isinstance(k, str):
                            ff[k] = v if len(names) == 1 and k not in ff else join(ff[k], v) if k in ff else v
                    st.heap[o.tag[1]] = inst.copy(fields=ff)
                ks = [unwrapc(c) for c in idx.consts] if idx.consts and not idx.top and not idx.refs else None
                f = dict(o.fields)
                if ks is not None and all(isinstance(k, (str, int)) for k in ks):
                    for k in ks:
                        f[k] = v if strong and len(ks) == 1 else join(f[k], v) if k in f else v
                    st.heap[r] = o.copy(fields=f)
                else:
                    st.heap[r] = o.copy(elem=join(o.elem, v.with_(deps=idx.deps)) if o.elem is not None else v.with_(deps=idx.deps))
            elif o.kind == "list" and o.items is not None:
                try:
                    k = idx.const()
                    if isinstance(k, int) and -len(o.items) <= k < len(o.items):
                        items = list(o.items)
                        items[k] = v if strong else join(items[k], v)
                        st.heap[r] = o.copy(items=items)
                        continue
                except KeyError:
                    pass
                st.heap[r] = o.copy(items=[join(x, v) for x in o.items] if o.items else None, elem=v if not o.items else o.elem)
            else:
                vd = V(v.deps | idx.deps, v.ctl, v.refs if o.kind != "array" else E, E, v.funcs, True)
                st.heap[r] = o.copy(elem=join(o.elem, vd) if o.elem is not None else vd)

    def setattr(self, base, attr, v, st, node):
        strong = len(base.refs) == 1 and not base.top and not base.funcs
        if attr == "__dict__":
            for r in base.refs:
                o = st.heap.get(r)
                ff = dict(o.fields) if o is not None else {}
                elem = o.elem if o is not None else None
                for q in v.refs:
                    d = st.heap.get(q)
                    if d is not None and d.kind == "dict":
                        if isinstance(d.tag, tuple) and d.tag[0] == "__dict__" and d.tag[1] != r:
                            self.effect_obj("alias", d, st, node, "__dict__")
                        ff.update({k: x for k, x in d.fields.items() if isinstance(k, str)})
                        if d.elem is not None:
                            elem = join(elem, d.elem) if elem is not None else d.elem
                if o is not None:
                    st.heap[r] = o.copy(fields=ff, elem=elem)
            return
        for r in base.refs:
            o = st.heap.get(r)
            if o is None:
                continue
            handled = False
            for c in o.cls:
                s = c.lookup_setter(attr)
                if s is not None and not self.no_inline(s):
                    self.call_func(s, V(refs=frozenset([r]), deps=base.deps), [v], {}, st, node)
                    handled = True
            if handled:
                if self.on_setattr:
                    self.on_setattr(st.heap[r], attr, v, node, self.stack[-1], st)
                continue
            if self.on_setattr:
                self.on_setattr(o, attr, v, node, self.stack[-1], st)
            self.effect_obj("attr", o, st, node, attr)
            o = st.heap[r]
            f = dict(o.fields)
            if strong:
                f[attr] = v
            else:
                f[attr] = join(f[attr], v) if attr in f else v
            st.heap[r] = o.copy(fields=f)
        for f in base.funcs:
            if f.kind == "class" and self.on_setattr:
                self.on_setattr(f.a, attr, v, node, self.stack[-1], st)
            if f.kind == "class" and isinstance(f.a, Class):
                self.effects.append(
                    Effect("attr", "::" + f.a.name, "::" + f.a.name, node, self.stack[-1].func, attr, None,
                           tuple(x.func for x in self.stack))
                )

    def effect(self, kind, base, st, node, detail):
        for r in base.refs:
            o = st.heap.get(r)
            if o is not None:
                self.effect_obj(kind, o, st, node, detail)

    def effect_obj(self, kind, o, st, node, detail):
        if o.origin is None:
            return
        self.effects.append(
            Effect(kind, o.origin.split(".")[0].split("[")[0], o.origin, node, self.stack[-1].func, detail, o,
                   tuple(f.func for f in self.stack))
        )

    # ---- truth and narrowing -------------------------------------------------------------

    def truth(self, v, st):
        if v.top or v.funcs and v.refs:
            return None
        res = set()
        for c in v.consts:
            res.add(bool(unwrapc(c)))
        for r in v.refs:
            o = st.heap.get(r)
            if o is None:
                return None
            if o.kind == "inst" and o.cls:
                for c in o.cls:
                    if c.lookup("__bool__")[0] or c.lookup("__len__")[0]:
                        return None
                    if any(isinstance(b, str) and b not in ("ABC", "abc.ABC", "object", "ext") for k in c.mro for b in k.bases):
                        return None
                res.add(True)
            elif o.kind in ("list", "tuple") and o.items is not None and o.elem is None:
                res.add(bool(o.items))
            else:
                return None
        if v.funcs:
            res.add(True)
        if len(res) == 1:
            return res.pop()
        return None

    def narrow(self, test, st, val):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, st, not val)
        if isinstance(test, ast.BoolOp):
            if (isinstance(test.op, ast.And) and val) or (isinstance(test.op, ast.Or) and not val):
                for x in test.values:
                    st = self.narrow(x, st, val)
            return st
        if isinstance(test, ast.NamedExpr):
            return self.narrow(test.target, st, val)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq)) == val
            if isinstance(test.left, ast.Name) and test.left.id in st.env:
                v = st.env[test.left.id]
                if isnone:
                    st.env[test.left.id] = V(v.deps, v.ctl, consts=NONE_SET)
                elif v.top or v.consts:
                    st.env[test.left.id] = V(v.deps, v.ctl, v.refs, v.consts - NONE_SET, v.funcs, v.top and not v.refs)
            return st
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            classes = []
            specs = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            other = False
            for sp in specs:
                r = self.prog.resolve_expr(self.stack[-1].module, sp)
                if isinstance(r, Class):
                    classes.append(r)
                else:
                    other = True
            tgt = test.args[0]
            v = self.ev(tgt, st)
            for r in v.refs:
                o = st.heap.get(r)
                if o is None:
                    continue
                if o.kind == "inst" and o.cls:
                    keep = []
                    for c in o.cls:
                        if val:
                            if any(c.is_subclass(k) for k in classes):
                                keep.append(c)
                            else:
                                keep += [k for k in classes if k.is_subclass(c)]
                        elif not any(c.is_subclass(k) for k in classes):
                            keep.append(c)
                    if keep and tuple(keep) != o.cls:
                        st.heap[r] = o.copy(cls=tuple(keep))
                elif val and o.kind == "unknown" and classes and not other:
                    st.heap[r] = o.copy(kind="inst", cls=self.expand(tuple(classes)))
            if val and classes and not other and isinstance(tgt, ast.Name) and tgt.id in st.env:
                v = st.env[tgt.id]
                if v.top and v.refs:
                    st.env[tgt.id] = V(v.deps, v.ctl, v.refs, E, v.funcs, False)
            return st
        return st

    # ---- expressions ---------------------------------------------------------------------

    def ev(self, e, st):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            d = E
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    d |= self.deep(self.ev(ch, st), st)
            return unknown(d)
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        fr = self.stack[-1]
        env = fr.closure_env
        if env is not None and e.id in env:
            return env[e.id]
        # enclosing frames of nested functions sharing the environment chain
        for f in reversed(self.stack[:-1]):
            if f.closure_env is not None and e.id in f.closure_env and fr.func.outer is not None:
                return f.closure_env[e.id]
        r = self.prog.resolve_name(fr.module, e.id)
        if r is not None:
            return self.from_res(r, st, e.id)
        if e.id in BUILTINS:
            return V(funcs=(FV("builtin", e.id),))
        return unknown()

    def from_res(self, r, st, name=None):
        if r is None:
            return unknown()
        if isinstance(r, Func):
            return V(funcs=(FV("func", r),))
        if isinstance(r, Class):
            return V(funcs=(FV("class", r),))
        if isinstance(r, Module):
            if r.name == "mrmustard.math":
                return self.math_val(st)
            return V(funcs=(FV("mod", r),))
        if r[0] == "ext":
            return V(funcs=(FV("ext", r[1]),))
        if r[0] == "var":
            return self.global_val(r, st, name)
        return unknown()

    def math_val(self, st):
        oid = "g:math"
        if oid not in st.heap:
            st.heap[oid] = Obj(oid, "inst", (self.manager,) if self.manager else (), origin="::math")
        return V(refs=frozenset([oid]))

    def global_val(self, r, st, name):
        _, expr, mod = r
        if expr is None:
            return unknown()
        if isinstance(expr, ast.Call):
            c = self.prog.resolve_expr(mod, expr.func)
            if isinstance(c, Class):
                if c.name == "BackendManager":
                    return self.math_val(st)
                oid = f"g:{c.qualname}:{name}"
                if oid not in st.heap:
                    st.heap[oid] = Obj(oid, "inst", (c,), origin=f"::{name}")
                return V(refs=frozenset([oid]))
        if isinstance(expr, ast.Constant):
            return const(expr.value)
        if isinstance(expr, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp)):
            oid = f"g:{mod.name}:{name}"
            if oid not in st.heap:
                kind = "dict" if isinstance(expr, (ast.Dict, ast.DictComp)) else "list" if isinstance(expr, (ast.List, ast.ListComp)) else "set"
                fields = {}
                if isinstance(expr, ast.Dict):
                    fake = Frame(_modfunc(mod), 0, ())
                    self.stack.append(fake)
                    try:
                        for k, v in zip(expr.keys, expr.values):
                            if isinstance(k, ast.Constant):
                                fields[k.value] = self.ev(v, st)
                    finally:
                        self.stack.pop()
                st.heap[oid] = Obj(oid, kind, fields=fields, elem=unknown(frozenset([f"::{name}"])), origin=f"::{name}")
            return V(deps=frozenset([f"::{name}"]), refs=frozenset([oid]))
        if isinstance(expr, (ast.Tuple, ast.Name, ast.Attribute, ast.Lambda)):
            if len(self.stack) > 40:
                return unknown()
            fake = Frame(_modfunc(mod), 0, ())
            self.stack.append(fake)
            saved = st.env
            st.env = {}
            try:
                return self.ev(expr, st)
            finally:
                st.env = saved
                self.stack.pop()
        return unknown(frozenset([f"::{name}"]))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v.with_(ctl=st.ctl), st, e)
        return v

    def e_Tuple(self, e, st):
        items = self.ev_items(e.elts, st)
        if items is None:
            return self.new(st, "tuple", e, elem=join(*[self.elem_of(x, st) for x in e.elts]))
        return self.new(st, "tuple", e, items=items)

    def e_List(self, e, st):
        items = self.ev_items(e.elts, st)
        if items is None:
            return self.new(st, "list", e, elem=join(*[self.elem_of(x, st) for x in e.elts]))
        return self.new(st, "list", e, items=items)

    def e_Set(self, e, st):
        vs = [self.elem_of(x, st) for x in e.elts]
        return self.new(st, "set", e, elem=join(*vs))

    def elem_of(self, x, st):
        if isinstance(x, ast.Starred):
            v = self.ev(x.value, st)
            known, summ = self.elements(v, st)
            return join(*(known or []), summ) if (known or summ) else BOT
        return self.ev(x, st)

    def ev_items(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                known, _ = self.elements(v, st)
                if known is None:
                    return None
                out += known
            else:
                out.append(self.ev(x, st))
        return out

    def e_Dict(self, e, st):
        fields, elem = {}, None
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st)
            if k is None:
                for r in vv.refs:
                    o = st.heap.get(r)
                    if o is not None and o.kind == "dict":
                        fields.update(o.fields)
                        if o.elem is not None:
                            elem = join(elem, o.elem) if elem is not None else o.elem
                if not vv.refs or vv.top:
                    elem = join(elem, unknown(vv.deps)) if elem is not None else unknown(vv.deps)
                continue
            kv = self.ev(k, st)
            try:
                fields[kv.const()] = vv
            except KeyError:
                x = vv.with_(deps=kv.deps)
                elem = join(elem, x) if elem is not None else x
        return self.new(st, "dict", e, fields=fields, elem=elem)

    def _iter_node(self, r, node):
        """A call-site stand-in for an implicit iteration, one per iterated object."""
        cache = self.prog.__dict__.setdefault("_iternodes", {})
        if r not in cache:
            cache[r] = ast.copy_location(ast.Pass(), node)
        return cache[r]

    def elements(self, v, st):
        """(list of known elements or None, summary element or None)."""
        if len(v.refs) == 1 and not v.top and not v.consts:
            o = st.heap.get(next(iter(v.refs)))
            if o is not None:
                if o.kind in ("list", "tuple") and o.items is not None and o.elem is None:
                    return [x.with_(ctl=v.ctl) for x in o.items], None
                if o.kind == "dict" and o.elem is None and o.origin is None:
                    return [const(k) for k in o.fields], None
        if v.is_const():
            c = v.const()
            if isinstance(c, str):
                return [const(ch, v.deps, v.ctl) for ch in c], None
            if isinstance(c, tuple):
                return [const(x, v.deps, v.ctl) for x in c], None
        parts = []
        for r in v.refs:
            o = st.heap.get(r)
            if o is None:
                continue
            if o.items:
                parts += o.items
            if o.elem is not None:
                parts.append(o.elem)
            if o.kind in ("dict",):
                parts += [const(k) for k in o.fields]
            if o.kind in ("unknown", "array", "list") and o.origin is not None and o.elem is None:
                x = self.in_elem(st, o)
                parts.append(x if x is not None else V(deps=frozenset([o.origin]), refs=E, top=True))
            if o.kind == "inst" and o.cls:
                m, c = o.cls[0].lookup("__iter__")
                if isinstance(m, Func):
                    rv = self.call_func(m, V(refs=frozenset([r]), deps=v.deps), [], {}, st, self._iter_node(r, m.node))
                    k2, s2 = self.elements(rv, st) if rv is not None else (None, None)
                    parts += k2 or []
                    if s2 is not None:
                        parts.append(s2)
        summ = join(*parts) if parts else BOT
        summ = V(summ.deps | v.deps, summ.ctl | v.ctl, summ.refs, summ.consts, summ.funcs, True if (v.top or not parts) else summ.top)
        return None, summ

    def ev_index(self, s, st):
        return self.ev(s, st)

    def e_Slice(self, e, st):
        d = E
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                d |= self.deep(self.ev(x, st), st)
        return V(deps=d, top=True)

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        idx = self.ev(e.slice, st)
        return self.subscript(base, idx, e, st)

    def subscript(self, base, idx, e, st):
        outs = []
        basic = _basic_index(e.slice) if isinstance(e, ast.Subscript) else False
        idd = self.deep(idx, st)
        for r in base.refs:
            o = st.heap.get(r)
            if o is None:
                continue
            if o.kind in ("list", "tuple"):
                if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
                    items = None
                    if o.items is not None:
                        try:
                            lo = self.ev(e.slice.lower, st).const() if e.slice.lower is not None else None
                            hi = self.ev(e.slice.upper, st).const() if e.slice.upper is not None else None
                            sp = self.ev(e.slice.step, st).const() if e.slice.step is not None else None
                            items = o.items[lo:hi:sp]
                        except (KeyError, TypeError):
                            items = None
                    if items is not None:
                        outs.append(self.new(st, o.kind, e, items=list(items)))
                    else:
                        parts = list(o.items or [])
                        if o.elem is not None:
                            parts.append(o.elem)
                        if o.origin is not None:
                            parts.append(unknown(frozenset([o.origin])))
                        outs.append(self.new(st, o.kind, e, elem=join(*parts) if parts else unknown(base.deps), deps=base.deps))
                    continue
                if o.items is not None:
                    try:
                        k = idx.const()
                        outs.append(o.items[k].with_(ctl=base.ctl))
                        continue
                    except (KeyError, IndexError, TypeError):
                        pass
                    outs.append((join(*o.items) if o.items else BOT).with_(deps=idd))
                if o.elem is not None:
                    outs.append(o.elem.with_(deps=idd))
                if o.items is None and o.elem is None:
                    x = self.in_elem(st, o)
                    outs.append(x.with_(deps=idd) if x is not None else unknown((frozenset([o.origin]) if o.origin else E) | idd))
                continue
            if o.kind == "dict":
                if idx.consts and not idx.top and not idx.refs:
                    hit = False
                    for c in idx.consts:
                        k = unwrapc(c)
                        if k in o.fields:
                            outs.append(o.fields[k])
                            hit = True
                        elif o.origin is not None:
                            p = f"{o.origin}[{k!r}]"
                            outs.append(unknown(frozenset([p])))
                            hit = True
                    if o.elem is not None and (not hit):
                        outs.append(o.elem)
                    if not hit and o.elem is None:
                        outs.append(V(deps=base.deps, top=True))
                else:
                    parts = list(o.fields.values())
                    if o.elem is not None:
                        parts.append(o.elem)
                    if o.origin is not None:
                        parts.append(unknown(frozenset([o.origin])))
                    outs.append(join(*parts).with_(deps=idd) if parts else unknown(base.deps | idd))
                continue
            if o.kind == "inst" and o.cls:
                done = False
                for c in o.cls:
                    m, _ = c.lookup("__getitem__")
                    if isinstance(m, Func):
                        rv = self.call_func(m, V(refs=frozenset([r]), deps=base.deps), [idx], {}, st, e)
                        if rv is not None:
                            outs.append(rv)
                        done = True
                if not done:
                    outs.append(unknown(base.deps | idd))
                continue
            # arrays and unknown objects
            x = self.in_elem(st, o)
            if x is not None:
                outs.append(x.with_(deps=idd))
                continue
            d = base.deps | idd | (frozenset([o.origin]) if o.origin else E) | (o.elem.deps if o.elem is not None else E)
            if basic and o.kind in ("array", "unknown"):
                outs.append(V(d, base.ctl, frozenset([r]), E, (), False if o.kind == "array" else True))
            else:
                vv = self.new(st, "array", e, deps=d) if o.kind == "array" else unknown(d)
                outs.append(vv)
        if base.is_const():
            try:
                return const(base.const()[idx.const()], base.deps | idx.deps)
            except Exception:  # noqa: BLE001
                pass
        if base.top or base.consts or base.funcs or not outs:
            outs.append(unknown(base.deps | idd, base.ctl))
        return join(*outs)

    def e_Attribute(self, e, st):
        base = self.ev(e.value, st)
        return self.getattr(base, e.attr, e, st)

    def getattr(self, base, attr, e, st):
        outs = []
        for r in base.refs:
            o = st.heap.get(r)
            if o is None:
                continue
            outs.append(self.getattr_obj(o, r, attr, base, e, st))
        for f in base.funcs:
            outs.append(self.getattr_func(f, attr, base, e, st))
        if base.consts and not base.only_none():
            outs.append(V(deps=base.deps, ctl=base.ctl, funcs=(FV("bm", attr, V(base.deps, base.ctl, consts=base.consts - NONE_SET)),)))
        if base.top and not outs or (not outs):
            outs.append(V(deps=base.deps, ctl=base.ctl, funcs=(FV("bm", attr, V(base.deps, base.ctl, top=True)),), top=True))
        return join(*outs)

    def getattr_obj(self, o, r, attr, base, e, st):
        me = V(refs=frozenset([r]), deps=base.deps, ctl=base.ctl)
        if o.kind == "inst":
            if attr in o.fields:
                if self.on_read:
                    self.on_read(o, attr, e, self.stack[-1], st)
                return o.fields[attr].with_(ctl=base.ctl)
            if attr == "__class__":
                if o.cls:
                    return V(funcs=tuple(FV("class", c) for c in o.cls))
                return unknown()
            if attr == "__dict__":
                f = dict(o.fields)
                oid = "dict:" + r
                st.heap[oid] = Obj(oid, "dict", fields=f, origin=o.origin, tag=("__dict__", r))
                return V(deps=base.deps, refs=frozenset([oid]))
            outs = []
            for c in o.cls:
                m, owner = c.lookup(attr)
                if isinstance(m, Func):
                    if m.kind == "property":
                        if m.is_abstract():
                            continue
                        if self.no_inline(m):
                            outs.append(unknown(base.deps | frozenset([f"{o.origin}.{attr}"] if o.origin else [])))
                            continue
                        rv = self.call_func(m, me, [], {}, st, e)
                        if rv is not None:
                            outs.append(rv)
                        else:
                            outs.append(BOT)
                    elif m.kind == "classmethod":
                        outs.append(V(funcs=(FV("func", m, V(funcs=(FV("class", c),))),)))
                    elif m.kind == "staticmethod":
                        outs.append(V(funcs=(FV("func", m),)))
                    else:
                        outs.append(V(funcs=(FV("func", m, me),)))
                elif isinstance(m, tuple) and m[0] == "attr":
                    if o.origin is not None and any(n == attr for n, _ in dataclass_fields(c)):
                        return self.lazy_field(o, r, attr, st)
                    outs.append(self.class_attr(owner, m[1], st))
                    if o.origin is not None and self.assigned_in(c, attr):
                        # a class default that instances override
                        outs.append(self.lazy_field(o, r, attr, st))
                        f = dict(st.heap[r].fields)
                        f[attr] = join(*outs)
                        st.heap[r] = st.heap[r].copy(fields=f)
            if outs:
                if self.on_read and o.origin:
                    self.on_read(o, attr, e, self.stack[-1], st)
                return join(*outs)
            if o.origin is not None:
                if self.on_read:
                    self.on_read(o, attr, e, self.stack[-1], st)
                return self.lazy_field(o, r, attr, st)
            return V(deps=base.deps, ctl=base.ctl, top=True)
        if o.kind in ("list", "tuple", "set", "dict"):
            return V(deps=base.deps, ctl=base.ctl, funcs=(FV("bm", attr, me),))
        # arrays / unknown
        odeps = base.deps | (frozenset([o.origin]) if o.origin else E) | (o.elem.deps if o.elem is not None else E)
        if attr in PURE_ATTRS:
            return unknown(odeps, base.ctl)
        if attr in VIEW_ATTRS:
            return V(odeps, base.ctl, frozenset([r]), E, (), base.top)
        if o.kind == "array":
            return V(deps=odeps, ctl=base.ctl, funcs=(FV("bm", attr, me.with_(deps=odeps)),))
        if attr in o.fields:
            return o.fields[attr]
        v = self.lazy_field(o, r, attr, st) if o.origin is not None else unknown(odeps)
        return V(v.deps | odeps, v.ctl, v.refs, v.consts, v.funcs + (FV("bm", attr, me.with_(deps=odeps)),), True)

    def assigned_in(self, cls, attr):
        key = (cls, attr)
        cache = self.prog.__dict__.setdefault("_assigned", {})
        if key not in cache:
            cache[key] = any(
                isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store)
                and isinstance(n.value, ast.Name) and n.value.id == m.params[0].name
                for k in cls.mro for m in k.members.values() if isinstance(m, Func) and m.params
                for n in _own(m.node)
            )
        return cache[key]

    def lazy_field(self, o, r, attr, st):
        path = f"{o.origin}.{attr}"
        classes, tag = self.field_type(o, attr)
        v = self._input_from_ann(st, path, classes, tag, self.field_elem(o, attr) if not classes else ())
        f = dict(st.heap[r].fields)
        f[attr] = v
        st.heap[r] = st.heap[r].copy(fields=f)
        return v

    def field_elem(self, o, attr):
        """Element classes of a container field: annotations, or what __init__ puts into it."""
        key = (o.cls, attr)
        cache = self.prog.__dict__.setdefault("_felem", {})
        if key in cache:
            return cache[key]
        res = cache[key] = []
        for c in o.cls:
            for k in c.mro:
                for n in k.node.body:
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == attr:
                        res += [x for x in self.ann_elem(k.module, n.annotation) if x not in res]
                m = k.members.get("__init__")
                if not isinstance(m, Func):
                    continue
                sname = m.params[0].name
                anns = {p.name: p.annotation for p in m.params}

                def is_field(t):
                    return isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == sname

                for n in _own(m.node):
                    if isinstance(n, ast.AnnAssign) and is_field(n.target):
                        res += [x for x in self.ann_elem(m.module, n.annotation, m) if x not in res]
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "append") and is_field(n.func.value) and n.args and isinstance(n.args[0], ast.Call):
                        cc = self.prog.resolve_expr(m.module, n.args[0].func)
                        if isinstance(cc, Class) and cc not in res:
                            res.append(cc)
                    if isinstance(n, ast.Assign) and any(is_field(t) for t in n.targets):
                        for y in ast.walk(n.value):
                            if isinstance(y, ast.Name) and anns.get(y.id) is not None:
                                res += [x for x in self.ann_elem(m.module, anns[y.id], m) if x not in res]
        return res

    def field_type(self, o, attr):
        """Class of an instance field: from annotations, a same-named property, or __init__."""
        key = (o.cls, attr)
        cache = self.prog.__dict__.setdefault("_ftype", {})
        if key in cache:
            return cache[key]
        cache[key] = ([], None)
        res = ([], None)
        for c in o.cls:
            for k in c.mro:
                # property returning self.<attr>
                for m in k.members.values():
                    if isinstance(m, Func) and m.kind == "property" and m.node.returns is not None:
                        for n in _own(m.node):
                            if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and n.value.attr == attr and isinstance(n.value.value, ast.Name) and n.value.value.id == m.params[0].name:
                                cl, tag = self.ann_info(m.module, m.node.returns, m)
                                if cl or tag:
                                    res = (list(self.expand(tuple(cl))) if cl else [], tag)
                for m in list(k.members.values()):
                    if isinstance(m, Func) and m.name in ("__init__",):
                        for n in _own(m.node):
                            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == attr:
                                cl, tag = self.ann_info(m.module, n.annotation, m)
                                if cl or tag:
                                    res = (list(self.expand(tuple(cl))) if cl else [], tag)
                            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                                for t in n.targets:
                                    if isinstance(t, ast.Attribute) and t.attr == attr:
                                        cc = self.prog.resolve_expr(m.module, n.value.func)
                                        if isinstance(cc, Class) and not res[0]:
                                            res = ([cc], None)
                                        d = dotted(n.value.func) or ""
                                        if d.endswith("math.astensor") or d.endswith("np.array") or d.endswith("np.asarray"):
                                            if not res[0]:
                                                res = ([], "array")
                            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.BoolOp, ast.IfExp)):
                                for t in n.targets:
                                    if isinstance(t, ast.Attribute) and t.attr == attr and not res[0]:
                                        for sub in ast.walk(n.value):
                                            if isinstance(sub, ast.Call):
                                                cc = self.prog.resolve_expr(m.module, sub.func)
                                                if isinstance(cc, Class):
                                                    res = ([cc], None)
                                        if isinstance(n.value, ast.IfExp) and "astensor" in ast.unparse(n.value) and not res[0]:
                                            res = ([], "array")
                if res != ([], None):
                    break
            if res != ([], None):
                break
        cache[key] = res
        return res

    def class_attr(self, owner, expr, st):
        if isinstance(expr, ast.Constant):
            return const(expr.value)
        f = getattr(expr, "_vfunc", None)
        if isinstance(expr, ast.Lambda) and f is not None:
            return V(funcs=(FV("func", f),))
        r = self.prog.resolve_expr(owner.module, expr) if isinstance(expr, (ast.Name, ast.Attribute)) else None
        if r is not None:
            return self.from_res(r, st)
        return unknown()

    def getattr_func(self, f, attr, base, e, st):
        if f.kind == "mod":
            r = self.prog.resolve_attr(f.a, attr)
            return self.from_res(r, st, attr)
        if f.kind == "ext":
            return V(deps=base.deps, funcs=(FV("ext", f.a + "." + attr),))
        if f.kind == "class":
            if attr in ("__name__", "__qualname__", "__module__"):
                return const(f.a.name) if attr != "__module__" else const(f.a.module.name)
            m, owner = f.a.lookup(attr)
            if isinstance(m, Func):
                if m.kind == "classmethod":
                    return V(funcs=(FV("func", m, V(funcs=(f,))),))
                return V(funcs=(FV("func", m),))
            if isinstance(m, tuple):
                return self.class_attr(owner, m[1], st)
            return V(deps=base.deps, funcs=(FV("ext", f"{f.a.name}.{attr}", None, f.a),), top=False)
        if f.kind == "super":
            cls, selfv, start = f.a, f.b, f.c
            m, owner = cls.lookup(attr, after=start)
            if isinstance(m, Func):
                if m.kind == "property":
                    rv = self.call_func(m, selfv, [], {}, st, e)
                    return rv if rv is not None else BOT
                if m.kind == "classmethod":
                    return V(funcs=(FV("func", m, V(funcs=(FV("class", cls),))),))
                if m.kind == "staticmethod":
                    return V(funcs=(FV("func", m),))
                return V(funcs=(FV("func", m, selfv),))
            if isinstance(m, tuple):
                return self.class_attr(owner, m[1], st)
            return V(funcs=(FV("ext", f"super.{attr}", selfv),))
        if f.kind == "func" and attr == "__self__" and isinstance(f.b, V):
            return f.b
        if f.kind == "func":
            return V(deps=base.deps, funcs=(FV("ext", f"{f.a.qualname}.{attr}"),), top=True)
        return unknown(base.deps)

    # operators

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, e):
        if isinstance(op, ast.BitOr) and a.funcs and b.funcs and not a.refs and not b.refs:
            return V(a.deps | b.deps, E, E, E, a.funcs + tuple(f for f in b.funcs if f not in a.funcs))
        if a.is_const() and b.is_const():
            x, y = a.const(), b.const()
            try:
                if isinstance(x, (int, float, str, complex)) and isinstance(y, (int, float, str, complex, tuple)):
                    r = _constop(op, x, y)
                    return const(r, a.deps | b.deps, a.ctl | b.ctl)
            except Exception:  # noqa: BLE001
                pass
        ao = [st.heap[r] for r in a.refs if r in st.heap]
        bo = [st.heap[r] for r in b.refs if r in st.heap]
        if isinstance(op, ast.Add) and ao and bo and not a.top and not b.top and all(o.kind in ("list", "tuple") for o in ao + bo):
            k1, s1 = self.elements(a, st)
            k2, s2 = self.elements(b, st)
            kind = ao[0].kind
            if k1 is not None and k2 is not None:
                return self.new(st, kind, e, items=k1 + k2)
            parts = (k1 or []) + (k2 or []) + [x for x in (s1, s2) if x is not None]
            return self.new(st, kind, e, elem=join(*parts))
        if isinstance(op, ast.BitOr) and ao and bo and all(o.kind == "dict" for o in ao + bo):
            fields, elem = {}, None
            for o in ao + bo:
                fields.update(o.fields)
                if o.elem is not None:
                    elem = join(elem, o.elem) if elem is not None else o.elem
                if o.origin is not None:
                    u = unknown(frozenset([o.origin]))
                    elem = join(elem, u) if elem is not None else u
            return self.new(st, "dict", e, fields=fields, elem=elem)
        outs = []
        dn = DUNDER.get(type(op))
        handled = False
        if dn:
            for r in a.refs:
                o = st.heap.get(r)
                if o is not None and o.kind == "inst" and o.cls:
                    for c in o.cls:
                        m, _ = c.lookup(f"__{dn}__")
                        if isinstance(m, Func) and not m.is_abstract():
                            rv = self.call_func(m, V(refs=frozenset([r]), deps=a.deps), [b], {}, st, e)
                            if rv is not None:
                                outs.append(rv)
                            handled = True
            if not handled:
                for r in b.refs:
                    o = st.heap.get(r)
                    if o is not None and o.kind == "inst" and o.cls:
                        for c in o.cls:
                            m, _ = c.lookup(f"__r{dn}__")
                            if isinstance(m, Func) and not m.is_abstract():
                                rv = self.call_func(m, V(refs=frozenset([r]), deps=b.deps), [a], {}, st, e)
                                if rv is not None:
                                    outs.append(rv)
                                handled = True
        if handled and outs:
            return join(*outs)
        d = self.deep(a, st) | self.deep(b, st)
        if any(o.kind == "array" for o in ao + bo):
            return self.new(st, "array", e, deps=d)
        return unknown(d, a.ctl | b.ctl)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            b = self.truth(v, st)
            if b is not None:
                return const(not b, v.deps, v.ctl)
            return unknown(self.deep(v, st), v.ctl)
        if v.is_const():
            c = v.const()
            if isinstance(c, (int, float, complex)) and not isinstance(c, bool):
                try:
                    return const(-c if isinstance(e.op, ast.USub) else c if isinstance(e.op, ast.UAdd) else ~c, v.deps, v.ctl)
                except TypeError:
                    pass
        if isinstance(e.op, ast.USub):
            for r in v.refs:
                o = st.heap.get(r)
                if o is not None and o.kind == "inst":
                    outs = []
                    for c in o.cls:
                        m, _ = c.lookup("__neg__")
                        if isinstance(m, Func) and not m.is_abstract():
                            rv = self.call_func(m, V(refs=frozenset([r]), deps=v.deps), [], {}, st, e)
                            if rv is not None:
                                outs.append(rv)
                    if outs:
                        return join(*outs)
        if any(st.heap.get(r) is not None and st.heap[r].kind == "array" for r in v.refs):
            return self.new(st, "array", e, deps=self.deep(v, st))
        return unknown(self.deep(v, st), v.ctl)

    def e_BoolOp(self, e, st):
        outs = []
        ctl = E
        for i, x in enumerate(e.values):
            v = self.ev(x, st)
            b = self.truth(v, st)
            last = i == len(e.values) - 1
            if isinstance(e.op, ast.Or):
                if b is True or last:
                    outs.append(v)
                    break
                if b is None:
                    # a value kept by `or` is truthy: drop None and falsy constants
                    keep = frozenset(c for c in v.consts if unwrapc(c))
                    outs.append(V(v.deps, v.ctl, v.refs, keep, v.funcs, v.top))
                    ctl |= self.deep(v, st)
            else:
                if b is False or last:
                    outs.append(v)
                    break
                if b is None:
                    outs.append(V(v.deps, v.ctl, v.refs, frozenset(c for c in v.consts if not unwrapc(c)), (), v.top))
                    ctl |= self.deep(v, st)
        r = join(*outs)
        return r.with_(ctl=ctl)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        d = self.deep(left, st)
        cur = left
        result = None
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, st)
            d |= self.deep(r, st)
            x = self.compare(op, cur, r, st)
            if x is None:
                result = "unk"
            elif x is False:
                return const(False, d)
            elif result is None:
                result = True
            cur = r
        if result is True:
            return const(True, d)
        return unknown(d, left.ctl)

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if a.is_const() and b.is_const():
                eq = a.const() == b.const() and type(a.const()) is type(b.const())
                if isinstance(op, (ast.Eq, ast.NotEq)):
                    eq = a.const() == b.const()
                return eq != neg
            for p, q in ((a, b), (b, a)):
                if p.only_none() and not q.may_none():
                    return neg
            if a.funcs and b.funcs and not a.top and not b.top and not a.refs and not b.refs and len(a.funcs) == 1 and len(b.funcs) == 1:
                if a.funcs[0].kind == "class" and b.funcs[0].kind == "class":
                    return (a.funcs[0].a is b.funcs[0].a) != neg
            return None
        if a.is_const() and b.is_const():
            x, y = a.const(), b.const()
            try:
                if isinstance(op, ast.Lt):
                    return x < y
                if isinstance(op, ast.LtE):
                    return x <= y
                if isinstance(op, ast.Gt):
                    return x > y
                if isinstance(op, ast.GtE):
                    return x >= y
                if isinstance(op, ast.In):
                    return x in y
                if isinstance(op, ast.NotIn):
                    return x not in y
            except TypeError:
                return None
        if isinstance(op, (ast.In, ast.NotIn)) and a.is_const() and len(b.refs) == 1 and not b.top:
            o = st.heap.get(next(iter(b.refs)))
            if o is not None and o.kind == "dict" and o.elem is None and o.origin is None:
                return (a.const() in o.fields) != isinstance(op, ast.NotIn)
            if o is not None and o.kind in ("list", "tuple") and o.items is not None and o.elem is None and all(i.is_const() for i in o.items):
                return (a.const() in [i.const() for i in o.items]) != isinstance(op, ast.NotIn)
        if isinstance(op, (ast.In, ast.NotIn)) and _class_of(a) is not None and len(b.refs) == 1 and not b.top:
            o = st.heap.get(next(iter(b.refs)))
            have = None
            if o is not None and o.kind == "set" and isinstance(o.tag, tuple) and o.tag[0] == "classes" and o.elem is not None and not o.elem.top and not o.elem.refs and not o.elem.consts and {f.a for f in o.elem.funcs} == o.tag[1]:
                have = o.tag[1]
            elif o is not None and o.kind in ("list", "tuple") and o.items is not None and o.elem is None and all(_class_of(i) is not None for i in o.items):
                have = frozenset(_class_of(i) for i in o.items)
            if have is not None:
                return (_class_of(a) in have) != isinstance(op, ast.NotIn)
        return None

    def e_IfExp(self, e, st):
        t = self.ev(e.test, st)
        b = self.truth(t, st)
        if self.on_branch:
            self.on_branch(e, t, st, self.stack[-1])
        if self.on_test:
            self.on_test(e.test, t, st, self.stack[-1])
        if b is True:
            return self.ev_narrow(e.body, e.test, st, True)
        if b is False:
            return self.ev_narrow(e.orelse, e.test, st, False)
        old = set(st.heap)
        v1 = self.ev_narrow(e.body, e.test, st, True)
        v2 = self.ev_narrow(e.orelse, e.test, st, False)
        c = self.deep(t, st) | t.ctl
        # a dict made in one arm only: its entries are there because of the test
        for r in v1.refs ^ v2.refs:
            o = st.heap.get(r)
            if o is not None and r not in old and o.kind == "dict":
                st.heap[r] = o.copy(fields={k: x.with_(ctl=c) for k, x in o.fields.items()})
        return join(v1, v2).with_(ctl=c)

    def ev_narrow(self, e, test, st, val):
        saved = dict(st.env)
        narrowed = {}
        s2 = self.narrow_noting(test, st, val, narrowed)
        v = self.ev(e, s2)
        self.widen(st, narrowed)
        # undo name narrowing, keep heap growth
        for k in list(st.env):
            if k in saved:
                st.env[k] = saved[k]
        return v

    def narrow_noting(self, test, st, val, narrowed):
        heap0 = dict(st.heap)
        s2 = self.narrow(test, st, val)
        for r, o in s2.heap.items():
            if r in heap0 and heap0[r] is not o:
                narrowed.setdefault(r, heap0[r])
        return s2

    def widen(self, st, narrowed):
        """What a test inside an expression told about the classes of objects holds in there only."""
        for r, o in narrowed.items():
            cur = st.heap.get(r)
            if cur is not None and (cur.cls, cur.kind) != (o.cls, o.kind):
                st.heap[r] = cur.copy(cls=o.cls, kind=o.kind)

    def e_Lambda(self, e, st):
        f = getattr(e, "_vfunc", None)
        if f is None:
            return unknown()
        return V(funcs=(FV("func", f, None, st.env),))

    def e_JoinedStr(self, e, st):
        parts, d, ok = [], E, True
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(str(x.value))
            else:
                v = self.ev(x.value, st)
                d |= self.deep(v, st)
                if v.is_const() and x.format_spec is None and x.conversion == -1:
                    parts.append(str(v.const()))
                else:
                    ok = False
        return const("".join(parts), d) if ok else unknown(d)

    def e_FormattedValue(self, e, st):
        return unknown(self.deep(self.ev(e.value, st), st))

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else const(None)
        if self.stack[-1].yields is not None:
            self.stack[-1].yields.append(v)
        return unknown()

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        k, s = self.elements(v, st)
        if self.stack[-1].yields is not None:
            self.stack[-1].yields.append(join(*(k or []), s) if (k or s) else BOT)
        return unknown()

    def comp(self, e, gens, st, elt_fn):
        """Evaluate a comprehension; returns (items or None, summary)."""
        results = []
        exact = True

        def rec(i, s):
            nonlocal exact
            if i == len(gens):
                results.append(elt_fn(s))
                return
            g = gens[i]
            it = self.ev(g.iter, s)
            known, summ = self.elements(it, s)
            if known is not None and len(known) <= MAXUNROLL * 2:
                for v in known:
                    self.assign(g.target, v, s, g.iter)
                    keep = True
                    cd = E
                    for c in g.ifs:
                        tv = self.ev(c, s)
                        if self.on_test:
                            self.on_test(c, tv, s, self.stack[-1])
                        b = self.truth(tv, s)
                        if b is False:
                            keep = False
                            break
                        if b is None:
                            exact = False
                            cd |= self.deep(tv, s)
                    if keep:
                        n = len(results)
                        rec(i + 1, s)
                        for j in range(n, len(results)):
                            results[j] = _with_ctl(results[j], cd)
            else:
                exact = False
                el = summ if summ is not None else (join(*known) if known else unknown(it.deps))
                self.assign(g.target, el.with_(deps=E if it.refs else it.deps), s, g.iter)
                cd = E
                outer = s
                for c in g.ifs:
                    tv = self.ev(c, s)
                    if self.on_test:
                        self.on_test(c, tv, s, self.stack[-1])
                    cd |= self.deep(tv, s)
                    outer.heap = s.heap
                    s = self.narrow(c, s, True)
                n = len(results)
                rec(i + 1, s)
                outer.heap = s.heap
                for j in range(n, len(results)):
                    results[j] = _with_ctl(results[j], cd)

        inner = State(dict(st.env), st.heap, st.ctl)
        rec(0, inner)
        st.heap = inner.heap
        # walrus targets leak
        for k, v in inner.env.items():
            if k not in st.env and any(isinstance(n, ast.NamedExpr) and n.target.id == k for n in ast.walk(e)):
                st.env[k] = v
        return results, exact

    def e_ListComp(self, e, st):
        res, exact = self.comp(e, e.generators, st, lambda s: self.ev(e.elt, s))
        if exact:
            return self.new(st, "list", e, items=res)
        return self.new(st, "list", e, elem=join(*res) if res else unknown())

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        res, exact = self.comp(e, e.generators, st, lambda s: self.ev(e.elt, s))
        v = self.new(st, "set", e, elem=join(*res) if res else None)
        if exact and all(_class_of(x) is not None for x in res):
            for r in v.refs:
                st.heap[r] = st.heap[r].copy(tag=("classes", frozenset(_class_of(x) for x in res)))
        return v

    def e_DictComp(self, e, st):
        res, exact = self.comp(e, e.generators, st, lambda s: (self.ev(e.key, s), self.ev(e.value, s)))
        fields, elem = {}, None
        for k, v in res:
            try:
                fields[k.const()] = v
            except KeyError:
                x = v.with_(deps=k.deps)
                elem = join(elem, x) if elem is not None else x
        return self.new(st, "dict", e, fields=fields, elem=elem)

    # ---- calls -------------------------------------------------------------------------

    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            fr = self.stack[-1]
            f = fr.func
            while f.cls is None and f.outer is not None:
                f = f.outer
            if f.cls is not None and fr.selfv is not None:
                cls = None
                for r in fr.selfv.refs:
                    o = st.heap.get(r)
                    if o is not None and o.cls:
                        cls = o.cls[0]
                for fv in fr.selfv.funcs:
                    if fv.kind == "class":
                        cls = fv.a
                if cls is None or not cls.is_subclass(f.cls):
                    cls = f.cls
                return V(funcs=(FV("super", cls, fr.selfv, f.cls),))
            return unknown()
        fn = self.ev(e.func, st)
        args, kwargs, extra = [], {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                known, summ = self.elements(v, st)
                if known is not None:
                    args += known
                else:
                    s = summ if summ is not None else unknown(v.deps)
                    extra = join(extra, s) if extra is not None else s
            else:
                x = self.ev(a, st)
                if extra is not None:
                    extra = join(extra, x)
                else:
                    args.append(x)
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                got = False
                for r in v.refs:
                    o = st.heap.get(r)
                    if o is not None and o.kind == "dict":
                        for kk, vv in o.fields.items():
                            if isinstance(kk, str):
                                kwargs[kk] = vv
                        if o.elem is not None:
                            kwargs["**"] = join(kwargs["**"], o.elem) if "**" in kwargs else o.elem
                        if o.origin is not None:
                            u = unknown(frozenset([o.origin]))
                            kwargs["**"] = join(kwargs["**"], u) if "**" in kwargs else u
                        got = True
                if not got or v.top:
                    u = unknown(v.deps)
                    kwargs["**"] = join(kwargs["**"], u) if "**" in kwargs else u
            else:
                kwargs[k.arg] = v
        return self.call(fn, args, kwargs, extra, st, e)

    def call(self, fn, args, kwargs, extra, st, e):
        outs = []
        states = []
        multi = len(fn.funcs) > 1
        for f in fn.funcs:
            s = st.fork() if multi else st
            rv = self.call1(f, args, kwargs, extra, s, e)
            if rv is not None:
                if f.kind in ("builtin", "ext", "bm"):
                    c = E
                    for a in args:
                        c |= a.ctl
                    for a in kwargs.values():
                        c |= a.ctl
                    if c:
                        rv = rv.with_(ctl=c)
                outs.append(rv)
                states.append(s)
        if multi and states:
            acc = states[0]
            for s in states[1:]:
                acc = self.join_states(acc, s)
            st.heap.clear()
            st.heap.update(acc.heap)
            st.env.clear()
            st.env.update(acc.env)
        for r in fn.refs:
            o = st.heap.get(r)
            if o is not None and o.kind == "inst" and o.cls:
                for c in o.cls:
                    m, _ = c.lookup("__call__")
                    if isinstance(m, Func):
                        rv = self.call_func(m, V(refs=frozenset([r]), deps=fn.deps), args, kwargs, st, e, extra)
                        if rv is not None:
                            outs.append(rv)
            else:
                if self.on_call:
                    self.on_call(None, o, args, kwargs, extra, e, self.stack[-1], st)
                outs.append(unknown(self.args_deps(args, kwargs, extra, st) | fn.deps))
        if fn.top and not fn.funcs or not outs:
            outs.append(unknown(self.args_deps(args, kwargs, extra, st) | fn.deps, fn.ctl))
        return join(*outs)

    def args_deps(self, args, kwargs, extra, st):
        d = E
        for a in args:
            d |= self.deep(a, st)
        for a in kwargs.values():
            d |= self.deep(a, st)
        if extra is not None:
            d |= self.deep(extra, st)
        return d

    def call1(self, f, args, kwargs, extra, st, e):
        if self.on_call:
            r = self.on_call(f, None, args, kwargs, extra, e, self.stack[-1], st)
            if isinstance(r, V):
                return r
        if f.kind == "func":
            bound = f.b
            if f.a.name == "_apply" and f.a.cls is self.manager and args and args[0].is_const():
                return self.apply_backend(args, kwargs, st, e)
            return self.call_func(f.a, bound, args, kwargs, st, e, extra, closure=f.c)
        if f.kind == "class":
            return self.instantiate(f.a, args, kwargs, extra, st, e)
        if f.kind == "builtin":
            return self.builtin(f.a, args, kwargs, extra, st, e)
        if f.kind == "bm":
            return self.bound_method(f.a, f.b, args, kwargs, extra, st, e)
        if f.kind == "partial":
            pf, pargs, pkw = f.a, f.b, f.c
            return self.call(pf, list(pargs) + list(args), {**pkw, **kwargs}, extra, st, e)
        if f.kind == "ext":
            return self.ext_call(f, args, kwargs, extra, st, e)
        return unknown(self.args_deps(args, kwargs, extra, st))

    def apply_backend(self, args, kwargs, st, e):
        name = args[0].const()
        bargs, bkw = [], {}
        extra = None
        a1 = args[1] if len(args) > 1 else kwargs.get("args")
        a2 = args[2] if len(args) > 2 else kwargs.get("kwargs")
        if a1 is not None:
            known, summ = self.elements(a1, st)
            if known is not None:
                bargs = known
            else:
                extra = summ
        if a2 is not None:
            for r in a2.refs:
                o = st.heap.get(r)
                if o is not None and o.kind == "dict":
                    bkw.update({k: v for k, v in o.fields.items() if isinstance(k, str)})
                    if o.elem is not None:
                        bkw["**"] = o.elem
        if self.backend is None:
            return unknown(self.args_deps(bargs, bkw, extra, st))
        m, _ = self.backend.lookup(name)
        if not isinstance(m, Func):
            return unknown(self.args_deps(bargs, bkw, extra, st))
        oid = "g:backend"
        if oid not in st.heap:
            st.heap[oid] = Obj(oid, "inst", (self.backend,), origin="::backend")
        selfv = V(refs=frozenset([oid])) if m.kind != "staticmethod" else None
        if m.kind == "property":
            return self.call_func(m, V(refs=frozenset([oid])), [], {}, st, e) or unknown()
        return self.call_func(m, selfv, bargs, bkw, st, e, extra)

    def instantiate(self, cls, args, kwargs, extra, st, e):
        v = self.new(st, "inst", e, cls=(cls,))
        init, _ = cls.lookup("__init__")
        if isinstance(init, Func):
            rv = self.call_func(init, V(refs=v.refs), args, kwargs, st, e, extra)
            if rv is None:
                return None
        else:
            oid = next(iter(v.refs))
            d = self.args_deps(args, kwargs, extra, st)
            names = dataclass_fields(cls)
            if names and extra is None and "**" not in kwargs:
                f = dict(st.heap[oid].fields)
                given = dict(zip([n for n, _ in names], args)) | kwargs
                for n, dflt in names:
                    if n in given:
                        x = given[n]
                    elif isinstance(dflt, ast.Constant):
                        x = const(dflt.value)
                    else:
                        x = unknown()
                    f[n] = x
                st.heap[oid] = st.heap[oid].copy(fields=f)
            else:
                # external base: remember the arguments
                st.heap[oid] = st.heap[oid].copy(elem=unknown(d))
        return V(refs=v.refs, ctl=st.ctl)

    def bind(self, func, bound, args, kwargs, extra, st, e):
        params = list(func.params)
        env = {}
        pos = list(args)
        if bound is not None and func.cls is not None and func.outer is None and func.kind != "staticmethod":
            pos = [bound] + pos
        elif bound is not None and func.kind not in ("staticmethod",):
            pos = [bound] + pos
        kw = dict(kwargs)
        spill = kw.pop("**", None)
        i = 0
        for p in params:
            if p.kind == "pos":
                if i < len(pos):
                    env[p.name] = pos[i]
                    i += 1
                elif p.name in kw:
                    env[p.name] = kw.pop(p.name)
                else:
                    dv = self.default(func, p, st)
                    cand = []
                    if extra is not None:
                        cand.append(extra)
                    if spill is not None:
                        cand.append(spill)
                    if cand:
                        env[p.name] = join(*cand, *([dv] if dv is not None else []))
                    else:
                        env[p.name] = dv if dv is not None else unknown()
            elif p.kind == "vararg":
                rest = pos[i:]
                i = len(pos)
                if extra is not None:
                    env[p.name] = self.new(st, "tuple", p.annotation or func.node, elem=join(extra, *rest))
                else:
                    env[p.name] = self.new(st, "tuple", p.annotation or func.node, items=rest)
            elif p.kind == "kwonly":
                if p.name in kw:
                    env[p.name] = kw.pop(p.name)
                else:
                    dv = self.default(func, p, st)
                    env[p.name] = join(dv, spill) if dv is not None and spill is not None else dv if dv is not None else spill if spill is not None else unknown()
            elif p.kind == "kwarg":
                named = {q.name for q in params}
                f = {k: v for k, v in kw.items() if k not in named}
                env[p.name] = self.new(st, "dict", func.node, fields=f, elem=spill)
        return env

    def default(self, func, p, st):
        if p.default is None:
            return None
        if isinstance(p.default, ast.Constant):
            return const(p.default.value)
        fake = Frame(_modfunc(func.module), 0, ())
        self.stack.append(fake)
        saved = st.env
        st.env = {}
        try:
            return self.ev(p.default, st)
        finally:
            st.env = saved
            self.stack.pop()

    def call_func(self, func, bound, args, kwargs, st, e, extra=None, closure=None):
        d = None
        depth = len(self.stack)
        recursive = sum(1 for f in self.stack if f.func is func) >= 1
        if func.is_abstract() or depth >= self.max_depth or recursive or self.no_inline(func) or (self.inline_only is not None and not self.inline_only(func)):
            if depth >= self.max_depth:
                self.truncated.add(func.qualname)
            d = self.args_deps(args, kwargs, extra, st)
            if bound is not None and not any(f.kind == "class" for f in bound.funcs):
                d |= self.deep(bound, st)
            cl, tag = self.ann_info(func.module, getattr(func.node, "returns", None), func)
            if cl and tag != "opt":
                v = self.new(st, "inst", e, cls=self.expand(tuple(cl)))
                oid = next(iter(v.refs))
                st.heap[oid] = st.heap[oid].copy(elem=unknown(d), tag="opaque")
                return v.with_(deps=d)
            if tag == "array":
                return self.new(st, "array", e, deps=d)
            return unknown(d)
        env = self.bind(func, bound, args, kwargs, extra, st, e)
        selfv = None
        if func.params and func.cls is not None and func.outer is None and func.kind != "staticmethod":
            selfv = env.get(func.params[0].name)
        elif func.outer is not None and self.stack:
            # nested functions see the enclosing self for super()
            selfv = self.stack[-1].selfv
        v, s2 = self.exec_func(func, env, st, selfv=selfv, closure_env=closure, ctxnode=e)
        if s2.heap is not st.heap:
            st.heap = dict(s2.heap)
        if v is not None and v.refs and is_cached(func):
            # the caller gets the object that the cache keeps
            owner = "::cache of " + func.short()
            if func.kind == "property" and bound is not None:
                for r in bound.refs:
                    o = st.heap.get(r)
                    owner = f"{o.origin}.{func.name}" if o is not None and o.origin is not None else None
            if owner is not None:
                for r in v.refs:
                    o = st.heap.get(r)
                    if o is not None and o.origin is None and o.kind in ("list", "dict", "set", "array"):
                        st.heap[r] = o.copy(origin=owner)
        return v

    # ---- builtins ------------------------------------------------------------------------

    def builtin(self, name, args, kwargs, extra, st, e):
        d = self.args_deps(args, kwargs, extra, st)
        a0 = args[0] if args else None
        if name in ("isinstance", "issubclass") and len(args) == 2:
            return self.do_isinstance(args, st, e, d)
        if name == "type" and len(args) == 1:
            fs = []
            for r in a0.refs:
                o = st.heap.get(r)
                if o is not None and o.cls:
                    fs += [FV("class", c) for c in o.cls]
            if fs and not a0.top:
                return V(funcs=tuple(fs))
            return V(deps=d, funcs=tuple(fs), top=True)
        if name == "len" and a0 is not None:
            known, _ = self.elements(a0, st) if a0.refs or a0.consts else (None, None)
            if known is not None and not (a0.is_const() and not isinstance(a0.const(), (str, tuple))):
                return const(len(known), d)
            return unknown(d)
        if name == "range":
            try:
                r = range(*[a.const() for a in args])
                if len(r) <= 64:
                    return self.new(st, "tuple", e, items=[const(i, d) for i in r])
            except (KeyError, TypeError):
                pass
            return self.new(st, "tuple", e, elem=unknown(d))
        if name in ("list", "tuple", "sorted", "reversed", "set", "frozenset", "iter"):
            if a0 is None:
                if extra is None:
                    return self.new(st, {"tuple": "tuple", "set": "set", "frozenset": "set"}.get(name, "list"), e, items=[] if name not in ("set", "frozenset") else None)
                return unknown(d)
            known, summ = self.elements(a0, st)
            kind = {"tuple": "tuple", "set": "set", "frozenset": "set"}.get(name, "list")
            if known is not None and name in ("list", "tuple", "iter"):
                return self.new(st, kind, e, items=list(known))
            if known is not None and name == "reversed":
                return self.new(st, kind, e, items=list(reversed(known)))
            el = join(*(known or []), summ) if (known or summ is not None) else None
            if name == "sorted" and known is not None and all(k.is_const() for k in known) and not kwargs:
                try:
                    return self.new(st, kind, e, items=[const(x, d) for x in sorted(k.const() for k in known)])
                except TypeError:
                    pass
            if el is not None and kwargs.get("key") is not None:
                el = el.with_(ctl=self.deep(kwargs["key"], st))
            return self.new(st, kind, e, elem=el)
        if name == "dict":
            fields, elem = {}, None
            if a0 is not None:
                for r in a0.refs:
                    o = st.heap.get(r)
                    if o is not None and o.kind == "dict":
                        fields.update(o.fields)
                        elem = o.elem if elem is None else join(elem, o.elem) if o.elem else elem
                        if o.origin is not None:
                            u = unknown(frozenset([o.origin]))
                            elem = join(elem, u) if elem is not None else u
                    elif o is not None:
                        known, summ = self.elements(a0, st)
                        for it in known or ([summ] if summ is not None else []):
                            kk, ss = self.elements(it, st)
                            if kk is not None and len(kk) == 2:
                                try:
                                    fields[kk[0].const()] = kk[1]
                                    continue
                                except KeyError:
                                    pass
                                x = kk[1].with_(deps=kk[0].deps)
                            else:
                                x = unknown(d)
                            elem = join(elem, x) if elem is not None else x
            for k, v in kwargs.items():
                if k == "**":
                    elem = join(elem, v) if elem is not None else v
                else:
                    fields[k] = v
            return self.new(st, "dict", e, fields=fields, elem=elem)
        if name == "zip":
            cols = [self.elements(a, st) for a in args]
            if cols and extra is None and all(k is not None for k, _ in cols):
                n = min(len(k) for k, _ in cols)
                rows = []
                for i in range(n):
                    rows.append(self._tuple(st, e, [k[i] for k, _ in cols], i))
                return self.new(st, "list", e, items=rows)
            if extra is not None:
                if not args:
                    # transposition: zip(*rows)
                    rows = [st.heap.get(r) for r in extra.refs]
                    if rows and all(o is not None and o.kind in ("tuple", "list") and o.items is not None for o in rows) and len({len(o.items) for o in rows}) == 1:
                        n = len(rows[0].items)
                        outs = []
                        for i in range(n):
                            col = join(*[o.items[i] for o in rows])
                            if extra.top:
                                col = col.with_(deps=extra.deps)
                            outs.append(self._list_tag(st, e, col, i))
                        return self.new(st, "list", e, items=outs)
                dd = frozenset().union(*[self.deep(a, st) for a in args], self.deep(extra, st))
                return self.new(st, "list", e, elem=unknown(d | dd))
            row = self._tuple(st, e, [join(*(k or []), s) if (k or s is not None) else BOT for k, s in cols], "row")
            return self.new(st, "list", e, elem=row)
        if name == "enumerate":
            known, summ = self.elements(a0, st)
            start = args[1] if len(args) > 1 else kwargs.get("start")
            if known is not None:
                try:
                    s0 = start.const() if start is not None else 0
                    return self.new(st, "list", e, items=[self._tuple(st, e, [const(i + s0), k], i) for i, k in enumerate(known)])
                except KeyError:
                    pass
            el = join(*(known or []), summ) if (known or summ is not None) else BOT
            return self.new(st, "list", e, elem=self._tuple(st, e, [unknown(), el], "row"))
        if name == "map" and len(args) >= 2:
            cols = [self.elements(a, st) for a in args[1:]]
            if all(k is not None for k, _ in cols) and min(len(k) for k, _ in cols) <= MAXUNROLL:
                n = min(len(k) for k, _ in cols)
                return self.new(st, "list", e, items=[self.call(a0, [k[i] for k, _ in cols], {}, None, st, e) for i in range(n)])
            rv = self.call(a0, [join(*(k or []), s) if (k or s is not None) else BOT for k, s in cols], {}, None, st, e)
            return self.new(st, "list", e, elem=rv)
        if name == "filter" and len(args) == 2:
            known, summ = self.elements(args[1], st)
            el = join(*(known or []), summ) if (known or summ is not None) else BOT
            return self.new(st, "list", e, elem=el)
        if name == "getattr" and len(args) >= 2:
            try:
                nm = args[1].const()
                if isinstance(nm, str):
                    v = self.getattr(a0, nm, e, st)
                    if len(args) == 3:
                        v = join(v, args[2])
                    return v
            except KeyError:
                pass
            if len(args[1].consts) > 1 and not args[1].top and all(isinstance(unwrapc(c), str) for c in args[1].consts):
                return join(*[self.getattr(a0, unwrapc(c), e, st) for c in args[1].consts])
            return unknown(d)
        if name == "setattr" and len(args) == 3:
            try:
                nm = args[1].const()
                self.setattr(a0, nm, args[2], st, e)
            except KeyError:
                names = [unwrapc(c) for c in args[1].consts] if args[1].consts and not args[1].top and not args[1].refs else []
                for r in a0.refs:
                    o = st.heap.get(r)
                    if o is None:
                        continue
                    self.effect_obj("attr", o, st, e, "*")
                    f = dict(o.fields)
                    for k in names:
                        if isinstance(k, str):
                            f[k] = join(f[k], args[2]) if k in f else args[2]
                    st.heap[r] = o.copy(fields=f)
            return const(None)
        if name == "hasattr":
            return unknown(d)
        if name in ("int", "float", "bool", "str", "complex") and len(args) == 1 and not kwargs:
            if a0.is_const():
                try:
                    return const({"int": int, "float": float, "bool": bool, "str": str, "complex": complex}[name](a0.const()), d)
                except (TypeError, ValueError):
                    pass
            if name == "bool":
                b = self.truth(a0, st)
                if b is not None:
                    return const(b, d)
            return V(deps=d, ctl=a0.ctl, top=True)
        if name in ("max", "min", "sum", "abs", "any", "all", "round", "pow", "divmod", "hash", "id", "repr", "format", "chr", "ord", "next"):
            if name in ("any", "all") and a0 is not None and len(args) == 1:
                known, summ = self.elements(a0, st)
                bs = [self.truth(x, st) for x in known or []]
                if name == "any" and True in bs:
                    return const(True, d)
                if name == "all" and False in bs and summ is None:
                    return const(False, d)
                if known is not None and summ is None and None not in bs:
                    return const(any(bs) if name == "any" else all(bs), d)
            if name == "next" and a0 is not None:
                known, summ = self.elements(a0, st)
                if known and summ is None and e.args and isinstance(e.args[0], ast.Call) and isinstance(e.args[0].func, ast.Name) and e.args[0].func.id == "iter":
                    return known[0]
                outs = (known or []) + ([summ] if summ is not None else []) + list(args[1:])
                return join(*outs) if outs else unknown(d)
            if name in ("max", "min") and args:
                vals = args
                if len(args) == 1:
                    known, _ = self.elements(a0, st)
                    vals = known if known is not None else None
                if vals and all(x.is_const() for x in vals):
                    try:
                        return const((max if name == "max" else min)(x.const() for x in vals), d)
                    except TypeError:
                        pass
            return unknown(d)
        if name == "print":
            return const(None)
        if name == "object":
            return self.new(st, "inst", e)
        return unknown(d)

    def _list_tag(self, st, e, elem, tag):
        v = self._tuple(st, e, [], f"col{tag}")
        r = next(iter(v.refs))
        st.heap[r] = Obj(r, "tuple", items=None, elem=elem)
        return v

    def _tuple(self, st, e, items, tag):
        ctx = self.stack[-1].ctx if self.stack else ()
        oid = f"t:{hash(ctx) & 0xFFFFFFFF:x}:{id(e) & 0xFFFFFF:x}:{tag}"
        st.heap[oid] = Obj(oid, "tuple", items=items)
        return V(refs=frozenset([oid]))

    def do_isinstance(self, args, st, e, d):
        v, cl = args
        classes = []
        known, _ = self.elements(cl, st) if cl.refs else ([cl], None)
        ok = known is not None
        if known is not None:
            known = [V(funcs=(f,), top=k.top) for k in known for f in k.funcs] or known
        for k in known or []:
            if len(k.funcs) == 1 and not k.top:
                classes.append(k.funcs[0])
            else:
                ok = False
        if not ok or v.top:
            return unknown(d)
        res = set()
        for r in v.refs:
            o = st.heap.get(r)
            if o is None:
                return unknown(d)
            if o.kind == "inst" and o.cls:
                for c in o.cls:
                    yes = any(f.kind == "class" and c.is_subclass(f.a) for f in classes)
                    if yes:
                        res.add(True)
                    elif any(f.kind == "class" and f.a.is_subclass(c) for f in classes) and o.origin is not None:
                        res.update((True, False))
                    elif all(f.kind in ("class", "builtin") for f in classes) or all(f.kind in ("class", "builtin", "ext") for f in classes):
                        res.add(False)
                    else:
                        return unknown(d)
            elif o.kind in ("list", "tuple", "dict", "set"):
                nm = {"list": "list", "tuple": "tuple", "dict": "dict", "set": "set"}[o.kind]
                if o.origin is not None:
                    return unknown(d)
                if any(f.kind == "builtin" and f.a == nm for f in classes):
                    res.add(True)
                elif any(f.kind == "ext" for f in classes):
                    return unknown(d)
                else:
                    res.add(False)
            elif o.kind == "array" and all(f.kind == "class" for f in classes):
                res.add(False)
            else:
                return unknown(d)
        for c in v.consts:
            x = unwrapc(c)
            tn = type(x).__name__
            names = [f.a for f in classes if f.kind == "builtin"]
            if tn in names or (tn == "bool" and "int" in names):
                res.add(True)
            elif any(f.kind == "ext" for f in classes):
                return unknown(d)
            else:
                res.add(False)
        if v.funcs:
            return unknown(d)
        if len(res) == 1:
            return const(res.pop(), d)
        return unknown(d)

    def bound_method(self, name, base, args, kwargs, extra, st, e):
        d = base.deps | self.args_deps(args, kwargs, extra, st)
        outs = []
        for r in base.refs:
            o = st.heap.get(r)
            if o is None:
                continue
            bo = V(refs=frozenset([r]), deps=base.deps)
            mutset = {"list": LIST_MUT, "dict": DICT_MUT, "set": SET_MUT, "array": ARR_MUT}.get(o.kind)
            if (mutset is not None and name in mutset) or (o.kind == "unknown" and o.origin is not None and name in ALL_MUT and not o.cls):
                self.effect_obj("mutcall", o, st, e, name)
            if o.kind == "list":
                if name == "append" and args:
                    self.append_obj(o, ([args[0].with_(ctl=st.ctl)], None), st, len(base.refs) == 1 and not base.top)
                    outs.append(const(None))
                    continue
                if name == "extend" and args:
                    self.append_obj(o, self.elements(args[0], st), st, len(base.refs) == 1 and not base.top)
                    outs.append(const(None))
                    continue
                if name == "insert" and len(args) == 2:
                    self.append_obj(o, (None, args[1]), st, False)
                    outs.append(const(None))
                    continue
                if name == "pop":
                    if o.items and not args and len(base.refs) == 1 and not base.top:
                        outs.append(o.items[-1])
                        st.heap[r] = o.copy(items=o.items[:-1])
                    elif o.items and args and args[0].is_const() and len(base.refs) == 1 and not base.top:
                        k = args[0].const()
                        try:
                            outs.append(o.items[k])
                            st.heap[r] = o.copy(items=o.items[:k] + (o.items[k + 1 :] if k != -1 else []))
                        except (IndexError, TypeError):
                            outs.append(unknown(d))
                    else:
                        k, s = self.elements(bo, st)
                        outs.append(join(*(k or []), s) if (k or s is not None) else unknown(d))
                    continue
                if name in ("sort", "reverse", "clear", "remove"):
                    if name in ("sort", "reverse", "remove") and o.items is not None:
                        st.heap[r] = o.copy(items=None, elem=join(*o.items) if o.items else None)
                    outs.append(const(None))
                    continue
                if name == "copy":
                    outs.append(self.new(st, "list", e, items=list(o.items) if o.items is not None else None, elem=o.elem))
                    continue
            if o.kind in ("list", "tuple") and name in ("index", "count"):
                outs.append(unknown(d | self.deep(bo, st)))
                continue
            if o.kind == "dict":
                full = list(o.fields.values()) + ([o.elem] if o.elem is not None else []) + ([unknown(frozenset([o.origin]))] if o.origin else [])
                if name == "items":
                    if o.elem is None and o.origin is None:
                        outs.append(self.new(st, "list", e, items=[self._tuple(st, e, [const(k), v], f"i{k}") for k, v in o.fields.items()]))
                    else:
                        outs.append(self.new(st, "list", e, elem=self._tuple(st, e, [unknown(d), join(*full) if full else unknown(d)], "irow")))
                    continue
                if name == "values":
                    if o.elem is None and o.origin is None:
                        outs.append(self.new(st, "list", e, items=list(o.fields.values())))
                    else:
                        outs.append(self.new(st, "list", e, elem=join(*full) if full else unknown(d)))
                    continue
                if name == "keys":
                    if o.elem is None and o.origin is None:
                        outs.append(self.new(st, "list", e, items=[const(k) for k in o.fields]))
                    else:
                        outs.append(self.new(st, "list", e, elem=unknown(d)))
                    continue
                if name in ("get", "pop", "setdefault") and args:
                    dflt = args[1] if len(args) > 1 else const(None)
                    try:
                        k = args[0].const()
                        if k in o.fields:
                            outs.append(o.fields[k])
                            if name == "pop" and len(base.refs) == 1 and not base.top:
                                f = dict(o.fields)
                                f.pop(k)
                                st.heap[r] = o.copy(fields=f)
                            continue
                        cand = [o.elem] if o.elem is not None else []
                        if o.origin is not None:
                            cand.append(unknown(frozenset([f"{o.origin}[{k!r}]"])))
                        if name != "pop" or len(args) > 1 or not cand:
                            cand.append(dflt)
                        outs.append(join(*cand))
                        if name == "setdefault" and len(args) > 1:
                            self.store_item(bo, args[0], args[1], st)
                        continue
                    except KeyError:
                        outs.append(join(*full, dflt) if full else dflt)
                        if name == "setdefault" and len(args) > 1:
                            self.store_item(bo, args[0], args[1], st)
                        continue
                if name == "update":
                    f = dict(o.fields)
                    elem = o.elem
                    for a in args:
                        for rr in a.refs:
                            oo = st.heap.get(rr)
                            if oo is not None and oo.kind == "dict":
                                f.update(oo.fields)
                                if oo.elem is not None:
                                    elem = join(elem, oo.elem) if elem is not None else oo.elem
                            else:
                                elem = join(elem, unknown(a.deps)) if elem is not None else unknown(a.deps)
                    for k, v in kwargs.items():
                        f[k] = v
                    st.heap[r] = o.copy(fields=f, elem=elem)
                    outs.append(const(None))
                    continue
                if name == "copy":
                    outs.append(self.new(st, "dict", e, fields=dict(o.fields), elem=join(o.elem, unknown(frozenset([o.origin]))) if o.origin and o.elem is not None else (unknown(frozenset([o.origin])) if o.origin else o.elem)))
                    continue
            if o.kind == "set" and name in ("add", "update"):
                parts = [args[0]] if name == "add" and args else []
                if name == "update" and args:
                    k, s = self.elements(args[0], st)
                    parts = (k or []) + ([s] if s is not None else [])
                st.heap[r] = o.copy(elem=join(*([o.elem] if o.elem is not None else []), *parts) if parts or o.elem is not None else None)
                outs.append(const(None))
                continue
            if o.kind == "set" and name in ("union", "intersection", "difference", "symmetric_difference", "copy"):
                parts = [o.elem] if o.elem is not None else []
                for a in args:
                    k, s = self.elements(a, st)
                    parts += (k or []) + ([s] if s is not None else [])
                outs.append(self.new(st, "set", e, elem=join(*parts) if parts else None))
                continue
            if o.kind in ("array", "unknown"):
                if name in VIEW_METHODS:
                    dd = d | (frozenset([o.origin]) if o.origin else E) | (o.elem.deps if o.elem is not None else E)
                    outs.append(V(dd, base.ctl, frozenset([r]), E, (), o.kind == "unknown"))
                    continue
                if name == "copy":
                    outs.append(self.new(st, "array", e, deps=d) if o.kind == "array" else unknown(d))
                    continue
                dd = d | (frozenset([o.origin]) if o.origin else E) | (o.elem.deps if o.elem is not None else E)
                if o.kind == "array":
                    outs.append(self.new(st, "array", e, deps=dd))
                    continue
                el = self.in_elem(st, o) if o.kind == "unknown" and o.origin is not None and name in ("items", "values", "get", "pop", "setdefault") else None
                if el is None:
                    outs.append(unknown(dd))
                elif name == "items":
                    outs.append(self.new(st, "list", e, elem=self._tuple(st, e, [unknown(dd), el], "irow")).with_(deps=dd))
                elif name == "values":
                    outs.append(self.new(st, "list", e, elem=el).with_(deps=dd))
                else:
                    outs += [el.with_(deps=dd)] + [a for a in args[1:2]]
                continue
            outs.append(unknown(d | self.deep(bo, st)))
        if base.consts and not base.refs:
            try:
                c = base.const()
                if isinstance(c, str) and all(a.is_const() for a in args) and not kwargs and extra is None and name in STR_METHODS:
                    r = getattr(c, name)(*[a.const() for a in args])
                    if isinstance(r, list):
                        return self.new(st, "list", e, items=[const(x, d) for x in r])
                    return const(r, d)
                if isinstance(c, str) and name == "join" and args:
                    known, _ = self.elements(args[0], st)
                    if known is not None and all(k.is_const() and isinstance(k.const(), str) for k in known):
                        return const(c.join(k.const() for k in known), d)
            except (KeyError, TypeError, ValueError):
                pass
        if not outs or base.top:
            outs.append(unknown(d, base.ctl))
        return join(*outs)

    def ext_call(self, f, args, kwargs, extra, st, e):
        name = f.a
        d = self.args_deps(args, kwargs, extra, st)
        last = name.split(".")[-1]
        if name in ("functools.partial", "partial") and args:
            return V(deps=d, funcs=(FV("partial", args[0], tuple(args[1:]), dict(kwargs)),))
        if name == "inspect.signature" and args:
            fields, ok = {}, False
            for fv in args[0].funcs:
                target = fv.a if fv.kind == "func" else None
                if fv.kind == "class":
                    target, _ = fv.a.lookup("__init__")
                if isinstance(target, Func):
                    ok = True
                    skip = 1 if (fv.kind == "class" or (isinstance(fv.b, V) and target.cls is not None)) else 0
                    for p in target.params[skip:]:
                        fields[p.name] = unknown()
            if ok and len(args[0].funcs) == 1 and not args[0].top:
                sig = self.new(st, "inst", e)
                pd = self._tuple(st, e, [], "sig")
                pid = next(iter(pd.refs))
                st.heap[pid] = Obj(pid, "dict", fields=fields)
                oid = next(iter(sig.refs))
                st.heap[oid] = st.heap[oid].copy(fields={"parameters": pd})
                return sig
        if name in ("copy.copy", "copy.deepcopy") and args:
            outs = []
            for r in args[0].refs:
                o = st.heap.get(r)
                if o is None:
                    continue
                nv = self.new(st, o.kind, e, cls=o.cls, fields=dict(o.fields), items=list(o.items) if o.items is not None else None, elem=join(o.elem, unknown(frozenset([o.origin]))) if o.elem is not None and o.origin else (unknown(frozenset([o.origin])) if o.origin else o.elem))
                outs.append(nv.with_(deps=args[0].deps))
            return join(*outs) if outs else unknown(d)
        if last == "__new__" and (name.startswith("super.") or name.endswith("__new__")):
            cls = f.c if isinstance(f.c, Class) else None
            if args and args[0].funcs:
                for a in args[0].funcs:
                    if a.kind == "class":
                        cls = a.a
            if cls is not None:
                return self.new(st, "inst", e, cls=(cls,))
        if name in NP_MUT and len(args) > NP_MUT[name]:
            self.effect("mutcall", args[NP_MUT[name]], st, e, name)
        if "out" in kwargs and name.startswith("numpy."):
            self.effect("mutcall", kwargs["out"], st, e, name + "(out=)")
        if name.startswith(("numpy.", "jax.numpy.", "scipy.")) :
            if last in VIEW_FUNCS and args:
                outs = []
                src = args[0]
                for r in src.refs:
                    o = st.heap.get(r)
                    if o is not None and o.kind in ("array", "unknown"):
                        outs.append(V(d, src.ctl, frozenset([r]), E, (), o.kind == "unknown"))
                outs.append(self.new(st, "array", e, deps=d))
                if last in ("broadcast_arrays", "split", "array_split"):
                    els = [x for a in args for x in ((self.elements(a, st)[0]) or [a])] if last == "broadcast_arrays" else args[:1]
                    if last == "broadcast_arrays" and extra is None:
                        return self.new(st, "list", e, items=[V(x.deps, x.ctl, x.refs, E, (), x.top) for x in args])
                    return self.new(st, "list", e, elem=join(*els, *( [extra] if extra is not None else [])))
                return join(*outs)
            if last == "array" and args and "copy" in kwargs and kwargs["copy"].is_const() and kwargs["copy"].const() is False:
                return V(d, E, args[0].refs, E, (), True)
            if last in NP_SCALAR:
                return unknown(d)
            return self.new(st, "array", e, deps=d)
        if name in ("itertools.product", "itertools.chain", "itertools.combinations", "itertools.permutations", "itertools.zip_longest", "itertools.accumulate", "itertools.chain.from_iterable", "itertools.repeat"):
            return self.new(st, "list", e, elem=unknown(d))
        if name == "functools.reduce" and len(args) >= 2:
            known, summ = self.elements(args[1], st)
            el = join(*(known or []), summ) if (known or summ is not None) else BOT
            rv = self.call(args[0], [join(el, *args[2:]), el], {}, None, st, e)
            return join(rv, el)
        return unknown(d)


NP_SCALAR = {"prod", "ndim", "size", "shape", "allclose", "array_equal", "issubdtype", "iscomplexobj", "isscalar", "dtype", "errstate", "result_type", "default_rng"}
STR_METHODS = {"upper", "lower", "strip", "split", "replace", "startswith", "endswith", "format", "join", "removeprefix", "removesuffix"}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


def free_names(func):
    """Names a nested function reads."""
    got = getattr(func, "_free", None)
    if got is None:
        mine = {p.name for p in func.params}
        got = func._free = {
            n.id for n in ast.walk(func.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)
        } - mine
    return got


def is_cached(func):
    """Is the function wrapped by functools.cache / lru_cache / cached_property?"""
    for d in getattr(func.node, "decorator_list", []):
        last = (dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1]
        if last in ("cache", "lru_cache", "cached_property"):
            return True
    return False


def dataclass_fields(cls):
    """[(field, default expression)] of a dataclass of the program, in order; [] otherwise."""
    out = {}
    for c in reversed(cls.mro):
        if not any((dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] == "dataclass" for d in c.node.decorator_list):
            continue
        for s in c.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                out[s.target.id] = s.value
    return list(out.items())


def _constop(op, x, y):
    if isinstance(op, ast.Add):
        return x + y
    if isinstance(op, ast.Sub):
        return x - y
    if isinstance(op, ast.Mult):
        r = x * y
        if isinstance(r, str) and len(r) > 200:
            raise ValueError
        return r
    if isinstance(op, ast.Div):
        return x / y
    if isinstance(op, ast.FloorDiv):
        return x // y
    if isinstance(op, ast.Mod):
        return x % y
    if isinstance(op, ast.Pow) and abs(y) < 64 and abs(x) < 1000:
        return x**y
    raise ValueError


def _with_ctl(v, cd):
    if not cd:
        return v
    if isinstance(v, tuple):
        return tuple(x.with_(ctl=cd) for x in v)
    return v.with_(ctl=cd)


def _load(t):
    import copy as _c

    n = getattr(t, "_vload", None)
    if n is None:
        n = _c.copy(t)
        n.ctx = ast.Load()
        t._vload = n
    return n


def _own(node):
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))


def _basic_index(s):
    """True when indexing with `s` certainly is basic (view) numpy indexing."""
    if isinstance(s, ast.Tuple):
        return all(_basic_index(x) for x in s.elts) and any(isinstance(x, ast.Slice) or (isinstance(x, ast.Constant) and x.value is Ellipsis) for x in s.elts)
    if isinstance(s, ast.Slice):
        return True
    if isinstance(s, ast.Constant):
        return s.value is Ellipsis or s.value is None or isinstance(s.value, int)
    if isinstance(s, ast.UnaryOp) and isinstance(s.operand, ast.Constant):
        return True
    return False


_MF: dict = {}


def _modfunc(mod):
    f = _MF.get(mod.name)
    if f is None or f.module is not mod:
        node = ast.parse("def _m(): pass").body[0]
        f = Func("<module>", f"{mod.name}:<module>", mod, node)
        _MF[mod.name] = f
    return f
