"""P01 -- saving and reloading loses nothing."""

from .comp import built, dict_keys, heap_obj
from .common import *

LABELS = {"name"}  # display label of an ansatz: shown by repr only, takes part in no result
SUFFIX = ("_trainable", "_bounds")


def check(prog, rep):
    rep.rule("P01.ansatz", "to_dict feeds every constructor argument of the ansatz from the state that argument set", 5)
    rep.rule("P01.component", "_serialize emits, for every constructor parameter of the component, a value derived from it", 60)
    rep.rule("P01.reader", "every key a component emits is accepted by the constructor that _deserialize calls", 60)
    rep.rule("P01.rebuild", "_deserialize passes each stored value on under its own name", 60)
    rep.rule("P01.file", "what save adds to the data is removed again by load before deserialize, and read under the same key", 4)
    rep.rule("P01.circuit", "Circuit.serialize stores components, arrays and path and deserialize restores all of them", 3)
    rep.rule("P01.override", "a field that methods replace on an instance of a parametrised class is read by _serialize", 1)
    rep.rule("P01.lossless", "nothing on the way to and from the file drops part of a value", 6)
    rep.rule("P01.always", "what is stored and how it is rebuilt never depends on the value or bounds of a parameter", 2)
    check_ansatz(prog, rep)
    check_components(prog, rep)
    check_always(prog, rep)
    check_override(prog, rep)
    check_lossless(prog, rep)
    check_file(prog, rep)
    check_circuit(prog, rep)


# ---- ansatz ---------------------------------------------------------------------------------


def holders(prog, rep, c):
    """constructor parameter -> fields whose value depends on it."""
    got = construct(rep, prog, c)
    if got is None:
        return None
    it, v, st, names = got
    out = {n: set() for n in names}
    for r in v.refs:
        o = st.heap.get(r)
        for f, x in (o.fields if o else {}).items():
            for a in it.deep(x, st):
                root = a.split(".")[0].split("[")[0]
                if root in out:
                    out[root].add(f)
    return out


def check_ansatz(prog, rep):
    for c in prog.subclasses(prog.cls("Ansatz")):
        td, _ = c.lookup("to_dict")
        fd, _ = c.lookup("from_dict")
        init = init_func(c)
        if not isinstance(td, Func) or not isinstance(fd, Func) or td.is_abstract() or init is None:
            continue
        hold = holders(prog, rep, c)
        if hold is None:
            continue
        calls = []

        def on_call(f, o, args, kwargs, extra, e, frame, st):
            if f is not None and f.kind == "class" and f.a is c:
                calls.append((list(args), dict(kwargs), extra, e, {k: it.deep(x, st) | x.ctl for k, x in kwargs.items()}, [it.deep(a, st) | a.ctl for a in args]))
            return None

        it = Interp(prog, on_call=on_call)
        data, st = run_safe(rep, it, td, self_cls=c)
        if data is None:
            rep.skip(f"{c.name}.to_dict")
            continue
        keys = dict_keys(st, data)
        if keys is None or keys[1]:
            rep.skip(f"{c.name}.to_dict does not return a dict with known keys")
            continue
        for k in keys[0]:
            rep.ob("P01.reader", f"{c.name}[{k}]")
        calls.clear()
        p = [x.name for x in fd.params]
        try:
            it.exec_func(fd, {p[0]: V(funcs=(FV("class", c),)), p[1]: data}, State({}, dict(st.heap), E))
        except (Budget, RecursionError):
            rep.skip(f"{c.name}.from_dict")
            continue
        if not calls:
            rep.skip(f"{c.name}.from_dict: no construction of the class seen")
            continue
        params = init.params[1:]
        names = [q.name for q in params]
        for args, kwargs, extra, e, kd, ad in calls[:1]:
            if extra is not None or "**" in kwargs:
                rep.skip(f"{c.name}.from_dict: open call")
                continue
            bound = dict(zip(names, ad)) | kd
            for k in kwargs:
                if k not in names and not any(q.kind == "kwarg" for q in params):
                    rep.find("P01.reader", f"{c.name}[{k}]", td.where(), f"to_dict stores `{k}`, which {c.name}() does not accept")
            for q in params:
                if q.kind in ("vararg", "kwarg") or q.name in LABELS:
                    continue
                fields = hold.get(q.name, set())
                if not fields:
                    continue
                rep.ob("P01.ansatz", f"{c.name}({q.name})")
                want = {"self." + f for f in fields}
                if q.name not in bound:
                    rep.find("P01.ansatz", f"{c.name}({q.name})", td.where(), f"`{q.name}` (kept in {', '.join(sorted(fields))}) is not stored, the rebuilt ansatz gets the default")
                elif not any(has_atom(bound[q.name], w) for w in want):
                    rep.find("P01.ansatz", f"{c.name}({q.name})", td.where(), f"`{q.name}` is stored from {sorted(bound[q.name])}, not from {', '.join(sorted(fields))}")


# ---- components -----------------------------------------------------------------------------


def returned_pairs(prog, func, v, st):
    """[(interp, state, element0, element1)] for every return of a pair."""
    got = []

    def on_return(f, val, res, frame):
        if f is func:
            got.extend(frame.returns)

    it = Interp(prog, on_return=on_return)
    try:
        it.exec_func(func, {func.params[0].name: v}, State({}, dict(st.heap), E), selfv=v)
    except (Budget, RecursionError):
        return None
    out = []
    for val, s in got:
        known, _ = it.elements(val, s)
        if known is None or len(known) != 2:
            return None
        out.append((it, s, known[0], known[1]))
    return out or None


def serialized(prog, rep, c, v, st):
    """(key -> set of atoms, state, key -> V) emitted by _serialize for class `c`, or None."""
    ser, _ = c.lookup("_serialize")
    if not isinstance(ser, Func):
        raise AnalysisBroken("CircuitComponent._serialize vanished")
    pairs = returned_pairs(prog, ser, v, st)
    if pairs is None:
        rep.skip(f"{c.name}._serialize")
        return None
    keys = {}
    arrays = set()
    for it, s, a, b in pairs:
        for j, x in enumerate((a, b)):
            dk = dict_keys(s, x)
            if dk is None or dk[1]:
                rep.skip(f"{c.name}._serialize: dict with unknown keys")
                return None
            for k, y in dk[0].items():
                keys[k] = keys.get(k, E) | it.deep(y, s) | y.ctl
                if j == 1:
                    arrays.add(k)
    return keys, arrays


def check_components(prog, rep):
    de = prog.cls("CircuitComponent").lookup("_deserialize")[0]
    if not isinstance(de, Func):
        raise AnalysisBroken("CircuitComponent._deserialize vanished")
    for c, init, names, _, v, st in built(prog, rep):
        got = serialized(prog, rep, c, v, st)
        if got is None:
            continue
        keys, arrays = got
        if "class" not in keys:
            rep.find("P01.component", f"{c.name}(class)", c.lookup("_serialize")[0].where(), "the class is not stored")
        params = init.params[1:]
        closed = not any(q.kind == "kwarg" for q in params)
        if "ansatz" in names and "wires" in names:
            # stored by representation: rebuilt through from_dict / _from_attributes
            for q in params:
                rep.ob("P01.component", f"{c.name}({q.name})")
            for need in ("ansatz_cls", "wires", "name"):
                if need not in keys:
                    rep.find("P01.component", f"{c.name}({need})", c.lookup("_serialize")[0].where(), f"`{need}` is not stored")
            for need in ("wires", "name"):
                if need in keys and need in names and not has_atom(keys[need], need):
                    rep.find("P01.component", f"{c.name}({need})", c.lookup("_serialize")[0].where(), f"stored `{need}` does not derive from the argument (derives from {sorted(keys[need])[:4]})")
            check_abstract_rebuild(prog, rep, c, de, keys)
            continue
        for k in keys:
            if k == "class":
                continue
            rep.ob("P01.reader", f"{c.name}[{k}]")
            if closed and k not in names:
                rep.find("P01.reader", f"{c.name}[{k}]", init.where(), f"_serialize emits `{k}`, which {c.name}() does not accept: the saved component cannot be loaded")
        for q in params:
            if q.kind in ("vararg", "kwarg"):
                continue
            rep.ob("P01.component", f"{c.name}({q.name})")
            if q.name not in keys:
                if q.name.endswith(SUFFIX) and any(q.name[: -len(s)] not in names for s in SUFFIX if q.name.endswith(s)):
                    rep.skip(f"{c.name}({q.name})")
                    continue
                rep.find("P01.component", f"{c.name}({q.name})", init.where(), f"constructor argument `{q.name}` is not stored, the reloaded component gets its default")
            elif not q.name.endswith("_trainable") and not has_atom(keys[q.name], q.name):
                rep.find("P01.component", f"{c.name}({q.name})", init.where(), f"stored `{q.name}` does not derive from the argument (derives from {sorted(keys[q.name])[:4]})")
        check_rebuild(prog, rep, c, de, [k for k in keys if k != "class"], names)


def check_rebuild(prog, rep, c, de, keys, names):
    calls = []

    def on_call(f, o, args, kwargs, extra, e, frame, st):
        if f is not None and f.kind == "class" and f.a is c:
            calls.append((e, extra, [it.deep(a, st) for a in args], {k: it.deep(x, st) for k, x in kwargs.items()}))
            return unknown()
        return None

    it = Interp(prog, on_call=on_call)
    p = [x.name for x in de.params]
    fields = {k: V(deps=frozenset([f"data<{k}>"]), top=True) for k in keys}
    st = State({}, {"data": Obj("data", "dict", fields=fields)}, E)
    try:
        it.exec_func(de, {p[0]: V(funcs=(FV("class", c),)), p[1]: V(refs=frozenset(["data"]))}, st)
    except (Budget, RecursionError):
        rep.skip(f"_deserialize of {c.name}")
        return
    if not calls:
        rep.find("P01.rebuild", c.name, de.where(), "_deserialize never constructs the stored class from the stored data")
        return
    e, extra, ad, kd = calls[-1]
    if extra is not None or "**" in kd:
        rep.skip(f"_deserialize of {c.name}: open call")
        return
    bound = dict(zip(names, ad)) | kd
    for k in keys:
        rep.ob("P01.rebuild", f"{c.name}[{k}]")
        d = bound.get(k)
        if d is None:
            rep.find("P01.rebuild", f"{c.name}[{k}]", de.where(e), f"stored `{k}` is not handed to the constructor")
        elif f"data<{k}>" not in d:
            rep.find("P01.rebuild", f"{c.name}[{k}]", de.where(e), f"argument `{k}` is rebuilt from {sorted(d)}")


def check_abstract_rebuild(prog, rep, c, de, keys):
    fa = prog.cls("CircuitComponent").lookup("_from_attributes")[0]
    calls = []

    def on_call(f, o, args, kwargs, extra, e, frame, st):
        if f is not None and f.kind == "func" and isinstance(f.a, Func) and f.a is fa:
            names = [q.name for q in fa.params][1:]
            b = {n: it.deep(a, st) for n, a in zip(names, args)} | {k: it.deep(x, st) for k, x in kwargs.items()}
            calls.append((e, b))
            return unknown()
        return None

    it = Interp(prog, on_call=on_call)
    p = [x.name for x in de.params]
    fields = {k: V(deps=frozenset([f"data<{k}>"]), top=True) for k in keys if k != "class"}
    st = State({}, {"data": Obj("data", "dict", fields=fields)}, E)
    try:
        it.exec_func(de, {p[0]: V(funcs=(FV("class", c),)), p[1]: V(refs=frozenset(["data"]))}, st)
    except (Budget, RecursionError):
        rep.skip(f"_deserialize of {c.name}")
        return
    if not calls:
        rep.skip(f"_deserialize of {c.name} (representation)")
        return
    e, b = calls[0]
    for n in ("wires", "name"):
        rep.ob("P01.rebuild", f"{c.name}[{n}]")
        if n not in b or f"data<{n}>" not in b[n]:
            rep.find("P01.rebuild", f"{c.name}[{n}]", de.where(e), f"`{n}` is rebuilt without the stored `{n}`")
    rep.ob("P01.rebuild", f"{c.name}[ansatz]")
    if "ansatz" in b and not any(f"data<{k}>" in b["ansatz"] for k in keys if k not in ("class", "wires", "name")):
        rep.find("P01.rebuild", f"{c.name}[ansatz]", de.where(e), "the ansatz is rebuilt without the stored arrays")


# ---- save / load ----------------------------------------------------------------------------


def check_file(prog, rep):
    m = prog.module("mrmustard.utils.serialize")
    save, load = m.names.get("save"), m.names.get("load")
    if not isinstance(save, Func) or not isinstance(load, Func):
        raise AnalysisBroken("save/load vanished")
    # keys written into the json object: the object handed to json.dump
    dumped = []

    def on_call(f, o, args, kwargs, extra, e, frame, st):
        if f is not None and f.kind == "ext" and f.a.endswith(("json.dump", "json.dumps")) and args:
            dk = dict_keys(st, args[0])
            dumped.append((dk, {k: it.deep(x, st) for k, x in (dk[0] if dk else {}).items()}))
        if f is not None and f.kind == "ext" and f.a.split(".")[-1] in ("savez", "savez_compressed"):
            saved.append(it.args_deps(args, kwargs, extra, st))
        return None

    saved = []
    it = Interp(prog, on_call=on_call)
    run_safe(rep, it, save)
    if not dumped or dumped[-1][0] is None:
        rep.skip("save: no json.dump of a known dict")
        return
    added = set().union(*[set(dk[0]) for dk, _ in dumped if dk])
    rep.ob("P01.file", "save: generic data reaches the file")
    if not any(dk and dk[1] for dk, _ in dumped):
        rep.find("P01.file", "save: generic data reaches the file", save.where(), "the caller's data is not part of what is written")
    rep.ob("P01.file", "save: arrays reach the file")
    if not any(has_atom(s, "arrays") for s in saved):
        rep.find("P01.file", "save: arrays reach the file", save.where(), "the arrays are not written")
    # what load hands to deserialize
    seen = []

    def on_call2(f, o, args, kwargs, extra, e, frame, st):
        if f is not None and f.kind == "ext" and f.a.endswith(("json.load", "json.loads")):
            st.heap["jd"] = Obj("jd", "dict", fields={k: V(deps=frozenset([f"file<{k}>"]), top=True) for k in sorted(added)}, elem=unknown(frozenset(["file<*>"])))
            return V(refs=frozenset(["jd"]))
        nm = getattr(e.func, "attr", None) if isinstance(e, ast.Call) else None
        if nm == "deserialize" and args:
            seen.append((dict_keys(st, args[0]), it2.deep(args[0], st), e))
        return None

    it2 = Interp(prog, on_call=on_call2)
    run_safe(rep, it2, load)
    if not seen:
        rep.skip("load: no call of deserialize seen")
        return
    left = set()
    for dk, d, e in seen:
        if dk is not None:
            left |= set(dk[0])
    # `backend` is written only next to arrays, and removed only next to arrays: may-keys on both sides
    must_left = set.intersection(*[set(dk[0]) for dk, _, _ in seen if dk is not None]) if any(dk for dk, _, _ in seen) else set()
    for k in sorted(added):
        rep.ob("P01.file", f"load removes {k}")
        if k in must_left and not popped(load, k):
            rep.find("P01.file", f"load removes {k}", load.where(), f"`{k}`, added by save, is handed to deserialize")
    for k in sorted(popped_keys(load)):
        rep.ob("P01.file", f"save writes {k}")
        if k not in added:
            rep.find("P01.file", f"save writes {k}", load.where(), f"load reads `{k}`, which save never writes")
    rep.ob("P01.file", "load: arrays reach deserialize")
    reads = any(isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] == "load" and (dotted(n.func) or "").split(".")[0] != "json" for n in ast.walk(load.node))
    if not any(dk is not None and dk[1] for dk, _, _ in seen) or not reads:
        rep.find("P01.file", "load: arrays reach deserialize", load.where(), "the stored arrays are not handed to deserialize")


def popped_keys(f):
    out = set()
    for n in own(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and len(n.args) == 1 and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            out.add(n.args[0].value)
    return out


def popped(f, k):
    for n in own(f.node):
        if isinstance(n, ast.Constant) and n.value == k:
            return True
    return False


# ---- circuit --------------------------------------------------------------------------------


def check_circuit(prog, rep):
    c = prog.cls("Circuit")
    ser, de = c.lookup("serialize")[0], c.lookup("deserialize")[0]
    save = prog.module("mrmustard.utils.serialize").names.get("save")
    if not isinstance(ser, Func) or not isinstance(de, Func):
        raise AnalysisBroken("Circuit.serialize/deserialize vanished")
    calls = []

    def on_call(f, o, args, kwargs, extra, e, frame, st):
        if f is not None and f.kind == "func" and f.a is save:
            calls.append(({k: it.deep(x, st) for k, x in kwargs.items()}, e))
            return unknown()
        return None

    it = Interp(prog, on_call=on_call)
    run_safe(rep, it, ser, self_cls=c)
    if not calls:
        rep.skip("Circuit.serialize: no call of save seen")
        return
    kw, e = calls[0]
    if "**" in kw:
        rep.skip("Circuit.serialize: open call of save")
        return
    stored = set(kw) - {"arrays", "filename", "do_zip"}
    for field in sorted(init_fields(prog, c)):
        rep.ob("P01.circuit", f"Circuit.{field} stored")
        if not any(has_atom(d, "self." + field) for k, d in kw.items()):
            rep.find("P01.circuit", f"Circuit.{field} stored", ser.where(e), f"`{field}` is not part of what is saved")
    rep.ob("P01.circuit", "arrays stored")
    if not has_atom(kw.get("arrays", E), "self.components"):
        rep.find("P01.circuit", "arrays stored", ser.where(e), "the components' arrays are not saved")
    # deserialize: every stored key is consumed, and every field of the result depends on it
    it = Interp(prog, no_inline=lambda f: f.name in ("_light_copy", "_deserialize"))
    p = [x.name for x in de.params]
    fields = {k: V(deps=frozenset([f"data<{k}>"]), top=True) for k in stored}
    st = State({}, {"data": Obj("data", "dict", fields=fields, elem=unknown(frozenset(["data<arrays>"])))}, E)
    left = []
    try:
        r, st2 = it.exec_func(de, {p[0]: V(funcs=(FV("class", c),)), p[1]: V(refs=frozenset(["data"]))}, st)
    except (Budget, RecursionError):
        r = None
    if r is None:
        rep.skip("Circuit.deserialize")
        return
    for field in sorted(init_fields(prog, c)):
        d = field_deps(it, st2, r, field)
        if d is None or field not in stored:
            continue
        rep.ob("P01.circuit", f"Circuit.{field} restored")
        if f"data<{field}>" not in d:
            rep.find("P01.circuit", f"Circuit.{field} restored", de.where(), f"`{field}` of the loaded circuit derives from {sorted(d)}")


def check_override(prog, rep):
    base = prog.cls("CircuitComponent")
    sites = {}
    for c in prog.subclasses(base, strict=False):
        for m in c.members.values():
            if not isinstance(m, Func) or m.kind != "method" or m.name == "__init__":
                continue
            rebuilt = set()
            for n in own(m.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    f = ast.unparse(n.value.func)
                    if f in ("self.__class__", "type(self)"):
                        rebuilt.add(n.targets[0].id)
            for n in own(m.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in rebuilt and t.attr == "_ansatz":
                            sites.setdefault(t.attr, []).append(m.where(n))
    reads = set()
    for c, init, names, _, v, st in built(prog, rep):
        if "ansatz" in names:
            continue
        ser = c.lookup("_serialize")[0]
        it = Interp(prog, on_read=lambda o, attr, e, frame, s: reads.add(attr), no_inline=lambda f: False)
        try:
            it.exec_func(ser, {ser.params[0].name: v}, State({}, dict(st.heap), E), selfv=v)
        except (Budget, RecursionError):
            return
    for fld in ("_ansatz",):
        rep.ob("P01.override", f"CircuitComponent.{fld}")
        if sites.get(fld) and fld not in reads:
            rep.find("P01.override", f"CircuitComponent.{fld}", prog.cls("CircuitComponent").lookup("_serialize")[0].where(),
                     f"`{fld}` is replaced after construction ({'; '.join(sites[fld][:3])}) but components of parametrised classes are stored by their parameters only")


LOSSY = {"real", "imag", "abs", "round", "around", "rint", "trunc", "floor", "ceil", "float16", "float32", "complex64", "int32", "int64_", "conj", "sorted", "reversed", "sort", "unique", "flip", "transpose", "ravel", "flatten", "squeeze"}


# conversions that keep the numbers and change their arrangement, and edits of the keys they are stored under
RESHAPE = {"atleast_1d", "atleast_2d", "atleast_3d", "atleast_nd", "expand_dims", "reshape", "concat", "concatenate", "stack", "hstack", "vstack", "sum", "prod", "mean", "diag", "lower", "upper", "strip", "lstrip", "rstrip", "title", "swapcase", "capitalize", "casefold"}
TYPED = {"astensor", "asarray", "array", "cast", "astype", "ascontiguousarray", "frombuffer"}
PARSE = {"split", "rsplit", "partition", "rpartition", "signature", "splitlines"}


class Faithful:
    """Constructs on the way of the stored data that lose or rearrange part of it (flow-insensitive taint)."""

    def __init__(self, f, seeds):
        self.f = f
        self.taint = set(seeds)
        self.parsed = set()
        self.nodes = list(own(f.node))
        self.spread()

    def loads(self, n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "load"

    def data(self, e):
        return any((isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.taint) or self.loads(n) for n in ast.walk(e))

    def spread(self):
        def names(t):
            return [n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]

        changed = True
        while changed:
            before = len(self.taint)
            for n in self.nodes:
                pairs = []
                if isinstance(n, ast.Assign):
                    pairs = [(t, n.value) for t in n.targets]
                elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and n.value is not None:
                    pairs = [(n.target, n.value)]
                elif isinstance(n, (ast.For, ast.comprehension)):
                    pairs = [(n.target, n.iter)]
                for t, v in pairs:
                    if self.data(v):
                        self.taint.update(names(t))
                    if isinstance(v, ast.Call) and (dotted(v.func) or getattr(v.func, "attr", "")).split(".")[-1] in PARSE:
                        self.parsed.update(names(t) if isinstance(t, ast.Name) else ())
            changed = len(self.taint) != before

    def structural(self, test):
        """Tests of presence or kind."""
        if isinstance(test, ast.BoolOp):
            return all(self.structural(v) for v in test.values)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.structural(test.operand)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            if isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                return True
            return any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in [test.left, *test.comparators])
        if isinstance(test, ast.Call):
            nm = (dotted(test.func) or getattr(test.func, "attr", "")).split(".")[-1]
            return nm in ("isinstance", "hasattr", "callable", "issubclass", "startswith", "endswith")
        return not self.data(test)

    def faults(self):
        tests = set()
        for n in self.nodes:
            if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                tests |= {id(x) for x in ast.walk(n.test)}
            elif isinstance(n, ast.comprehension):
                tests |= {id(x) for c in n.ifs for x in ast.walk(c)}
            elif isinstance(n, (ast.Raise, ast.JoinedStr)):
                tests |= {id(x) for x in ast.walk(n)}
        once = {}
        for n in self.nodes:
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and isinstance(n.value, ast.Attribute):
                once.setdefault(ast.dump(n.value), set()).add(repr(n.slice.value))
        for n in self.nodes:
            if id(n) in tests and not isinstance(n, (ast.comprehension, ast.If)):
                continue
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and self.data(n.value):
                sl = n.slice
                neg = isinstance(sl, ast.UnaryOp) and isinstance(sl.op, ast.USub)
                base = n.value
                parsed = (isinstance(base, ast.Name) and base.id in self.parsed) or (isinstance(base, ast.Call) and (dotted(base.func) or getattr(base.func, "attr", "")).split(".")[-1] in PARSE)
                if parsed:
                    continue
                part = isinstance(sl, ast.Slice) and (sl.lower is not None or sl.upper is not None or sl.step is not None)
                alone = isinstance(sl, ast.Constant) and isinstance(sl.value, int) and isinstance(base, ast.Attribute) and len(once.get(ast.dump(base), ())) == 1
                if part or neg or alone:
                    yield n, f"`{ast.unparse(n)}` keeps a part of it only"
            elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and self.data(n.values[0]):
                last = n.values[-1]
                hollow = isinstance(last, (ast.List, ast.Tuple, ast.Dict)) and not getattr(last, "elts", getattr(last, "keys", None))
                hollow = hollow or (isinstance(last, ast.Call) and not last.args and not last.keywords)
                if not hollow:
                    yield n, f"`{ast.unparse(n)}` replaces values that are zero or empty"
            elif isinstance(n, ast.IfExp) and (self.data(n.body) or self.data(n.orelse)) and not self.structural(n.test) and not isinstance(n.test, (ast.Name, ast.Attribute)):
                yield n, f"what is stored depends on `{ast.unparse(n.test)}`"
            elif isinstance(n, ast.comprehension) and self.data(n.iter):
                for t in n.ifs:
                    if not self.structural(t):
                        yield t, f"entries are left out depending on `{ast.unparse(t)}`"
            elif isinstance(n, (ast.For, ast.AsyncFor)) and self.data(n.iter):
                for s in n.body:
                    if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Continue, ast.Break)) and len(s.body) == 1 and not self.structural(s.test):
                        yield s, f"entries are left out depending on `{ast.unparse(s.test)}`"
            elif isinstance(n, ast.Call):
                nm = (dotted(n.func) or getattr(n.func, "attr", "")).split(".")[-1]
                given = [*n.args, *([n.func.value] if isinstance(n.func, ast.Attribute) else [])]
                if not any(self.data(a) for a in given):
                    continue
                if nm in RESHAPE and not (nm == "reshape" and "shape" in ast.unparse(n)):
                    yield n, f"`{nm}` rearranges the stored value"
                elif nm in TYPED:
                    dt = [k.value for k in n.keywords if k.arg == "dtype"]
                    if not dt and nm in ("astensor", "asarray", "array", "cast") and len(n.args) > 1:
                        dt = [n.args[1]]
                    if not dt and nm == "astype" and n.args:
                        dt = [n.args[0]]
                    if dt and not self.data(dt[0]) and not (isinstance(dt[0], ast.Constant) and dt[0].value is None):
                        yield n, f"`{ast.unparse(n)}` forces another type on it"
            elif isinstance(n, ast.If) and self.f.name in ("to_dict", "_serialize"):
                # a flag that is stored under a test: the test has to be the flag
                st = [s for s in n.body if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and s.value.value is True and isinstance(s.targets[0], ast.Subscript)]
                fields = {x.attr for x in ast.walk(n.test) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"}
                if st and len(fields) > 1:
                    yield n, f"the flag is stored depending on `{ast.unparse(n.test)}`"


def faithful(rep, f):
    ps = [p.name for p in f.params]
    if f.name in ("serialize", "_serialize", "to_dict"):
        seeds = ps[:1]
    elif f.kind in ("method", "classmethod"):
        seeds = ps[1:]
    else:
        seeds = [p.name for p in f.params if p.kind == "kwarg" or p.name == "arrays"]
    for n, msg in Faithful(f, seeds).faults():
        rep.find("P01.lossless", f"{f.short()}:{ast.unparse(n)[:40]}" if hasattr(n, "lineno") else f.short(), f.where(n), msg)


def check_lossless(prog, rep):
    fs = []
    m = prog.module("mrmustard.utils.serialize")
    fs += [f for f in (m.names.get("save"), m.names.get("load")) if isinstance(f, Func)]
    for c in [prog.cls("Circuit"), prog.cls("CircuitComponent"), prog.cls("ParameterSet")] + prog.subclasses(prog.cls("Ansatz"), strict=False):
        for n in ("serialize", "deserialize", "_serialize", "_deserialize", "to_dict", "from_dict"):
            f = c.members.get(n)
            if isinstance(f, Func) and not is_stub(f):
                fs.append(f)
    for f in fs:
        rep.ob("P01.lossless", f.short())
        faithful(rep, f)
        skip = iterated(f)
        for n in own(f.node):
            name = None
            if n in skip:
                continue
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                name = n.attr
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                name = n.func.id
            if name in LOSSY:
                rep.find("P01.lossless", f"{f.short()}:{name}", f.where(n), f"`{name}` drops or rearranges part of the stored value")


# ---- nothing is left out for particular values ----------------------------------------------


def check_always(prog, rep):
    """Branches of the component writer and reader that test a parameter's value or bounds."""
    base = prog.cls("CircuitComponent")
    done = set()
    for c, init, names, _, v, st in built(prog, rep):
        if "ansatz" in names:
            continue
        ser, de = c.lookup("_serialize")[0], c.lookup("_deserialize")[0]
        if not any(n.endswith("_trainable") for n in names) or (ser, de) in done:
            continue
        done.add((ser, de))
        rep.ob("P01.always", ser.short())
        rep.ob("P01.always", de.short())
        seen = []

        def on_test(test, tv, s, frame):
            if type_test(test) or frame.func.cls is None or not frame.func.cls.is_subclass(base) and frame.func.cls is not base:
                return
            d = it.deep(tv, s)
            hit = sorted(a for a in d if a.split(".")[-1].split("[")[0].lstrip("_") in ("bounds", "value"))
            if hit or reads_value(frame.func, test):
                seen.append((frame.func, test, hit or ["a parameter's value or bounds"]))

        it = Interp(prog, on_test=on_test)
        run_safe(rep, it, ser, self_cls=c)
        for f, test, hit in seen[:1]:
            rep.find("P01.always", ser.short(), f.where(test), f"what is stored depends on `{ast.unparse(test)}`, a test of {hit[0]}")
        seen2 = []
        keys = [n for n in names if n not in ("modes", "mode")]

        def on_test2(test, tv, s, frame):
            if type_test(test) or frame.func is not de or isinstance(test, ast.Compare) and isinstance(test.ops[0], (ast.In, ast.NotIn)) and isinstance(test.left, (ast.Constant, ast.Name)):
                return
            hit = [k for k in keys if f"data<{k}>" in it2.deep(tv, s)]
            if hit:
                seen2.append((frame.func, test, hit))

        it2 = Interp(prog, on_test=on_test2)
        p = [x.name for x in de.params]
        fields = {k: V(deps=frozenset([f"data<{k}>"]), top=True) for k in keys}
        s0 = State({}, {"data": Obj("data", "dict", fields=fields)}, E)
        try:
            it2.exec_func(de, {p[0]: V(funcs=(FV("class", c),)), p[1]: V(refs=frozenset(["data"]))}, s0)
        except (Budget, RecursionError):
            rep.skip(f"{de.short()} (branches)")
        for f, test, hit in seen2[:1]:
            rep.find("P01.always", de.short(), f.where(test), f"what is rebuilt depends on `{ast.unparse(test)}`, a test of the stored {hit[0]}")


def type_test(test):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "hasattr", "callable", "issubclass") for n in ast.walk(test))


def iterated(f):
    """Expressions that are only looped over."""
    return {x for n in own(f.node) for x in ([n.iter] if isinstance(n, (ast.For, ast.comprehension)) else [])}


def reads_value(f, test, depth=2):
    """The test reads `.bounds` / `.value` of something, directly or through a local."""
    for n in ast.walk(test):
        if isinstance(n, ast.Attribute) and n.attr.lstrip("_") in ("bounds", "value"):
            return True
        if isinstance(n, ast.Name) and depth:
            for m in own(f.node):
                if isinstance(m, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for tt in m.targets for t in ast.walk(tt)):
                    if reads_value(f, m.value, depth - 1):
                        return True
    return False
