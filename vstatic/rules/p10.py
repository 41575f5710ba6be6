"""P10 -- a component is exactly what its constructor arguments say, and can be rebuilt from its parameters."""

from .comp import built, component_classes, dict_keys, heap_obj
from .common import *
from .p10_more import check_more


def check(prog, rep):
    rep.rule("P10.rebuild", "parameters.to_dict() holds exactly the non-mode constructor arguments, each derived from its own argument", 60)
    rep.rule("P10.accepted", "the constructor accepts every key of parameters.to_dict()", 40)
    rep.rule("P10.parameter", "the parameter registered as N takes value, bounds and trainability from N, N_bounds, N_trainable", 15)
    rep.rule("P10.fn-args", "the ansatz function gets exactly the arguments its signature asks for", 12)
    rep.rule("P10.fn-value", "the ansatz argument named like a constructor argument is that argument's parameter", 15)
    rep.rule("P10.reaches", "every registered parameter reaches the ansatz", 15)
    rep.rule("P10.result", "every argument of the ansatz function influences the triple it returns", 15)
    rep.rule("P10.update", "the update rule of a parameter is one the optimizer has, and the one for its kind", 18)
    rep.rule("P10.dtype", "a parameter is stored with a dtype that holds its argument", 16)
    rep.rule("P10.value", "the value that is registered, and that Fock kernels get, is the argument itself", 22)
    rep.rule("P10.wires", "the wires of a component are those of its kind", 16)
    rep.rule("P10.order", "parameters are not passed for one another", 20)
    check_more(prog, rep)
    fns = {}
    for c, init, names, it, v, st in built(prog, rep):
        if "ansatz" in names and "wires" in names:
            continue
        check_to_dict(prog, rep, c, init, names, v, st)
    for c, init, names in component_classes(prog):
        if "ansatz" in names and "wires" in names:
            continue
        check_wiring(prog, rep, c, init, names, fns)


def check_to_dict(prog, rep, c, init, names, v, st):
    td, _ = prog.cls("ParameterSet").lookup("to_dict")
    if not isinstance(td, Func):
        raise AnalysisBroken("ParameterSet.to_dict vanished")
    o = heap_obj(st, v)
    ps = o.fields.get("_parameters") if o else None
    if ps is None or heap_obj(st, ps) is None:
        rep.skip(f"{c.name}: parameters")
        return
    it = Interp(prog)
    try:
        r, st2 = it.exec_func(td, {td.params[0].name: ps}, State({}, dict(st.heap), E), selfv=ps)
    except (Budget, RecursionError):
        rep.skip(f"{c.name}: to_dict")
        return
    dk = dict_keys(st2, r) if r is not None else None
    if dk is None or dk[1]:
        rep.skip(f"{c.name}: to_dict with unknown keys")
        return
    keys = dk[0]
    open_ = any(q.kind == "kwarg" for q in init.params)
    for k, x in keys.items():
        rep.ob("P10.accepted", f"{c.name}[{k}]")
        if k not in names and not open_:
            rep.find("P10.accepted", f"{c.name}[{k}]", init.where(), f"to_dict emits `{k}`, which {c.name}() does not accept: to_fock/to_bargmann of such a component raise TypeError")
    for q in init.params[1:]:
        if q.name in ("mode", "modes") or q.kind in ("vararg", "kwarg"):
            continue
        rep.ob("P10.rebuild", f"{c.name}({q.name})")
        if q.name not in keys:
            rep.find("P10.rebuild", f"{c.name}({q.name})", init.where(), f"constructor argument `{q.name}` is not part of the parameters: rebuilding the component resets it to its default")
        elif not q.name.endswith("_trainable"):
            d = it.deep(keys[q.name], st2)
            if not has_atom(d, q.name):
                rep.find("P10.rebuild", f"{c.name}({q.name})", init.where(), f"`{q.name}` is rebuilt from {sorted(d)[:4]}")


def check_wiring(prog, rep, c, init, names, fns):
    made, ffs, rets = [], [], {}
    holder = {}

    def on_call(f, o, args, kwargs, extra, e, frame, st):
        it = holder["it"]
        if f is None or f.kind not in ("func", "class"):
            return None
        target = f.a if f.kind == "func" else None
        if isinstance(target, Func) and target.name == "make_parameter" and extra is None and "**" not in kwargs:
            b = bind_names(target, args, kwargs, skip=0)
            made.append((b, {k: (it.deep(x, st), x) for k, x in b.items()}, e, frame.func))
        if isinstance(target, Func) and target.name == "from_function" and target.cls is not None and extra is None:
            pos = {}
            if args:
                fn, rest = args[0], args[1:]
            else:
                fn, rest = kwargs.get("fn"), []
            kw = {k: x for k, x in kwargs.items() if k != "fn"}
            ffs.append((fn, kw, {k: it.deep(x, st) for k, x in kw.items()}, e, frame.func, dict(st.heap)))
        return None

    it = holder["it"] = Interp(prog, on_call=on_call)
    got = construct(rep, prog, c, it)
    if got is None:
        rep.skip(f"constructor of {c.name}")
        return
    _, v, st, _ = got
    seen_params = []
    for b, d, e, where in made:
        nm = b.get("name")
        try:
            n = nm.const() if nm is not None else None
        except KeyError:
            n = None
        if not isinstance(n, str):
            continue
        seen_params.append(n)
        if n not in names:
            continue
        for role, want in (("value", n), ("bounds", n + "_bounds"), ("is_trainable", n + "_trainable")):
            if role not in d:
                if want in names and role != "value":
                    rep.ob("P10.parameter", f"{c.name}.{n}.{role}")
                    rep.find("P10.parameter", f"{c.name}.{n}.{role}", where.where(e), f"constructor argument `{want}` is not used for parameter `{n}`")
                continue
            deps, x = d[role]
            rep.ob("P10.parameter", f"{c.name}.{n}.{role}")
            if want in names:
                others = [m for m in names if m != want and has_atom(deps, m) and (m.endswith("_trainable") or m.endswith("_bounds"))]
                if not has_atom(deps, want):
                    rep.find("P10.parameter", f"{c.name}.{n}.{role}", where.where(e), f"{role} of parameter `{n}` derives from {sorted(deps)[:3]}, not from `{want}`")
                elif role != "value" and (conds := sorted(m for m in names if m != want and has_atom(x.ctl, m) and not has_atom(deps, m))):
                    rep.find("P10.parameter", f"{c.name}.{n}.{role}", where.where(e), f"{role} of parameter `{n}` is `{want}` only depending on `{conds[0]}`")
                elif others:
                    rep.find("P10.parameter", f"{c.name}.{n}.{role}", where.where(e), f"{role} of parameter `{n}` derives from `{others[0]}`")
    # ansatz function
    if not ffs:
        rep.skip(f"{c.name}: no from_function call")
        return
    reached = set()
    for fn, kw, deps, e, where, heap in ffs:
        open_ = "**" in kw
        for k, d in deps.items():
            if k == "**":
                continue
            for n in names:
                if has_atom(d, n):
                    reached.add(n)
            if k in names and k not in ("modes", "mode"):
                rep.ob("P10.fn-value", f"{c.name}.{k}")
                if not has_atom(d, k):
                    rep.find("P10.fn-value", f"{c.name}.{k}", where.where(e), f"ansatz argument `{k}` derives from {sorted(d)[:3]}")
        targets = [f.a for f in (fn.funcs if fn is not None else ()) if f.kind == "func" and isinstance(f.a, Func)]
        if fn is None or len(targets) != len(fn.funcs) or not targets or open_:
            rep.skip(f"{c.name}: ansatz function")
            continue
        for t in targets:
            sk = 1 if (t.cls is not None and t.outer is None and t.kind in ("method", "classmethod")) else 0
            ps = t.params[sk:]
            acc = {p.name for p in ps if p.kind in ("pos", "kwonly")}
            req = {p.name for p in ps if p.kind in ("pos", "kwonly") and p.default is None}
            rep.ob("P10.fn-args", f"{c.name}:{t.name}")
            extra = set(kw) - acc - {"batch_dims"}
            if extra and not any(p.kind == "kwarg" for p in ps):
                rep.find("P10.fn-args", f"{c.name}:{','.join(sorted(extra))}", where.where(e), f"`{t.name}` takes no argument {sorted(extra)}: the ansatz cannot be generated")
            miss = req - set(kw)
            if miss:
                rep.find("P10.fn-args", f"{c.name}:{','.join(sorted(miss))}", where.where(e), f"required argument {sorted(miss)} of `{t.name}` is not supplied")
            if t not in fns:
                fns[t] = influence(prog, rep, t)
            infl = fns[t]
            if infl is None:
                rep.skip(f"{t.name}: result")
                continue
            for k in kw:
                if k in acc:
                    rep.ob("P10.result", f"{c.name}:{t.name}({k})")
                    if not has_atom(infl, k):
                        rep.find("P10.result", f"{c.name}:{t.name}({k})", t.where(), f"argument `{k}` does not influence the result: every value of it gives the same {c.name}")
    for n in seen_params:
        if n in names:
            rep.ob("P10.reaches", f"{c.name}.{n}")
            if n not in reached:
                rep.find("P10.reaches", f"{c.name}.{n}", init.where(), f"parameter `{n}` never reaches the ansatz")


def influence(prog, rep, t):
    branches = set()

    def on_branch(node, tv, st, frame):
        branches.update(it.deep(tv, st) | tv.ctl)

    it = Interp(prog, max_depth=9, on_branch=on_branch)
    try:
        if t.outer is not None:
            # lambda or local function: free variables are opaque
            st = State({}, {}, E)
            env = {p.name: it.input_param(st, t, p) for p in t.params}
            v, s = it.exec_func(t, env, st)
        else:
            v, s = it.run(t)
    except (Budget, RecursionError):
        return None
    if v is None:
        return None
    return it.deep(v, s) | ctl_of(it, v, s) | branches


def ctl_of(it, v, s):
    out = v.ctl
    known, summ = it.elements(v, s)
    for x in (known or []) + ([summ] if summ is not None else []):
        out = out | x.ctl
    return out


def bind_names(f, args, kwargs, skip):
    b = {}
    for p, a in zip(f.params[skip:], args):
        b[p.name] = a
    b.update({k: x for k, x in kwargs.items()})
    return b
