"""P18 -- custom gradients are wired to the operation they belong to."""

from ..calls import Calls
from .common import *
from .p08_terms import Terms, clean, roots, text, transformed


def check(prog, rep):
    rep.rule("P18.pair", "a custom operation has a forward and a backward rule, and the forward rule takes the arguments of the operation and calls it with them in order", 4)
    rep.rule("P18.static", "the arguments excluded from differentiation are the static ones, come first in the backward rule and have their own names there", 4)
    rep.rule("P18.residual", "the backward rule unpacks what the forward rule packed, in the same order", 4)
    rep.rule("P18.callback", "a host callback takes as many operands as it is given, in the roles its parameters name, and returns as many results as it declares", 8)
    rep.rule("P18.gradient", "the backward rule returns one gradient per differentiable argument, in the order of the arguments, each computed from the incoming cotangent", 8)
    rep.rule("P18.kernel", "functions called by operations and gradients exist and take the arguments they are given", 8)
    rep.rule("P18.value", "arguments, saved values, cotangents and gradients are handed on as they are", 6)
    rep.rule("P18.primal", "the result of an operation depends on every differentiable argument", 8)
    calls = Calls(prog)
    n = 0
    for m in prog.modules.values():
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == "defvjp" and len(s.args) == 2:
                prim = prog.resolve_expr(m, s.func.value)
                fwd, bwd = (prog.resolve_expr(m, a) for a in s.args)
                if all(isinstance(x, Func) for x in (prim, fwd, bwd)):
                    n += 1
                    op(prog, rep, calls, prim, fwd, bwd)
                    values(prog, rep, calls, prim, fwd, bwd)
    families(prog, rep, calls)
    defined = [f for f in prog.funcs if not isinstance(f.node, ast.Lambda) and any("custom_vjp" in ast.unparse(d) for d in f.node.decorator_list)]
    paired = getattr(rep, "_p18_paired", set())
    for f in defined:
        rep.ob("P18.pair", f.name)
        if f not in paired:
            rep.find("P18.pair", f"{f.name}:defvjp", f.where(), f"{f.name} is declared with a custom gradient but no forward and backward rule is attached to it")
    if not defined:
        raise AnalysisBroken("no operation with a custom gradient found")


def deco_nums(f, what):
    for d in f.node.decorator_list:
        if isinstance(d, ast.Call) and what[0] in ast.unparse(d):
            for k in d.keywords:
                if k.arg == what[1]:
                    try:
                        v = ast.literal_eval(k.value)
                    except ValueError:
                        return None
                    return (v,) if isinstance(v, int) else tuple(v)
    return ()


def op(prog, rep, calls, prim, fwd, bwd):
    paired = getattr(rep, "_p18_paired", set())
    paired.add(prim)
    rep._p18_paired = paired
    names = [p.name for p in prim.params]
    low = [x.lower() for x in names]
    nondiff = deco_nums(prim, ("custom_vjp", "nondiff_argnums"))
    static = deco_nums(prim, ("jit", "static_argnums"))
    if nondiff is None or any(p.kind != "pos" for p in prim.params):
        rep.skip(f"{prim.short()}: arguments cannot be read statically")
        return
    diff = [i for i in range(len(names)) if i not in nondiff]

    # ---- forward ----
    rep.ob("P18.pair", f"{fwd.name}")
    fn = [p.name for p in fwd.params]
    if len(fn) != len(names):
        rep.find("P18.pair", f"{fwd.name}:arity", fwd.where(), f"{fwd.name} takes {len(fn)} arguments, {prim.name} takes {len(names)}")
        return
    for i, x in enumerate(fn):
        if x.lower() in low and low.index(x.lower()) != i:
            rep.find("P18.pair", f"{fwd.name}:{x}", fwd.where(), f"position {i} of {fwd.name} is `{x}`, in {prim.name} it is `{names[i]}`")
    others = {p for p in _prims(prog) if p is not prim}
    seen = calls.reachable(fwd)
    if prim not in seen and others & set(seen):
        rep.find("P18.pair", f"{fwd.name}:operation", fwd.where(), f"{fwd.name} is attached to {prim.name} but runs {sorted(p.name for p in others & set(seen))[0]}")
    for n in own(fwd.node):
        if isinstance(n, ast.Call) and calls.resolve(fwd, n.func) is prim:
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Name) and a.id in fn and fn.index(a.id) != i:
                    rep.find("P18.pair", f"{fwd.name}:call:{a.id}", fwd.where(n), f"{fwd.name} calls {prim.name} with `{a.id}` at position {i}")
            if len(n.args) + len(n.keywords) != len(names) and not any(isinstance(a, ast.Starred) for a in n.args):
                rep.find("P18.pair", f"{fwd.name}:call", fwd.where(n), f"{fwd.name} calls {prim.name} with {len(n.args) + len(n.keywords)} arguments")

    # ---- static arguments ----
    rep.ob("P18.static", prim.name)
    if static and set(static) != set(nondiff):
        rep.find("P18.static", f"{prim.name}:argnums", prim.where(), f"static arguments {sorted(static)} and arguments excluded from differentiation {sorted(nondiff)} differ")
    bn = [p.name for p in bwd.params]
    if len(bn) != len(nondiff) + 2:
        rep.find("P18.static", f"{bwd.name}:arity", bwd.where(), f"{bwd.name} takes {len(bn)} arguments; it is called with the {len(nondiff)} non-differentiable ones, the residuals and the cotangent")
        return
    for j, i in enumerate(sorted(nondiff)):
        x = bn[j].lower()
        if x in low and low.index(x) != i:
            rep.find("P18.static", f"{bwd.name}:{bn[j]}", bwd.where(), f"position {j} of {bwd.name} is the argument `{names[i]}` of {prim.name}, but is called `{bn[j]}`")

    # ---- what the forward rule packs ----
    out_len = result_len(prog, calls, prim)
    packed = pack(prog, calls, prim, fwd, out_len)
    meaning = unpack(rep, prim, fwd, bwd, packed, names, low)
    if meaning is None:
        meaning = {}
    ev = Eval(prog, rep, calls, bwd, prim, names)
    env = {bn[-1]: {"g"}}
    for j, i in enumerate(sorted(nondiff)):
        env[bn[j]] = {("arg", i)}
    env.update(meaning)
    ev.outs = kernel_results(prog, calls, prim)
    ev.run(env)
    if ev.returned is None:
        rep.skip(f"{bwd.short()}: returned gradients cannot be read statically")
    else:
        rets = ev.returned
        rep.ob("P18.gradient", bwd.name)
        if len(rets) != len(diff):
            rep.find("P18.gradient", f"{bwd.name}:arity", bwd.where(), f"{bwd.name} returns {len(rets)} gradients for {len(diff)} differentiable arguments ({', '.join(names[i] for i in diff)})")
        else:
            for k, (i, t) in enumerate(zip(diff, rets)):
                rep.ob("P18.gradient", f"{bwd.name}[{names[i]}]")
                of = {x[1] for x in t if isinstance(x, tuple) and x[0] == "of"}
                if of and i not in of:
                    rep.find("P18.gradient", f"{bwd.name}[{names[i]}]", bwd.where(), f"{bwd.name} returns the gradient of `{names[min(of)]}` at the position of `{names[i]}`")
                if "g" not in t:
                    rep.find("P18.gradient", f"{bwd.name}[{names[i]}]:cotangent", bwd.where(), f"the gradient {bwd.name} returns for `{names[i]}` does not depend on the incoming cotangent")

        # every derivative that is computed is used
        allr = set().union(*rets) if rets else set()
        for t, where, what in ev.results:
            rep.ob("P18.gradient", f"{bwd.name}<-{what}")
            if t not in allr:
                rep.find("P18.gradient", f"{bwd.name}<-{what}", bwd.where(where), f"the derivative `{what}` computed in {bwd.name} does not reach a returned gradient")
    # ---- which result of the operation is differentiated ----
    used = set()
    for f in prog.funcs:
        if f in (fwd, prim, bwd) or isinstance(f.node, ast.Lambda):
            continue
        for n in own(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Call) and isinstance(n.slice, ast.Constant) and calls.resolve(f, n.value.func) is prim:
                used.add(n.slice.value)
    cot = {n.slice.value: n for n in own(bwd.node) if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == bn[-1] and isinstance(n.slice, ast.Constant)}
    if used and out_len > 1:
        rep.ob("P18.gradient", f"{bwd.name}:cotangent")
        for k in sorted(used - set(cot)) if cot else []:
            rep.find("P18.gradient", f"{bwd.name}:cotangent[{k}]", bwd.where(next(iter(cot.values()))), f"callers use result {k} of {prim.name}, {bwd.name} reads the cotangent of result {sorted(cot)}")

    # ---- the operation itself ----
    pe = Eval(prog, rep, calls, prim, prim, names)
    pe.run({x: {("arg", i)} for i, x in enumerate(names)})
    if pe.flow is not None:
        for i in diff:
            rep.ob("P18.primal", f"{prim.name}({names[i]})")
            if ("arg", i) not in pe.flow:
                rep.find("P18.primal", f"{prim.name}({names[i]})", prim.where(), f"the result of {prim.name} does not depend on `{names[i]}`")


CHANGES = {"conj", "conjugate", "abs", "absolute", "real", "imag", "negative", "mod", "remainder", "exp", "log", "sqrt", "square", "floor", "round", "sin", "cos"}


def changed(e):
    """(name, how) for a name inside something that changes its value."""
    how = None
    while True:
        if isinstance(e, ast.Call) and e.args:
            n = (dotted(e.func) or "").split(".")[-1]
            if n in CHANGES:
                how = how or n
            elif len(e.args) > 1 or n not in ("asarray", "array", "tuple", "ascontiguousarray", "complex", "float", "int", "broadcast_to"):
                return None
            e = e.args[0]
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("conj", "conjugate"):
            how, e = how or "conj", e.func.value
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            how, e = how or "-", e.operand
        elif isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Add, ast.Sub, ast.Div, ast.Mod, ast.Pow)) and isinstance(e.left, ast.Name) and isinstance(e.right, ast.Constant) and e.right.value not in (0, 1):
            how, e = how or type(e.op).__name__, e.left
        else:
            break
    return (e.id, how) if isinstance(e, ast.Name) and how else None


def values(prog, rep, calls, prim, fwd, bwd):
    """Arguments, saved values, cotangents and gradients are passed on as they are."""
    names = [p.name for p in prim.params]
    rep.ob("P18.value", prim.name)
    # the forward rule runs the operation on its own arguments
    t = Terms(prog, None, {prim}).of(fwd)
    t = clean(t) if t is not None else None
    runs = []

    def find(x):
        if isinstance(x, tuple):
            if x and x[0] == "call" and len(x) == 4 and x[1] == prim.name:
                runs.append(x)
                return
            for y in x:
                find(y)

    find(t)
    for r in runs[:1]:
        if any(a[0] == "star" for a in r[2]) or any(k not in names for k, _ in r[3]):
            continue
        given = {i: a for i, a in enumerate(r[2])} | {names.index(k): v for k, v in r[3]}
        for i, a in given.items():
            if i < len(names) and a != ("p", i):
                if a[0] != "?" and i not in roots(a) and not unknowns(a):
                    rep.find("P18.value", f"{fwd.name}:{names[i]}", fwd.where(), f"{fwd.name} runs {prim.name} with `{text(a, names)}` in place of its argument `{names[i]}`")
                elif transformed(("p", i), a):
                    rep.find("P18.value", f"{fwd.name}:{names[i]}", fwd.where(), f"{fwd.name} runs {prim.name} with `{text(a, names)}` for `{names[i]}`")
    # what is saved under the name of an argument is that argument
    if t is not None and t[0] == "tuple" and len(t[1]) == 2 and t[1][1][0] == "tuple" and len(bwd.params) >= 2:
        saved = t[1][1][1]
        res = bwd.params[-2].name
        for n in own(bwd.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == res and isinstance(n.targets[0], (ast.Tuple, ast.List)) and len(n.targets[0].elts) == len(saved):
                for x, s in zip(n.targets[0].elts, saved):
                    if isinstance(x, ast.Name) and x.id in names:
                        i = names.index(x.id)
                        if i in roots(s) and (transformed(("p", i), s) or s[0] == "call" and s[1] in CHANGES and s[2][:1] == (("p", i),)):
                            rep.find("P18.value", f"{fwd.name}:saved:{x.id}", fwd.where(), f"{fwd.name} saves `{text(s, names)}`, which {bwd.name} reads as `{x.id}`")
    # the gradient kernel gets the saved values and the cotangent, and what it returns is the gradient
    local = {p.name for p in bwd.params}
    for n in own(bwd.node):
        if isinstance(n, ast.Assign):
            for x in n.targets:
                local |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
    saved_names = {x.id for n in own(bwd.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and len(bwd.params) >= 2 and n.value.id == bwd.params[-2].name for y in n.targets for x in ast.walk(y) if isinstance(x, ast.Name)}
    kernels = {}
    for n in ast.walk(bwd.node):
        if isinstance(n, ast.Call) and (dotted(n.func) or "").endswith("pure_callback") and n.args:
            for a in n.args[2:]:
                c = changed(a)
                if c and c[0] in saved_names | {bwd.params[-1].name}:
                    rep.find("P18.value", f"{bwd.name}:operand:{c[0]}", bwd.where(n), f"{bwd.name} gives the gradient kernel `{ast.unparse(a)}` for `{c[0]}`")
            g = n.args[0]
            if isinstance(g, ast.Name) and isinstance(bwd.locals_funcs.get(g.id), Func):
                g = bwd.locals_funcs[g.id].node
            if isinstance(g, (ast.Lambda, ast.FunctionDef)):
                ps = {a.arg for a in g.args.args}
                for k in ast.walk(g.body) if isinstance(g, ast.Lambda) else ast.walk(g):
                    if isinstance(k, ast.Call) and isinstance(calls.resolve(bwd, k.func), Func):
                        for a in [*k.args, *[w.value for w in k.keywords]]:
                            c = changed(a)
                            if c and c[0] in ps:
                                rep.find("P18.value", f"{bwd.name}:kernel:{c[0]}", bwd.where(k), f"{bwd.name} gives the gradient kernel `{ast.unparse(a)}` for `{c[0]}`")
                        r = kernel_results(prog, calls, calls.resolve(bwd, k.func))
                        if r:
                            kernels[id(n)] = r
    for n in own(bwd.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple):
            for x in n.value.elts:
                if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) and isinstance(x.operand, ast.Name):
                    rep.find("P18.value", f"{bwd.name}:-{x.operand.id}", bwd.where(n), f"{bwd.name} returns the negative of the gradient `{x.operand.id}`")
    # derivatives with respect to the conjugate of an argument come in conjugated, the others do not
    for n in own(bwd.node):
        if isinstance(n, ast.Assign) and id(n.value) in kernels and isinstance(n.targets[0], ast.Tuple) and len(n.targets[0].elts) == len(kernels[id(n.value)]) and all(isinstance(x, ast.Name) for x in n.targets[0].elts):
            rs = kernels[id(n.value)]
            pairs = [(i, j) for i, a in enumerate(rs) for j, b in enumerate(rs) if b in (a + "c", a + "_conj", a + "conj")]
            for i, j in pairs:
                a, b = n.targets[0].elts[i].id, n.targets[0].elts[j].id
                rep.ob("P18.value", f"{bwd.name}:conjugate:{b}")
                for r in own(bwd.node):
                    if isinstance(r, ast.Return) and r.value is not None:
                        inside = {y.id for q in ast.walk(r.value) if isinstance(q, ast.Call) and (getattr(q.func, "attr", "") in ("conj", "conjugate")) for y in ast.walk(q) if isinstance(y, ast.Name)}
                        here = {y.id for y in ast.walk(r.value) if isinstance(y, ast.Name)}
                        if a in here and b in here and (b not in inside or a in inside):
                            rep.find("P18.value", f"{bwd.name}:conjugate:{b}", bwd.where(r), f"`{a}` and `{b}` are the derivatives with respect to an argument and its conjugate ({rs[i]}, {rs[j]}); only the second comes in conjugated")


def unknowns(a):
    return isinstance(a, tuple) and (bool(a) and a[0] == "?" or any(unknowns(x) for x in a))


def _prims(prog):
    c = getattr(prog, "_p18_prims", None)
    if c is None:
        c = prog._p18_prims = [f for f in prog.funcs if not isinstance(f.node, ast.Lambda) and any("custom_vjp" in ast.unparse(d) for d in f.node.decorator_list)]
    return c


def base(name):
    """The operation a kernel or a gradient kernel is named after, and whether it is a gradient."""
    x = name.removesuffix("_numba").removesuffix("_NUMBA")
    for pre in ("grad_", "jacobian_"):
        if x.startswith(pre):
            return x.removeprefix(pre), True
    for suf in ("_vjp", "_grad", "_jacobian"):
        if x.endswith(suf):
            return x.removesuffix(suf), True
    return x, False


def families(prog, rep, calls):
    """A gradient kernel named after one operation is not used for another that has its own."""
    grads = {}
    for f in prog.funcs:
        b, g = base(f.name)
        if g:
            grads.setdefault(b, f)
    ops = {}
    for m in prog.modules.values():
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == "defvjp" and len(s.args) == 2:
                prim, fwd, bwd = prog.resolve_expr(m, s.func.value), *(prog.resolve_expr(m, a) for a in s.args)
                if all(isinstance(x, Func) for x in (prim, fwd, bwd)):
                    ops[prim] = bwd

    def mentioned(f):
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Name, ast.Attribute)):
                r = calls.resolve(f, n)
                if isinstance(r, Func) and r not in ops:
                    out.add(r)
        return out

    own_bases = {p: {base(k.name)[0] for k in mentioned(p) if not base(k.name)[1]} for p in ops}
    for prim, bwd in ops.items():
        for k in sorted(mentioned(bwd), key=lambda x: x.name):
            b, g = base(k.name)
            if not g:
                continue
            rep.ob("P18.kernel", f"{bwd.name}~{k.name}")
            if b not in own_bases[prim] and any(b in own_bases[q] for q in ops if q is not prim) and any(x in grads for x in own_bases[prim]):
                mine = sorted(grads[x].name for x in own_bases[prim] if x in grads)
                rep.find("P18.kernel", f"{bwd.name}~{k.name}", bwd.where(), f"the gradient of {prim.name} is computed by {k.name}, which belongs to another operation ({mine[0]} belongs to this one)")


def kernel_results(prog, calls, f, depth=0):
    """Names of the results of the kernel an operation runs, following tail calls."""
    if depth > 4:
        return None
    for n in ast.walk(f.node):
        v = None
        if isinstance(n, ast.Return):
            v = n.value
        elif isinstance(n, ast.Call) and (dotted(n.func) or "").endswith("pure_callback") and n.args and isinstance(n.args[0], ast.Lambda):
            v = n.args[0].body
        if isinstance(v, ast.Tuple) and len(v.elts) > 1 and all(isinstance(x, ast.Name) for x in v.elts):
            return [x.id for x in v.elts]
        if isinstance(v, ast.Call):
            r = calls.resolve(f, v.func)
            if isinstance(r, Func) and r is not f:
                got = kernel_results(prog, calls, r, depth + 1)
                if got:
                    return got
    return None


def result_len(prog, calls, prim):
    """Number of results of the operation (1 when it returns one array)."""
    lens = set()
    for n in own(prim.node):
        if isinstance(n, ast.Return) and n.value is not None:
            v = n.value
            if isinstance(v, ast.Name):
                v = next((y.value for y in own(prim.node) if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in y.targets)), v)
            if isinstance(v, ast.Call) and (dotted(v.func) or "").endswith("pure_callback") and len(v.args) > 1:
                lens.add(len(v.args[1].elts) if isinstance(v.args[1], ast.Tuple) else 1)
            elif isinstance(v, ast.Tuple):
                lens.add(len(v.elts))
    return lens.pop() if len(lens) == 1 else 1


def pack(prog, calls, prim, fwd, out_len):
    """[token] of the residuals the forward rule returns, or None."""
    fn = [p.name for p in fwd.params]
    env = {x: [("arg", i)] for i, x in enumerate(fn)}

    def ev(e):
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Call):
            r = calls.resolve(fwd, e.func)
            if r is prim:
                return [("out", k) for k in range(out_len)] if out_len > 1 else [("out",)]
            return [("other", ast.unparse(e))]
        if isinstance(e, ast.Tuple):
            got = []
            for x in e.elts:
                v = ev(x.value if isinstance(x, ast.Starred) else x)
                if v is None:
                    return None
                got += v if isinstance(x, ast.Starred) else ([v[0]] if len(v) == 1 else [("tuple", tuple(v))])
            return got
        if isinstance(e, ast.Subscript):
            return [("other", ast.unparse(e))]
        return None

    res = None
    for n in sorted((x for x in own(fwd.node) if isinstance(x, (ast.Assign, ast.Return))), key=lambda x: x.lineno):
        if isinstance(n, ast.Assign):
            v = ev(n.value)
            for t in n.targets:
                if isinstance(t, ast.Name):
                    env[t.id] = v
                elif isinstance(t, ast.Tuple) and v is not None and len(v) == len(t.elts):
                    for x, y in zip(t.elts, v):
                        if isinstance(x, ast.Name):
                            env[x.id] = [y]
        elif isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            res = ev(n.value.elts[1])
    return res


def unpack(rep, prim, fwd, bwd, packed, names, low):
    rn = bwd.params[-2].name
    if packed is None:
        rep.skip(f"{fwd.short()}: residuals cannot be read statically")
        return None
    env = {}
    for n in own(bwd.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == rn and isinstance(n.targets[0], ast.Tuple):
            elts = n.targets[0].elts
            rep.ob("P18.residual", bwd.name)
            star = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
            if len(elts) != len(packed) and not star:
                rep.find("P18.residual", f"{bwd.name}:arity", bwd.where(n), f"{bwd.name} unpacks {len(elts)} residuals, {fwd.name} packs {len(packed)}")
                return None
            for i, x in enumerate(elts):
                k = i if not star or i < star[0] else len(packed) - (len(elts) - i)
                if isinstance(x, ast.Name):
                    tok = packed[k]
                    env[x.id] = {tok}
                    if tok[0] == "arg" and x.id.lower() in low and low.index(x.id.lower()) != tok[1]:
                        rep.find("P18.residual", f"{bwd.name}:{x.id}", bwd.where(n), f"{bwd.name} calls `{x.id}` what {fwd.name} packed as `{names[tok[1]]}`")
                    elif tok[0] == "out" and x.id.lower() in low:
                        rep.find("P18.residual", f"{bwd.name}:{x.id}", bwd.where(n), f"{bwd.name} calls `{x.id}` what {fwd.name} packed as the result of {prim.name}")
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name) and n.value.value.id == rn and isinstance(n.value.slice, ast.Constant) and isinstance(n.value.slice.value, int):
            k = n.value.slice.value
            rep.ob("P18.residual", bwd.name)
            if -len(packed) <= k < len(packed) and isinstance(n.targets[0], ast.Name):
                x = n.targets[0].id
                tok = packed[k]
                env[x] = {tok}
                if tok[0] == "arg" and x.lower() in low and low.index(x.lower()) != tok[1]:
                    rep.find("P18.residual", f"{bwd.name}:{x}", bwd.where(n), f"{bwd.name} calls `{x}` what {fwd.name} packed as `{names[tok[1]]}`")
            elif isinstance(k, int):
                rep.find("P18.residual", f"{bwd.name}:{k}", bwd.where(n), f"{bwd.name} reads residual {k}, {fwd.name} packs {len(packed)}")
    return env


class Eval:
    """Token sets of the values in the body of one small function."""

    def __init__(self, prog, rep, calls, f, prim, names):
        self.prog, self.rep, self.calls, self.f, self.prim, self.names = prog, rep, calls, f, prim, names
        self.low = [n.lower() for n in names]
        self.returned = None
        self.flow = None
        self.results = []
        self.spec_tokens = []
        self.outs = None

    def run(self, env):
        self.env = dict(env)
        self.block(self.f.node.body)

    def block(self, body):
        for s in body:
            if isinstance(s, ast.Assign):
                v = self.ev(s.value)
                for t in s.targets:
                    self.bind(t, v)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.env[s.target.id] = self.flat(self.env.get(s.target.id, set())) | self.flat(self.ev(s.value))
            elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                c = self.flat(self.ev(s.test)) if isinstance(s, ast.If) else set()
                before = dict(self.env)
                self.block(s.body)
                if isinstance(s, ast.If):
                    one = self.env
                    self.env = before
                    self.block(s.orelse)
                    for k, v in one.items():
                        w = self.env.get(k)
                        if w is None:
                            self.env[k] = v
                        elif isinstance(v, list) or isinstance(w, list):
                            self.env[k] = [self.flat(a) | self.flat(b) for a, b in zip(v, w)] if isinstance(v, list) and isinstance(w, list) and len(v) == len(w) else self.flat(v) | self.flat(w)
                        else:
                            self.env[k] = v | w
                del c
            elif isinstance(s, ast.Return) and s.value is not None:
                v = self.ev(s.value)
                self.flow = (self.flow or set()) | self.flat(v)
                if isinstance(v, list):
                    got = [self.flat(x) for x in v]
                    if self.returned is not None and len(self.returned) == len(got):
                        got = [a | b for a, b in zip(self.returned, got)]
                    self.returned = got
                else:
                    self.returned = None
            elif isinstance(s, ast.Expr):
                self.ev(s.value)
            elif isinstance(s, ast.FunctionDef):
                self.env[s.name] = self.free(s)

    def free(self, g):
        """What a local function may read from its surroundings."""
        mine = {a.arg for a in [*g.args.posonlyargs, *g.args.args, *g.args.kwonlyargs]}
        out = set()
        for n in ast.walk(g):
            if isinstance(n, ast.Name) and n.id not in mine:
                out |= self.flat(self.env.get(n.id, set()))
        return out

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.env and isinstance(v, set) and not v:
                return
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, list):
                if len(v) != len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                    self.rep.find("P18.callback", f"{self.f.name}:unpack", self.f.where(t), f"{len(v)} results are unpacked into {len(t.elts)} names")
                for x, y in zip(t.elts, v):
                    for tok, e in self.spec_tokens:
                        if isinstance(y, set) and tok in y and isinstance(x, ast.Name):
                            self.results.append((tok, e, x.id))
                    self.bind(x, y)
            else:
                r = self.f.params[-2].name if len(self.f.params) > 1 else None
                for x in t.elts:
                    if isinstance(x, ast.Name) and (x.id not in self.env or r is None):
                        self.env[x.id] = set(v)

    def flat(self, v):
        if isinstance(v, list):
            out = set()
            for x in v:
                out |= self.flat(x)
            return out
        return set(v)

    def ev(self, e):
        if isinstance(e, ast.Name):
            return self.env.get(e.id, set())
        if isinstance(e, (ast.Tuple, ast.List)):
            out = []
            for x in e.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x)
                if isinstance(x, ast.Starred):
                    if not isinstance(v, list):
                        return self.flat(out) | self.flat(v)
                    out += v
                else:
                    out.append(v)
            return out
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value)
            if isinstance(v, list) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(v) <= e.slice.value < len(v):
                return v[e.slice.value]
            return self.flat(v) | self.flat(self.ev(e.slice))
        if isinstance(e, ast.Lambda):
            return self.free(e)
        if isinstance(e, ast.Attribute):
            # shapes and dtypes carry no value
            if e.attr in ("shape", "dtype", "ndim", "size"):
                return set()
            return self.flat(self.ev(e.value))
        out = set()
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                out |= self.flat(self.ev(x))
        return out

    def call(self, e):
        name = (dotted(e.func) or "").split(".")[-1]
        if name == "pure_callback" and len(e.args) >= 2:
            return self.callback(e)
        if name in ("tuple", "list") and len(e.args) == 1 and not isinstance(e.args[0], ast.GeneratorExp):
            return self.ev(e.args[0])
        if name in ("zeros_like", "ones_like", "ShapeDtypeStruct", "zeros", "ones", "shape", "len"):
            return set()
        if name == "cond" and len(e.args) >= 3:
            out = self.flat(self.ev(e.args[0]))
            for a in e.args[3:]:
                out |= self.flat(self.ev(a))
            return out
        out = set()
        r = self.calls.resolve(self.f, e.func)
        if isinstance(e.func, ast.Name) and e.func.id in self.env:
            out |= self.flat(self.env[e.func.id])
        for a in [*e.args, *[k.value for k in e.keywords]]:
            out |= self.flat(self.ev(a))
        if not isinstance(r, (Func, Class)):
            out |= self.flat(self.ev(e.func))
        return out

    def callback(self, e):
        fn, spec, ops = e.args[0], e.args[1], e.args[2:]
        toks = [self.flat(self.ev(a)) for a in ops]
        star = any(isinstance(a, ast.Starred) for a in ops)
        label = f"{self.f.name}:{e.lineno - self.f.line}"
        g = None
        if isinstance(fn, ast.Lambda):
            g = fn
        elif isinstance(fn, ast.Name):
            g = self.f.locals_funcs.get(fn.id)
            g = g.node if g is not None else None
        allt = set().union(*toks) if toks else set()
        kname = ""
        ret_order = None
        self.rep.ob("P18.callback", label)
        if g is not None and not star:
            ps = [a.arg for a in g.args.args]
            if g.args.vararg is None and len(ps) - len(g.args.defaults) > len(ops) or (g.args.vararg is None and len(ops) > len(ps)):
                self.rep.find("P18.callback", f"{self.f.name}:operands", self.f.where(e), f"the callback takes {len(ps)} operands and is given {len(ops)}")
            else:
                for i, p in enumerate(ps[: len(ops)]):
                    if isinstance(ops[i], ast.Name) and ops[i].id != p and ops[i].id in ps:
                        self.rep.find("P18.callback", f"{self.f.name}:{p}", self.f.where(e), f"operand `{ops[i].id}` of the callback arrives as `{p}`")
                env = {p: toks[i] for i, p in enumerate(ps[: len(ops)])}
                k, kname, ret_order = self.kernels(g, env)
        if isinstance(spec, ast.Name):
            for n in own(self.f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == spec.id for t in n.targets):
                    spec = n.value
        if not isinstance(spec, (ast.Tuple, ast.List)):
            return allt
        out = []
        for j, s in enumerate(spec.elts):
            of = self.shape_of(s)
            t = set(allt)
            if of is None and ret_order is not None and len(ret_order) == len(spec.elts):
                of = ret_order[j]
            elif of is not None and ret_order is not None and len(ret_order) == len(spec.elts) and ret_order[j] is not None and ret_order[j] != of:
                self.rep.find("P18.callback", f"{self.f.name}:{kname}[{j}]", self.f.where(e), f"result {j} of {kname} is the gradient of `{self.names[ret_order[j]]}`, declared with the shape of `{self.names[of]}`")
            if of is not None:
                t.add(("of", of))
            t.add(("res", id(e), j))
            self.spec_tokens.append((("res", id(e), j), e))
            out.append(t)
        if ret_order is not None and len(ret_order) != len(spec.elts):
            self.rep.find("P18.callback", f"{self.f.name}:{kname}", self.f.where(e), f"{kname} returns {len(ret_order)} results, {len(spec.elts)} are declared")
        return out

    def shape_of(self, s):
        """The argument whose shape a result is declared with (the last `.shape` mentioned)."""
        got = []
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute) and n.attr == "shape" and isinstance(n.value, ast.Name):
                for t in self.flat(self.env.get(n.value.id, set())):
                    if isinstance(t, tuple) and t[0] == "arg":
                        got.append(t[1])
        return got[0] if len(set(got)) == 1 else None

    def kernels(self, g, env):
        """Checks the project functions a callback calls; returns the gradient order of the one it returns."""
        body = g.body if isinstance(g, ast.Lambda) else g
        first, order, fname = None, None, ""
        partial_args = {}
        for n in ast.walk(body):
            if not isinstance(n, ast.Call):
                continue
            fexpr = n.func
            pre = 0
            if isinstance(fexpr, ast.Name):
                # a partial or a re-jitted function bound outside the callback
                fname0 = fexpr.id
                for y in own(self.f.node):
                    if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == fname0 for t in y.targets) and isinstance(y.value, ast.Call):
                        d = (dotted(y.value.func) or "").split(".")[-1]
                        if d == "partial" and y.value.args:
                            fexpr = y.value.args[0]
                            pre = len(y.value.args) - 1
                        elif d in ("njit", "jit") and y.value.args:
                            fexpr = y.value.args[0]
                            if isinstance(fexpr, ast.Attribute) and fexpr.attr == "py_func":
                                fexpr = fexpr.value
            r = self.calls.resolve(self.f, fexpr)
            if r is None and isinstance(fexpr, ast.Attribute):
                b = self.calls.resolve(self.f, fexpr.value)
                if hasattr(b, "tree"):
                    self.rep.ob("P18.kernel", f"{self.f.name}:{fexpr.attr}")
                    self.rep.find("P18.kernel", f"{self.f.name}:{fexpr.attr}", self.f.where(n), f"`{ast.unparse(fexpr)}` does not exist")
                continue
            if not isinstance(r, Func):
                continue
            self.rep.ob("P18.kernel", f"{self.f.name}:{r.name}")
            ps = [p for p in r.params]
            pn = [p.name for p in ps]
            if any(isinstance(a, ast.Starred) for a in n.args):
                continue
            given = pre + len(n.args) + len(n.keywords)
            need = sum(1 for p in ps if p.kind == "pos" and p.default is None)
            if given < need or (given > len(ps) and not any(p.kind == "vararg" for p in ps)):
                self.rep.find("P18.kernel", f"{self.f.name}:{r.name}:arity", self.f.where(n), f"{r.name} takes {', '.join(pn)} and is given {given} arguments")
                continue
            lowp = [x.lower() for x in pn]
            for i, a in enumerate(n.args):
                if i + pre >= len(pn):
                    break
                toks = self.leaf(a, env)
                p = lowp[i + pre]
                args = {t[1] for t in toks if isinstance(t, tuple) and t[0] == "arg"}
                if p in self.low and len(args) == 1 and self.low.index(p) not in args:
                    q = self.low[next(iter(args))]
                    if q in lowp:
                        self.rep.find("P18.kernel", f"{self.f.name}:{r.name}({pn[i + pre]})", self.f.where(n), f"{r.name} is given `{self.names[next(iter(args))]}` as `{pn[i + pre]}`")
                outs = {t[1] for t in toks if isinstance(t, tuple) and t[0] == "out" and len(t) == 2}
                if self.outs and len(outs) == 1 and pn[i + pre] in self.outs and self.outs.index(pn[i + pre]) not in outs and max(outs) < len(self.outs):
                    self.rep.find("P18.kernel", f"{self.f.name}:{r.name}({pn[i + pre]})", self.f.where(n), f"{r.name} is given result {next(iter(outs))} of {self.prim.name} (`{self.outs[next(iter(outs))]}`) as `{pn[i + pre]}`")
                # a name that belongs to another parameter of the kernel
                nm = name_of(a)
                if nm is not None and nm.lower() in lowp and lowp.index(nm.lower()) != i + pre and p in [x.lower() for x in (name_of(b) or "" for b in n.args)]:
                    self.rep.find("P18.kernel", f"{self.f.name}:{r.name}({pn[i + pre]})", self.f.where(n), f"{r.name} is given `{nm}` as `{pn[i + pre]}`")
            for k in n.keywords:
                if k.arg is not None and k.arg not in pn and not any(p.kind == "kwarg" for p in ps):
                    self.rep.find("P18.kernel", f"{self.f.name}:{r.name}({k.arg})", self.f.where(n), f"{r.name} has no parameter `{k.arg}`")
            if n is body or (isinstance(body, ast.FunctionDef)):
                order, fname = self.returns(r), r.name
        return first, fname, order

    def leaf(self, a, env):
        out = set()
        for x in ast.walk(a):
            if isinstance(x, ast.Name):
                v = env.get(x.id)
                if v is None:
                    v = self.flat(self.env.get(x.id, set()))
                out |= v
        return out

    def returns(self, r):
        """Which argument each result of a gradient kernel belongs to, read from the returned names."""
        for n in own(r.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple):
                out = []
                for x in n.value.elts:
                    nm = next((y.id for y in ast.walk(x) if isinstance(y, ast.Name)), "").lower()
                    hits = [i for i, a in enumerate(self.low) if nm.endswith(a) and nm != a]
                    hits.sort(key=lambda i: -len(self.low[i]))
                    out.append(hits[0] if hits and ("d" in nm or "grad" in nm) else None)
                if all(x is not None for x in out) and len(set(out)) == len(out):
                    return out
                return [None] * len(n.value.elts)
        return None


def name_of(a):
    while isinstance(a, ast.Call) and len(a.args) == 1:
        a = a.args[0]
    return a.id if isinstance(a, ast.Name) else None
