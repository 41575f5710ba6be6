"""P12 -- mode numbers are labels: they name wires and say nothing about positions."""

from ..calls import Calls
from .common import *

L, C, D, P, U, Q, N = "label", "labels", "keyed by labels", "position", "in no order", "keyed by positions", "collections of labels"
# a label, a collection of labels, a mapping whose keys are labels, a position, a set or what was made from one
SCOPE = ("mrmustard.lab", "mrmustard.physics.wires", "mrmustard.physics.mm_einsum", "mrmustard.path")
WRAP = ("set", "list", "tuple", "sorted", "frozenset", "reversed", "iter", "deepcopy", "copy")
SETOPS = ("union", "intersection", "difference", "symmetric_difference", "copy", "keys")
# how labels are written out
TEXT = ("str", "repr", "format", "print", "hash", "isinstance", "len", "type", "id", "bool", "any", "all", "issubset", "issuperset", "isdisjoint", "add", "discard", "remove", "append", "extend", "update", "count", "join", "index", "max", "min")


def check(prog, rep):
    rep.rule("P12.index", "a mode number is never used as an index of an array, of a shape or of a list", 15)
    rep.rule("P12.arith", "a mode number is not computed with, compared with positions or tested for zero", 8)
    rep.rule("P12.numeric", "mode numbers are never handed to numerical code or to parameters that mean positions", 150)
    rep.rule("P12.order", "positions are only matched with mode numbers that are in order", 7)
    rep.rule("P12.relabel", "what is built from a component takes its modes from the component, and components and wires are picked by mode", 60)
    rep.rule("P12.pair", "two lists of positions that are matched with one another follow one order of the labels", 0)
    calls = Calls(prog)
    scope = [f for f in prog.funcs if any(f.module.name == m or f.module.name.startswith(m + ".") for m in SCOPE)]
    params = spread(prog, calls, scope)
    returns = {}
    # what is handed over and handed back
    for _ in range(4):
        before = (dict(params), dict(returns))
        for f in scope:
            if isinstance(f.node, ast.Lambda):
                continue
            t = Labels(prog, calls, f, params, returns, rep)
            t.hand_over()
        if before == (params, returns):
            break
    for f in scope:
        if isinstance(f.node, ast.Lambda):
            continue
        Labels(prog, calls, f, params, returns, rep).judge()
    paired(prog, rep)


def paired(prog, rep):
    """Two lists of positions that are handed over together name the same labels in the same order."""
    for f in prog.funcs:
        if isinstance(f.node, ast.Lambda) or not f.module.name.startswith("mrmustard."):
            continue
        src = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                src.setdefault(n.targets[0].id, []).append(n.value)

        def positions(e, deep=0):
            """(owner of the positions, labels in order, whether the positions are put in another order)"""
            if isinstance(e, ast.Name) and len(src.get(e.id, ())) == 1 and deep < 4:
                return positions(src[e.id][0], deep + 1)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "sorted", "reversed", "set") and e.args:
                q = positions(e.args[0], deep + 1)
                if q is None:
                    return None
                return (q[0], q[1], q[2] or e.func.id in ("sorted", "reversed", "set"))
            if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and len(e.generators) == 1:
                g = e.generators[0]
                if not isinstance(g.target, ast.Name):
                    return None
                for n in ast.walk(e.elt):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "index" and len(n.args) == 1 and isinstance(n.args[0], ast.Name) and n.args[0].id == g.target.id:
                        return (ast.unparse(n.func.value), labels(g), isinstance(e, ast.SetComp))
            return None

        def labels(g):
            it = g.iter
            while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("list", "tuple", "iter") and it.args:
                it = it.args[0]
            return (ast.unparse(it), tuple(ast.unparse(c).replace(g.target.id, "_") for c in g.ifs))

        for c in ast.walk(f.node):
            if not isinstance(c, ast.Call):
                continue
            ps = [q for q in (positions(x) for x in [*c.args, *(k.value for k in c.keywords)]) if q is not None]
            for a, b in zip(ps, ps[1:]):
                if a[0] == b[0]:
                    continue
                rep.ob("P12.pair", f"{f.short()}#{c.lineno}")
                if a[1] != b[1] or a[2] or b[2]:
                    rep.find("P12.pair", f"{f.short()}:{a[0]}:{b[0]}", f.where(c), f"positions in `{a[0]}` and in `{b[0]}` are matched with one another, but were not listed in one order of the labels they belong to")


def named(p):
    """Parameters that hold mode numbers by name."""
    n = p.name
    return n in ("mode", "modes", "new_modes") or n.startswith("modes_") or n.endswith("_modes") and not n.startswith(("n_", "num_", "max_", "m_", "len_"))


def spread(prog, calls, scope):
    """Parameters that are given mode numbers: by name, and by what the calls hand over."""
    out = {}
    for f in scope:
        for p in f.params:
            if named(p):
                a = ast.unparse(p.annotation) if p.annotation is not None else ""
                if "str" in a and "int" not in a:
                    continue
                if a.replace(" ", "").removesuffix("|None") in ("set[int]", "frozenset[int]", "set", "frozenset"):
                    out[f, p.name] = frozenset([C, U])
                    continue
                out[f, p.name] = frozenset([L if p.name.endswith("mode") and "tuple" not in a and "Sequence" not in a and "Collection" not in a else C])
    return out


def exact(p):
    return p.annotation is not None and ast.unparse(p.annotation) == "int"


class Labels:
    """Flow-insensitive: which local names hold mode numbers."""

    def __init__(self, prog, calls, f, params, returns, rep):
        self.prog, self.calls, self.f, self.params, self.returns, self.rep = prog, calls, f, params, returns, rep
        self.env = {}
        for p in f.params:
            if (f, p.name) in params:
                self.env[p.name, None] = set(params[f, p.name])
                if not exact(p) and named(p) and L in self.env[p.name, None]:
                    self.env[p.name, None].add(C)  # ints are wrapped into tuples
        self.nodes = list(own(f.node))
        # names bound by a comprehension or a loop are its own
        self.scope = {}
        comps = [n for n in self.nodes if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.For))]
        for n in sorted(comps, key=lambda n: sum(1 for _ in ast.walk(n)), reverse=True):
            gens = [n] if isinstance(n, ast.For) else n.generators
            names = {x.id for g in gens for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            outer = {id(x) for x in ast.walk(gens[0].iter)}
            if isinstance(n, ast.For):
                outer |= {id(y) for b in n.orelse for y in ast.walk(b)}
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id in names and id(x) not in outer:
                    self.scope[id(x)] = id(n)
        self.parent = None
        self.solve()

    # ---- what an expression holds ------------------------------------------------------------

    def bind(self, t, k):
        """Give the target `t` the kinds `k` (a set, or a tuple of sets for pairs)."""
        if isinstance(t, ast.Name):
            if isinstance(k, tuple):
                return
            self.env.setdefault((t.id, self.scope.get(id(t))), set()).update(k)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(k, tuple) and len(k) == len(t.elts):
                for x, y in zip(t.elts, k):
                    self.bind(x, y)
            elif not isinstance(k, tuple) and C in k:
                for x in t.elts:
                    if isinstance(x, ast.Starred):
                        self.bind(x.value, {C})
                    else:
                        self.bind(x, {L})

    def elem(self, it):
        """Kinds of what iterating over `it` gives; a tuple for pairs."""
        if isinstance(it, ast.Call):
            nm = (dotted(it.func) or getattr(it.func, "attr", "")).split(".")[-1]
            if nm == "enumerate" and it.args:
                return ({P}, self.elem(it.args[0]))
            if nm == "zip":
                return tuple(self.elem(a) for a in it.args)
            if nm == "range":
                # up to the largest label: may be all labels there could be
                return set() if any(self.extreme(a) for a in it.args) or self.empty_range(it) else {P}
            if nm in ("items",) and isinstance(it.func, ast.Attribute) and D in self.kind(it.func.value):
                return ({L}, set())
            if nm in ("product", "combinations", "permutations"):
                return set()
        if isinstance(it, (ast.Tuple, ast.List)) and it.elts and not any(isinstance(x, ast.Starred) for x in it.elts):
            k = [self.kind(x) for x in it.elts]
            if all(C in x for x in k):
                return set().union(*k)
        k = self.kind(it)
        if k == {N}:
            return {C}
        if C in k or D in k:
            return {L}
        return set()

    def kind(self, e):
        if e is None:
            return set()
        if isinstance(e, ast.Name):
            return self.env.get((e.id, self.scope.get(id(e))), set())
        if isinstance(e, ast.NamedExpr):
            return self.kind(e.value)
        if isinstance(e, ast.Attribute):
            if e.attr == "modes" or (e.attr.endswith("_modes") and not e.attr.startswith(("n_", "num_", "_n"))):
                return {C, U} if self.of_wires(e.value) else {C}
            if e.attr == "mode" and not (isinstance(e.value, ast.Name) and e.value.id == "self" and not self.wire_class()):
                return {L}
            if e.attr == "_modes":
                return {C}
            if e.attr == "index":
                return {P}
            return set()
        if isinstance(e, ast.Starred):
            return self.kind(e.value)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            if any(self.kind(x) & {L} or isinstance(x, ast.Starred) and C in self.kind(x.value) for x in e.elts):
                un = any(U in self.kind(x.value) for x in e.elts if isinstance(x, ast.Starred))
                return {C, U} if un or isinstance(e, ast.Set) and len(e.elts) > 1 else {C}
            return set()
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            self.generators(e)
            if C in self.kind(e.elt) and L not in self.kind(e.elt) and not isinstance(e, ast.SetComp):
                return {N}
            if L not in self.kind(e.elt):
                return {U} if U in self.kind(e.generators[0].iter) and not isinstance(e, ast.SetComp) else set()
            return {C, U} if isinstance(e, ast.SetComp) or U in self.kind(e.generators[0].iter) else {C}
        if isinstance(e, ast.DictComp):
            self.generators(e)
            k = self.kind(e.key)
            return {D} if L in k else {Q} if k == {P} else set()
        if isinstance(e, ast.Dict):
            return {D} if any(k is not None and L in self.kind(k) for k in e.keys) else set()
        if isinstance(e, ast.IfExp):
            return self.kind(e.body) | self.kind(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*(self.kind(v) for v in e.values))
        if isinstance(e, ast.BinOp):
            a, b = self.kind(e.left), self.kind(e.right)
            if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and (C in a or C in b):
                return {C, U}
            if isinstance(e.op, ast.Add) and (C in a or C in b):
                return {C} | (a | b) & {U}
            if isinstance(e.op, ast.Mult) and (C in a) != (C in b):
                return {C}
            return set()
        if isinstance(e, ast.Subscript):
            k = self.kind(e.value)
            if C in k:
                return {C} | k & {U} if isinstance(e.slice, ast.Slice) else {L}
            return set()
        if isinstance(e, ast.Call):
            nm = (dotted(e.func) or getattr(e.func, "attr", "")).split(".")[-1]
            if isinstance(e.func, ast.Name):
                if nm in WRAP and e.args:
                    k = self.kind(e.args[0]) & {C, D, U} or ({C} if self.elem(e.args[0]) == {L} else set())
                    if nm == "sorted":
                        return k - {U}
                    one = isinstance(e.args[0], (ast.Tuple, ast.List)) and len(e.args[0].elts) < 2
                    return k | {U} if nm in ("set", "frozenset") and C in k and not one else k
                if nm in ("max", "min", "int", "next") and e.args:
                    k = self.kind(e.args[0])
                    return {L} if k & {C, L} else set()
                if nm == "map" and len(e.args) == 2:
                    return self.kind(e.args[1]) & {U}
                if nm == "filter" and len(e.args) == 2:
                    return self.kind(e.args[1]) & {C, U}
                if nm == "dict" and e.args and isinstance(e.args[0], ast.Call) and self.elem(e.args[0])[:1] == ({L},):
                    return {D}
            elif isinstance(e.func, ast.Attribute):
                k = self.kind(e.func.value)
                if nm in SETOPS and C in k:
                    return {C} | k & {U}
                if nm in ("pop",) and C in k:
                    return {L}
                if nm == "fromkeys" and e.args and C in self.kind(e.args[0]):
                    return {D}
                if nm == "fromkeys" and e.args and self.elem(e.args[0]) == {P}:
                    return {Q}
            r = self.calls.resolve(self.f, e.func)
            return set(self.returns.get(r, ())) if isinstance(r, Func) else set()
        return set()

    def of_wires(self, e, depth=0):
        """Is `e` a Wires object (whose modes are a set)?"""
        if depth > 8:
            return False
        if isinstance(e, ast.Attribute):
            return e.attr in ("wires", "_wires") or e.attr in ("input", "output", "ket", "bra", "quantum", "classical") and self.of_wires(e.value, depth + 1)
        if isinstance(e, ast.Subscript):
            return self.of_wires(e.value, depth + 1)
        if isinstance(e, ast.Name):
            if self.f.cls is not None and self.f.cls.name == "Wires" and self.f.params and e.id == self.f.params[0].name:
                return True
            for p in self.f.params:
                if p.name == e.id:
                    return p.annotation is not None and "Wires" in ast.unparse(p.annotation)
            for n in self.nodes:
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) and n.value is not e:
                    v = n.value
                    if isinstance(v, ast.Name) and v.id == e.id:
                        continue
                    return isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] == "Wires" or isinstance(v, (ast.Attribute, ast.Subscript)) and self.of_wires(v, depth + 1)
        return False

    def hand_over(self):
        """Record what is handed to and back from the functions of the library."""
        for n in self.nodes:
            if isinstance(n, ast.Return) and n.value is not None:
                k = self.kind(n.value)
                if self.both(n.value):
                    k = k - {L}
                if k & {L, C, D}:
                    self.returns[self.f] = self.returns.get(self.f, frozenset()) | k & {L, C, D, U}
            elif isinstance(n, ast.Call):
                g = self.calls.resolve(self.f, n.func)
                if not isinstance(g, Func) or not g.module.name.startswith(SCOPE):
                    continue
                ps = list(g.params)
                if ps and g.kind in ("method", "classmethod", "property", "setter") and isinstance(n.func, ast.Attribute):
                    ps = ps[1:]
                for i, a in enumerate(n.args):
                    if isinstance(a, ast.Starred) or i >= len(ps) or ps[i].kind not in ("pos", "kwonly"):
                        break
                    self.give(g, ps[i], a)
                for kw in n.keywords:
                    for p in ps:
                        if p.name == kw.arg:
                            self.give(g, p, kw.value)

    def give(self, g, p, a):
        k = self.kind(a)
        if self.both(a) or P in k:
            return
        k &= {L, C, D}
        if k and not named(p):
            self.params[g, p.name] = self.params.get((g, p.name), frozenset()) | k

    def both(self, e):
        return {L, C} <= self.kind(e)

    def wire_class(self):
        c = self.f.cls
        return c is not None and c.name.endswith("Wire")

    def generators(self, e):
        for g in e.generators:
            self.bind(g.target, self.elem(g.iter))

    def solve(self):
        for _ in range(6):
            before = {k: set(v) for k, v in self.env.items()}
            for n in self.nodes:
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                            for x, y in zip(t.elts, n.value.elts):
                                self.bind(x, self.kind(y))
                        else:
                            self.bind(t, self.kind(n.value))
                            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and L in self.kind(t.slice):
                                pass
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    self.bind(n.target, self.kind(n.value))
                elif isinstance(n, ast.AugAssign):
                    self.bind(n.target, self.kind(n.value) & {C})
                elif isinstance(n, (ast.For, ast.comprehension)):
                    self.bind(n.target, self.elem(n.iter))
                    if isinstance(n, ast.For) and U in self.kind(n.iter):
                        self.filled(n)
                elif isinstance(n, ast.NamedExpr):
                    self.bind(n.target, self.kind(n.value))
                elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], ast.Name) and self.kind(n.left) == {L}:
                    if not self.kind(n.comparators[0]):
                        self.bind(n.comparators[0], {C})
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("issubset", "issuperset", "isdisjoint") and isinstance(n.func.value, ast.Name) and n.args and C in self.kind(n.args[0]):
                    self.bind(n.func.value, {C})
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "append") and isinstance(n.func.value, ast.Name) and n.args and L in self.kind(n.args[0]):
                    self.bind(n.func.value, {C})
            if before == self.env:
                break

    def filled(self, loop):
        """Lists that a loop over a set fills are in the order of the set."""
        for x in ast.walk(loop):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend") and isinstance(x.func.value, ast.Name):
                self.bind(x.func.value, {U})
            elif isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and isinstance(x.value, (ast.List, ast.Tuple, ast.ListComp)):
                self.bind(x.target, {U})

    def label(self, e):
        k = self.kind(e)
        if C in k and L in k:
            return False  # int or tuple: decided by the function itself
        return L in k and not self.is_position(e)

    def is_position(self, e):
        return P in self.kind(e)

    # ---- what must not be done with it -------------------------------------------------------------

    def keyed(self, e):
        """May `e` be looked up by mode number: a mapping, a component, wires?"""
        k = self.kind(e)
        if D in k:
            return True
        if isinstance(e, (ast.Call, ast.Name, ast.Attribute)) and not self.array_like(e):
            return True
        if isinstance(e, ast.Subscript):
            return self.keyed(e.value)
        return not self.array_like(e)

    def array_like(self, e, depth=0):
        """Known to be an array, a list, a tuple, a string or a shape."""
        if isinstance(e, (ast.List, ast.Tuple, ast.ListComp, ast.JoinedStr)):
            return True
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return True
        if isinstance(e, ast.Attribute):
            return e.attr in ("A", "b", "c", "array", "data", "cov", "means", "shape", "core_shape", "batch_shape", "manual_shape", "sorted_wires", "indices", "ids", "triple", "T", "value", "_A", "_b", "_c", "_array")
        if isinstance(e, ast.BinOp):
            return self.array_like(e.left, depth) or self.array_like(e.right, depth)
        if isinstance(e, ast.Subscript):
            return self.array_like(e.value, depth)
        if isinstance(e, ast.Call):
            d = dotted(e.func) or ""
            nm = d.split(".")[-1] or getattr(e.func, "attr", "")
            if d.startswith(("math.", "np.", "numpy.", "jnp.")):
                return True
            if isinstance(e.func, ast.Name) and nm in ("list", "tuple", "sorted"):
                return True
            return nm in ("fock_array", "auto_shape", "fock_distribution", "quadrature", "reshape", "bargmann_triple", "phase_space", "join")
        if isinstance(e, ast.Name) and depth < 4:
            vals = []
            for n in self.nodes:
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id == e.id:
                            vals.append(n.value)
                        elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Name) and x.id == e.id for x in t.elts):
                            vals.append(n.value)
                elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.target)):
                    return False
            if not vals:
                return False
            return all(not (isinstance(v, ast.Dict) or isinstance(v, ast.DictComp)) and self.array_like(v, depth + 1) for v in vals)
        return False

    def judge(self):
        f, rep = self.f, self.rep
        strs = set()
        for n in self.nodes:
            if isinstance(n, ast.JoinedStr):
                strs |= {id(x) for x in ast.walk(n)}
        any_label = False
        for n in self.nodes:
            if id(n) in strs:
                continue
            if isinstance(n, ast.Return) and n.value is not None and U in self.kind(n.value) and self.sequence(n.value):
                rep.ob("P12.order", f"{f.short()}:{ast.unparse(n)[:50]}")
                rep.find("P12.order", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` gives mode numbers in the order of a set, which is no particular order")
            if isinstance(n, ast.Return) and n.value is not None and f.name.rstrip("s").rstrip("e").endswith(("indic", "index")) and f.name != "_reindex":
                rep.ob("P12.numeric", f"{f.short()}:{ast.unparse(n)[:50]}")
                if {L, C} & self.kind(n.value) or isinstance(n.value, ast.Tuple) and any({L, C} & self.kind(x) for x in n.value.elts):
                    rep.find("P12.numeric", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{f.name}` gives mode numbers for positions: `{ast.unparse(n)}`")
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and self.component(n.value):
                rep.ob("P12.relabel", f"{f.short()}:{ast.unparse(n)[:50]}")
                if self.counted(n.slice) or self.kind(n.slice) == {P}:
                    rep.find("P12.relabel", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` picks by position what is picked by mode number")
            if isinstance(n, ast.Subscript) and self.kind(n.value) & {C, U}:
                rep.ob("P12.order", f"{f.short()}:{ast.unparse(n)[:50]}")
                if U in self.kind(n.value) and isinstance(n.ctx, ast.Load):
                    rep.find("P12.order", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` picks from what is in the order of a set of mode numbers, which is no particular order")
            if isinstance(n, ast.Subscript) and self.has_label(n.slice):
                any_label = True
                rep.ob("P12.index", f"{f.short()}:{ast.unparse(n)[:50]}")
                if not self.keyed(n.value) or isinstance(n.slice, (ast.Slice,)) or isinstance(n.slice, ast.Tuple) and any(isinstance(x, ast.Slice) or isinstance(x, ast.Constant) and x.value is Ellipsis for x in n.slice.elts) or self.kind(n.value) == {Q}:
                    rep.find("P12.index", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` takes the mode number for a position")
            elif isinstance(n, ast.Subscript) and self.kind(n.value) == {D} and self.kind(n.slice) == {P}:
                rep.find("P12.index", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` takes a position for a mode number")
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and any(C in self.kind(x) and self.ranged(y) for x, y in ((n.left, n.right), (n.right, n.left))):
                rep.ob("P12.arith", f"{f.short()}:{ast.unparse(n)[:50]}")
                rep.find("P12.arith", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` combines mode numbers with numbers that were counted up")
            elif isinstance(n, ast.BinOp) and (self.label(n.left) or self.label(n.right)) and not self.string(n):
                if (self.extreme(n.left) or self.extreme(n.right)) and self.counts_labels(n):
                    continue  # a label beyond the others
                rep.ob("P12.arith", f"{f.short()}:{ast.unparse(n)[:50]}")
                rep.find("P12.arith", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` computes with a mode number")
            elif isinstance(n, ast.Compare):
                self.compare(n)
            elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
                for t in tested(n.test):
                    if self.label(t):
                        rep.ob("P12.arith", f"{f.short()}:{ast.unparse(t)[:50]}")
                        rep.find("P12.arith", f"{f.short()}:{ast.unparse(t)[:50]}", f.where(n), f"mode 0 counts as no mode in the test of `{ast.unparse(t)}`")
            elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and self.label(n.values[0]):
                rep.find("P12.arith", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"mode 0 counts as no mode in `{ast.unparse(n)}`")
            elif isinstance(n, ast.Call):
                self.call(n)

    def empty_range(self, r):
        """From beyond the largest of some values to the smallest of them: nothing."""
        if len(r.args) != 2:
            return False

        def bound(e, which):
            if which == "max" and isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and isinstance(e.right, ast.Constant):
                e = e.left
            if isinstance(e, ast.Name):
                vals = [n.value for n in self.nodes if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
                e = vals[0] if len(vals) == 1 else e
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == which and len(e.args) == 1:
                return ast.dump(e.args[0])
            return None

        lo, hi = bound(r.args[0], "max"), bound(r.args[1], "min")
        return lo is not None and lo == hi

    def counts_labels(self, n, depth=0):
        """Is the number only used to count up labels (`range(max(modes) + 1, ...)`)?"""
        if self.parent is None:
            self.parent = {id(c): x for x in ast.walk(self.f.node) for c in ast.iter_child_nodes(x)}
        x = n
        while isinstance(self.parent.get(id(x)), ast.BinOp):
            x = self.parent[id(x)]
        p = self.parent.get(id(x))
        if isinstance(p, ast.Call):
            return isinstance(p.func, ast.Name) and p.func.id == "range" and not self.sized(p)
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and depth < 3:
            uses = [y for y in self.nodes if isinstance(y, ast.Name) and y.id == p.targets[0].id and isinstance(y.ctx, ast.Load)]
            return bool(uses) and all(self.counts_labels(y, depth + 1) for y in uses)
        return False

    def sized(self, r):
        p = self.parent.get(id(r))
        return isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("len", "enumerate")

    def extreme(self, e, depth=0):
        """The largest or smallest label, or what was computed from it."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("max", "min"):
            return any(self.kind(a) & {L, C} or isinstance(a, ast.Starred) for a in e.args)
        if isinstance(e, ast.BinOp):
            return self.extreme(e.left, depth) or self.extreme(e.right, depth)
        if isinstance(e, ast.Name) and depth < 4:
            vals = [n.value for n in self.nodes if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            return bool(vals) and all(self.extreme(v, depth + 1) for v in vals)
        return False

    def sequence(self, e):
        if isinstance(e, (ast.List, ast.Tuple, ast.ListComp)):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            return e.func.id in ("list", "tuple")
        if isinstance(e, ast.IfExp):
            return self.sequence(e.body) or self.sequence(e.orelse)
        if isinstance(e, ast.Name):
            vals = [n.value for n in self.nodes if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            return bool(vals) and not any(isinstance(v, ast.Name) for v in vals) and all(self.sequence(v) for v in vals)
        return False

    def component(self, e, depth=0):
        """Something that is subscripted by mode: wires, or an operand declared as a component."""
        if self.of_wires(e):
            return True
        if isinstance(e, ast.Name):
            states = {c.name for c in self.prog.subclasses(self.prog.cls("State"), strict=False)}
            for i, p in enumerate(self.f.params):
                if p.name == e.id:
                    a = ast.unparse(p.annotation) if p.annotation is not None else ""
                    return a in states or i == 0 and self.f.kind in ("method", "property") and self.f.cls is not None and self.f.cls.name in states
            vals = [n.value for n in self.nodes if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            return depth < 4 and bool(vals) and all(isinstance(v, ast.Call) and self.gives(v, states, depth + 1) for v in vals)
        return False

    def gives(self, v, states, depth):
        r = self.calls.resolve(self.f, v.func)
        if isinstance(r, Class):
            return r.name in states
        if r is None and isinstance(v.func, ast.Attribute) and self.component(v.func.value, depth) and not self.of_wires(v.func.value):
            ms = [m for c in self.prog.subclasses(self.prog.cls("State"), strict=False) for m in [c.members.get(v.func.attr)] if isinstance(m, Func)]
            return bool(ms) and all(getattr(m.node, "returns", None) is not None and ast.unparse(m.node.returns).strip("'\"") in states for m in ms)
        if isinstance(r, Func) and getattr(r.node, "returns", None) is not None:
            return ast.unparse(r.node.returns).strip("'\"") in states
        return False

    def has_label(self, s):
        if isinstance(s, ast.Tuple):
            return any(self.has_label(x) for x in s.elts)
        if isinstance(s, ast.Slice):
            return any(x is not None and self.has_label(x) for x in (s.lower, s.upper, s.step))
        if isinstance(s, ast.BinOp):
            return False  # judged as arithmetic
        return self.label(s) or (C in self.kind(s))

    def string(self, n):
        return any(isinstance(x, ast.JoinedStr) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right))

    def compare(self, n):
        f, rep = self.f, self.rep
        xs = [n.left, *n.comparators]
        for o, a, b in zip(n.ops, xs, xs[1:]):
            if isinstance(o, (ast.In, ast.NotIn)) and self.kind(b) & {C, D} and not self.array_like(b):
                rep.ob("P12.arith", f"{f.short()}:{ast.unparse(n)[:50]}")
                if self.kind(a) == {P}:
                    rep.find("P12.arith", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` looks for a position among mode numbers")
        if not any(self.label(x) for x in xs):
            return
        if all(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
            return
        rep.ob("P12.arith", f"{f.short()}:{ast.unparse(n)[:50]}")
        for o, a, b in zip(n.ops, xs, xs[1:]):
            for x, y in ((a, b), (b, a)):
                if not self.label(x):
                    continue
                number = isinstance(y, ast.Constant) and isinstance(y.value, (int, float)) and not isinstance(y.value, bool)
                length = isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ("len", "range")
                if number or length or P in self.kind(y) and L not in self.kind(y):
                    rep.find("P12.arith", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` compares a mode number with a position")

    def call(self, n):
        f, rep = self.f, self.rep
        d = dotted(n.func) or ""
        nm = d.split(".")[-1] or getattr(n.func, "attr", "")
        if isinstance(n.func, ast.Name) and (nm == "enumerate" and n.args or nm == "zip" and len(n.args) > 1):
            for a in n.args[: 1 if nm == "enumerate" else None]:
                if self.kind(a) & {C, U}:
                    if C not in self.kind(a) and all(U in self.kind(x) for x in n.args):
                        continue  # in the same order
                    rep.ob("P12.order", f"{f.short()}:{ast.unparse(n)[:50]}")
                    if U in self.kind(a):
                        rep.find("P12.order", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` counts through a set of mode numbers, which is in no particular order")
            return
        self.relabel(n)
        if nm == "join" and isinstance(n.func, ast.Attribute) and n.args:
            it = n.args[0].generators[0].iter if isinstance(n.args[0], (ast.ListComp, ast.GeneratorExp)) else n.args[0]
            if self.kind(it) & {C, U}:
                rep.ob("P12.order", f"{f.short()}:{ast.unparse(n)[:50]}")
                if U in self.kind(it):
                    rep.find("P12.order", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` writes out mode numbers in the order of a set, which is no particular order")
        vals = [*n.args, *[k.value for k in n.keywords]]
        if d.startswith(("math.", "np.", "numpy.")) and nm in ("stack", "concat", "concatenate", "hstack", "vstack", "astensor", "array", "asarray", "append", "block_diag"):
            for a in vals:
                if U in self.kind(a) and C not in self.kind(a):
                    rep.ob("P12.order", f"{f.short()}:{ast.unparse(n)[:50]}")
                    rep.find("P12.order", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` puts values in the order of a set of mode numbers, which is no particular order")
        hit = [a for a in vals if self.label(a) or C in self.kind(a) and L not in self.kind(a)]
        if not hit:
            return
        rep.ob("P12.numeric", f"{f.short()}:{ast.unparse(n)[:50]}")
        if isinstance(n.func, ast.Name) and nm == "range" and all(self.extreme(a) for a in n.args):
            return
        if isinstance(n.func, ast.Name) and nm in ("chr", "range", "divmod", "abs", "sum", "pow", "float", "complex", "ord", "slice"):
            rep.find("P12.numeric", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` computes with a mode number")
        elif d.startswith(("math.", "np.", "numpy.")):
            rep.find("P12.numeric", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` hands a mode number to numerical code")
        else:
            r = self.calls.resolve(f, n.func)
            tgt = [r] if isinstance(r, Func) else []
            if not tgt and isinstance(n.func, ast.Attribute) and nm in ("trace", "reorder", "contract", "eval", "partial_eval", "reduce", "decompose_ansatz", "eval_batched"):
                base = ast.unparse(n.func.value)
                if "ansatz" in base.lower():
                    rep.find("P12.numeric", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` hands mode numbers where variables of the ansatz are meant")
            if isinstance(r, Class):
                m = r.lookup("__init__")[0]
                tgt = [m] if isinstance(m, Func) else []
            for g in tgt:
                if g.module.name.startswith(("mrmustard.math", "mrmustard.physics")) and not g.module.name.startswith("mrmustard.physics.wires"):
                    rep.find("P12.numeric", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(n)}` hands a mode number to numerical code")


    def relabel(self, n):
        """Modes given to what a method of a component builds from it."""
        f = self.f
        if f.cls is None or f.kind not in ("method", "property"):
            return
        if f.name == "__init__" and not ((dotted(n.func) or "").split(".")[-1] == "Wires" and any(named(p) for p in f.params)):
            return
        r = self.calls.resolve(f, n.func)
        if r is None and isinstance(n.func, ast.Attribute) and self.component(n.func.value) and not self.of_wires(n.func.value):
            r = self.prog.cls("State").lookup(n.func.attr)[0]
        if isinstance(r, Class):
            r = r.lookup("__init__")[0]
        ps = list(r.params) if isinstance(r, Func) else []
        if ps and isinstance(r, Func) and r.kind in ("method", "classmethod"):
            ps = ps[1:]
        given = [(p, a) for p, a in zip(ps, n.args) if not isinstance(a, ast.Starred)]
        given += [(p, k.value) for k in n.keywords for p in ps if p.name == k.arg]
        for p, a in given:
            if not named(p) or not isinstance(r, Func) or not r.module.name.startswith(("mrmustard.lab", "mrmustard.physics.wires")):
                continue
            self.rep.ob("P12.relabel", f"{f.short()}:{ast.unparse(n)[:50]}")
            if self.counted(a) or self.kind(a) == {P}:
                self.rep.find("P12.relabel", f"{f.short()}:{ast.unparse(n)[:50]}", f.where(n), f"`{ast.unparse(a)}` numbers the modes `{p.name}` of what is built from a component from zero, instead of keeping its modes")

    def ranged(self, a):
        return not isinstance(a, ast.Constant) and self.counted(a) and any(isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] in ("range", "arange") for x in ast.walk(a))

    def counted(self, a, depth=0):
        """Numbers that were counted up, or written down."""
        if isinstance(a, ast.Call):
            nm = (dotted(a.func) or "").split(".")[-1]
            if nm in ("range", "arange"):
                return not any(self.kind(x) & {L, C} for x in a.args)
            if nm in ("list", "tuple", "set", "sorted", "frozenset") and len(a.args) == 1:
                return self.counted(a.args[0], depth)
            return False
        if isinstance(a, ast.IfExp):
            empty = lambda x: isinstance(x, ast.Call) and not x.args and not x.keywords or isinstance(x, (ast.Tuple, ast.List)) and not x.elts
            return self.counted(a.body, depth) and (empty(a.orelse) or self.counted(a.orelse, depth)) or empty(a.body) and self.counted(a.orelse, depth)
        if isinstance(a, ast.Constant):
            return isinstance(a.value, int) and not isinstance(a.value, bool)
        if isinstance(a, (ast.List, ast.Tuple, ast.Set)):
            return bool(a.elts) and all(self.counted(x, depth) for x in a.elts)
        if isinstance(a, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.kind(a.elt) == {P} or isinstance(a.elt, ast.Name) and all(self.counted(g.iter, depth) for g in a.generators)
        if isinstance(a, ast.Name) and depth < 4 and not any(p.name == a.id for p in self.f.params):
            vals = [x.value for x in self.nodes if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in x.targets)]
            return bool(vals) and all(self.counted(v, depth + 1) for v in vals)
        return False


def tested(t):
    if isinstance(t, ast.BoolOp):
        for v in t.values:
            yield from tested(v)
    elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        yield from tested(t.operand)
    else:
        yield t
