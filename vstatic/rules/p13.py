"""P13 -- results follow the value of hbar: unit inference over the phase-space code."""

from ..units import ANY, HALF, MIX, D, Units, join_deg, pw, total
from fractions import Fraction

from .common import *

COV = dict(deg=1, shape=(4, 4))
MEANS = dict(deg=HALF, shape=(4,))
NUM = dict(deg=0)
SYMP = dict(deg=0, shape=(4, 4))


class Sig:
    def __init__(self, params, result):
        self.params = {k: D(**v) for k, v in params.items()}
        self.result = result


def res(*degs):
    if len(degs) == 1:
        return D(degs[0])
    return D(items=[D(d) for d in degs])


def block(*rows):
    """An array made of blocks of different scaling, one list of exponents per row of blocks."""
    out = D(MIX)
    out.block = []
    for r in rows:
        b = D(join_deg([Fraction(x) for x in r]))
        b.block = [D(x) for x in r]
        out.block.append(b)
    return out


# Declared scaling of the quantities of the phase-space interface: what they are, not how they are
# computed.  Positions, momenta, means and displacements in phase space scale with hbar^(1/2),
# covariances and noise matrices with hbar, a wave function of one position with hbar^(-1/4), a Wigner
# function of one mode with hbar^(-1); everything in the Fock or Bargmann representation with hbar^0.
TABLE = {
    "gaussian": {
        "number_means": Sig(dict(cov=COV, means=MEANS), res(0)),
        "purity": Sig(dict(cov=COV), res(0)),
        "symplectic_eigenvals": Sig(dict(cov=COV), res(0)),
        "von_neumann_entropy": Sig(dict(cov=COV), res(0)),
        "fidelity": Sig(dict(mu1=MEANS, cov1=COV, mu2=MEANS, cov2=COV), res(0)),
    },
    "husimi": {
        "wigner_to_husimi": Sig(dict(cov=COV, means=MEANS), res(0, 0)),
    },
    "bargmann_utils": {
        "bargmann_Abc_to_phasespace_cov_means": Sig(dict(A=SYMP, b=dict(deg=0, shape=(4,)), c=NUM), res(1, HALF, 0)),
        "wigner_to_bargmann_rho": Sig(dict(cov=COV, means=MEANS), res(0, 0, 0)),
        "wigner_to_bargmann_psi": Sig(dict(cov=COV, means=MEANS), res(0, 0, 0)),
        "au2Symplectic": Sig(dict(A=SYMP), res(0)),
        "symplectic2Au": Sig(dict(S=SYMP), res(0)),
        "XY_of_channel": Sig(dict(A=dict(deg=0, shape=(8, 8))), res(0, 1)),
    },
    "fock_utils": {
        "oscillator_eigenstate": Sig(dict(q=dict(deg=HALF, shape=(7,)), cutoff=NUM), res(Fraction(-1, 4))),
        "quadrature_basis": Sig(dict(fock_array=dict(deg=0, shape=(5,)), quad=dict(deg=HALF, shape=(7, 1)), conjugates=NUM, phi=NUM), None),
        "quadrature_distribution": Sig(dict(state=dict(deg=0, shape=(5,)), quadrature_angle=NUM), D(items=[D(HALF), D(None)])),
        "estimate_dx": Sig(dict(cutoff=NUM, period_resolution=NUM), res(0)),
        "estimate_xmax": Sig(dict(cutoff=NUM, minimum=NUM), res(0)),
        "estimate_quadrature_axis": Sig(dict(cutoff=NUM, minimum=NUM, period_resolution=NUM), res(0)),
    },
    "wigner": {
        "make_grid": Sig(dict(q_vec=dict(deg=HALF), p_vec=dict(deg=HALF), hbar=dict(deg=1)), res(HALF, HALF, 0)),
        "wigner_discretized": Sig(dict(rho=dict(deg=0, shape=(5, 5)), q_vec=dict(deg=HALF), p_vec=dict(deg=HALF)), D(items=[D(-1), D(HALF), D(HALF)])),
    },
    "triples": {
        "quadrature_eigenstates_Abc": Sig(dict(x=dict(deg=HALF, shape=()), phi=dict(deg=0, shape=())), res(0, 0, 0)),
        "gaussian_random_noise_Abc": Sig(dict(Y=COV), res(0, 0, 0)),
        "XY_to_channel_Abc": Sig(dict(X=SYMP, Y=COV, d=MEANS), res(0, 0, 0)),
        "bargmann_to_quadrature_Abc": Sig(dict(n_modes=dict(deg=0, const=2), phi=dict(deg=0, shape=())), D(items=[block([-1, -HALF], [-HALF, 0]), D(ANY), D(Fraction(-1, 2))])),
    },
}

# what methods and attributes of components deliver
METHODS = {
    "bargmann_triple": res(0, 0, 0),
    "fock_array": res(0),
    "auto_shape": res(0),
    "phase_space": res(1, HALF, 0),
}

# parameters of the components, by method and name (any other is of unknown scaling), and what methods deliver
TRIPLE = D(items=[D(1, shape=(4, 4)), D(HALF, shape=(4,)), D(0)])
LAB_PARAMS = {
    ("from_phase_space", "triple"): TRIPLE,
    ("from_XY", "X"): D(**SYMP),
    ("from_XY", "Y"): D(**COV),
    ("from_XY", "d"): D(**MEANS),
    ("visualize_2d", "xbounds"): D(items=[D(HALF), D(HALF)]),
    ("visualize_2d", "pbounds"): D(items=[D(HALF), D(HALF)]),
    ("visualize_3d", "xbounds"): D(items=[D(HALF), D(HALF)]),
    ("visualize_3d", "pbounds"): D(items=[D(HALF), D(HALF)]),
    ("quadrature", "quad"): D(items=[D(HALF), D(HALF)]),
}
LAB_RESULTS = {"XY": res(0, 1), "phase_space": res(1, HALF, 0)}


def check(prog, rep):
    rep.rule("P13.result", "a function of the phase-space interface returns quantities that scale with hbar as declared", 20)
    rep.rule("P13.sum", "only quantities that scale alike with hbar are added, compared or stacked, and functions like exp are applied to numbers that do not scale", 40)
    rep.rule("P13.call", "an argument handed to a function of the interface scales as that argument does", 5)
    rep.rule("P13.free", "a library function outside the interface that reads hbar and is not a helper of it returns something that does not depend on the choice of units", 0)

    sigs = {}
    for mname, funcs in TABLE.items():
        mod = prog.modules.get(f"mrmustard.physics.{mname}")
        if mod is None:
            continue
        for fname, sig in funcs.items():
            g = prog.resolve_name(mod, fname)
            if isinstance(g, Func):
                sigs[g] = sig
    polyexp = prog.maybe_cls("PolyExpAnsatz")

    current = []
    seen = set()

    def report(rule, f, node, msg, key):
        if rule == "sum" and isinstance(node, ast.Compare) and any(isinstance(x, ast.Attribute) and x.attr in ("ATOL",) for x in ast.walk(node)):
            return
        seen.add((rule, id(node)))
        rep.find(f"P13.{rule}", f"{f.short()}:{key}", f.where(node), msg)

    def spec(g):
        if current and g is current[-1]:
            return None
        s = sigs.get(g)
        return s if s is not None and s.result is not None else None

    class Watch(Units):
        def binop(self, op, a, b, node, f):
            v = super().binop(op, a, b, node, f)
            if isinstance(op, (ast.Add, ast.Sub)) and isinstance(total(a), Fraction) and isinstance(total(b), Fraction):
                rep.ob("P13.sum", f"{f.short()}:{getattr(node, 'lineno', 0)}")
            return v

        def call(self, g, args, kws, unknown_args, e, f, closure):
            s = spec(g)
            if s is not None:
                rep.ob("P13.call", f"{f.short()}->{g.name}")
            if g.name == "from_function":
                self.deferred(args, kws, e, f)
            return super().call(g, args, kws, unknown_args, e, f, closure)

        def e_Call(self, e, env, f):
            v = super().e_Call(e, env, f)
            # a function that is handed over with its arguments: PolyExpAnsatz.from_function(fn=g, cov=cov)
            if isinstance(e.func, ast.Attribute) and e.func.attr == "from_function" or isinstance(e.func, ast.Name) and e.func.id == "partial":
                kws = {k.arg: self.ev(k.value, env, f) for k in e.keywords if k.arg is not None}
                self.deferred([self.ev(a, env, f) for a in e.args if not isinstance(a, ast.Starred)], kws, e, f)
            return v

        def deferred(self, args, kws, e, f):
            kws = dict(kws)
            g = kws.pop("fn", args[0] if args else None)
            g = g.fn[1] if g is not None and g.fn is not None and g.fn[0] == "func" else None
            s = spec(g) if g is not None else None
            if s is None or (id(e), g.name) in handed:
                return
            handed.add((id(e), g.name))
            rep.ob("P13.call", f"{f.short()}->{g.name}")
            self.call(g, [], kws, False, e, f, None)

    handed = set()

    def interp():
        return Watch(prog, spec, report, methods=METHODS)

    reach = set()

    def reachable(f):
        if f in reach:
            return
        reach.add(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = prog.resolve_name(f.module, n.id)
                if isinstance(r, Func):
                    reachable(r)
            elif isinstance(n, ast.Attribute):
                r = prog.resolve_expr(f.module, n)
                if isinstance(r, Func):
                    reachable(r)
                elif isinstance(n.value, ast.Name) and n.value.id == "self" and f.cls is not None:
                    m, _ = f.cls.lookup(n.attr)
                    if isinstance(m, Func):
                        reachable(m)

    for g, sig in sigs.items():
        current.append(g)
        it = interp()
        args = {p.name: sig.params[p.name] for p in g.params if p.name in sig.params}
        rets = it.run(g, args)
        current.pop()
        reachable(g)
        verdict(rep, g, rets, sig.result, "P13.result")

    # the change of variables of the ansatz to phase space
    if polyexp is not None:
        m, _ = polyexp.lookup("PS")
        if isinstance(m, Func):
            reachable(m)
            for tag, nd in (("plain", 0), ("derived", 2)):
                selfv = D(rec={
                    "A": D(0, shape=(4, 4)), "b": D(0, shape=(4,)), "c": D(0, shape=()),
                    "num_derived_vars": D(0, const=nd), "_lin_sup": D(0, const=False), "triple": res(0, 0, 0), "batch_shape": D(0, const=()),
                })

                class PS(Watch):
                    def e_Call(self, e, env, f):
                        fv = self.ev(e.func, env, f)
                        if fv.fn is not None and fv.fn[0] == "class" and fv.fn[1] is polyexp:
                            return D(items=[self.ev(a, env, f) for a in e.args[:3]])
                        if nd and fv.fn is not None and fv.fn[0] == "func" and fv.fn[1] is not None and fv.fn[1].module.name.endswith("fock_utils"):
                            return D(0)  # the coefficients, up to the powers of the derived variables
                        return super().e_Call(e, env, f)

                it = PS(prog, spec, report, methods=METHODS)
                rets = it.run(m, {m.params[0].name: selfv})
                per_mode = Fraction(-2) if nd == 0 else Fraction(-1)
                verdict(rep, m, rets, D(items=[D(-1), D(-HALF), D(per_mode)]), "P13.result", tag)

    homodyne(prog, rep, sigs, Watch, spec, report)

    # everything else that reads hbar or calls the interface
    names = {g.name for g in sigs}
    for f in prog.funcs:
        if f in sigs or isinstance(f.node, ast.Lambda) or f.outer is not None or f.module.name.startswith("mrmustard.utils.settings"):
            continue
        src = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)} | {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
        if f.module.name.startswith("mrmustard.lab"):
            src |= {r.name for x in ast.walk(f.node) if isinstance(x, ast.Name) for r in [prog.resolve_name(f.module, x.id)] if isinstance(r, Func)}
        if not ("HBAR" in src or src & names or f.module.name.startswith("mrmustard.lab") and (f.name in LAB_RESULTS or (f.name, "quad") in LAB_PARAMS)):
            continue
        if f in reach:
            continue
        it = interp()
        free = "HBAR" in src and f.module.name.split(".")[1:2] in (["physics"], ["lab"])
        args = {p.name: D() for p in f.params}
        if f.module.name.startswith("mrmustard.lab") and f.cls is not None:
            args.update({p.name: LAB_PARAMS[f.name, p.name] for p in f.params if (f.name, p.name) in LAB_PARAMS})
        if free and f.cls is None:
            args = {p.name: D(0) for p in f.params}
        rets = it.run(f, args)
        if f.module.name.startswith("mrmustard.lab") and f.cls is not None and f.name in LAB_RESULTS:
            verdict(rep, f, [(n, v) for n, v in rets if v.items is not None], LAB_RESULTS[f.name], "P13.result")
            continue
        if free and not f.name.startswith("_"):
            rep.ob("P13.free", f.short())
            for node, v in rets:
                for i, d in enumerate([total(x) for x in v.items] if v.items is not None else [total(v)]):
                    if isinstance(d, Fraction) and d != 0:
                        rep.find("P13.free", f"{f.short()}:{i}", f.where(node), f"the result of {f.short()} scales with {pw(d)}, but is a quantity that does not depend on the units of phase space")


def homodyne(prog, rep, sigs, Watch, spec, report):
    """The distribution of a quadrature of one mode, of kets (wave function squared) and of density matrices."""
    state, sampler = prog.maybe_cls("State"), prog.maybe_cls("Sampler")
    m = state.lookup("quadrature_distribution")[0] if state is not None else None
    want = Fraction(-1, 2)
    if isinstance(m, Func):
        for tag, amp in (("ket", Fraction(-1, 4)), ("dm", want)):
            it = Watch(prog, spec, report, methods={**METHODS, "quadrature": D(amp)})
            selfv = D(rec={"quadrature": D(fn=("meth", "quadrature", D())), "n_modes": D(0, const=1)})
            rets = it.run(m, {m.params[0].name: selfv, **{p.name: D(items=[D(HALF)]) for p in m.params if p.name == "quad"}})
            degs = [(n, total(v)) for n, v in rets]
            if not degs or not all(isinstance(d, Fraction) for _, d in degs):
                rep.skip(f"{m.short()}: the degree cannot be derived")
                continue
            rep.ob("P13.result", f"{m.short()}:{tag}")
            if all(d != want for _, d in degs):
                rep.find("P13.result", f"{m.short()}:{tag}", m.where(degs[0][0]), f"a probability density of one position scales with {pw(want)}; what {m.short()} gives for a {tag} scales with {' or '.join(sorted({pw(d) for _, d in degs}))}")
    if sampler is None:
        return
    check = sampler.lookup("_validate_probs")[0]
    if not isinstance(check, Func) or len(check.params) < 2:
        return
    for c in prog.subclasses(sampler):
        m = c.lookup("probabilities")[0]
        if not isinstance(m, Func) or m.cls is not c or len(m.params) < 2:
            continue
        vd = lambda g: Sig({check.params[1].name: NUM}, res(0)) if g is check else spec(g)
        it = Watch(prog, vd, report, methods={**METHODS, "quadrature_distribution": D(want), "fock_distribution": D(0)})
        self_ = {"meas_outcomes": D(HALF), "_step": D(HALF), "_validate_probs": D(fn=("func", check, None))}
        state_ = {k: D(fn=("meth", k, D())) for k in ("quadrature_distribution", "fock_distribution")}
        state_["modes"] = D(items=[D(0)])
        state_["n_modes"] = D(0, const=1)
        rep.ob("P13.call", f"{m.short()}->{check.name}")
        it.run(m, {m.params[0].name: D(rec=self_), m.params[1].name: D(rec=state_)})


def verdict(rep, g, rets, want, rule, tag=""):
    if want is None:
        return
    wanted = want.items if want.items is not None else [want]
    if not rets:
        rep.skip(f"{g.short()}: no return reached")
        return
    for node, v in rets:
        got = v.items if v.items is not None and want.items is not None else [v]
        if len(got) != len(wanted):
            rep.skip(f"{g.short()}: the returned tuple cannot be split")
            continue
        for i, (a, w) in enumerate(zip(got, wanted)):
            d = total(a)
            label = f"{g.short()}{'[' + str(i) + ']' if len(wanted) > 1 else ''}{':' + tag if tag else ''}"
            if w.block is not None:
                blocks(rep, g, node, a, w, rule, label)
                continue
            if w.deg == MIX or w.deg is None:
                continue
            if isinstance(d, Fraction) and isinstance(w.deg, Fraction):
                rep.ob(rule, label)
                if d != w.deg:
                    rep.find(rule, label, g.where(node), f"result {i} of {g.short()} scales with {pw(d)}, a quantity of its kind with {pw(w.deg)}")
            elif d == ANY:
                rep.ob(rule, label)
            elif isinstance(w.deg, Fraction):
                rep.skip(f"{label}: the degree cannot be derived")


def blocks(rep, g, node, a, w, rule, label):
    if w.block is None:
        d = total(a)
        if not isinstance(d, Fraction):
            rep.skip(f"{label}: the degree of a block cannot be derived")
            return
        rep.ob(rule, label)
        if d != w.deg:
            rep.find(rule, label, g.where(node), f"a block of the result of {g.short()} scales with {pw(d)}, a quantity of its kind with {pw(w.deg)}")
        return
    if a.block is None or len(a.block) != len(w.block):
        rep.skip(f"{label}: the blocks of the result cannot be told apart")
        return
    for i, (x, y) in enumerate(zip(a.block, w.block)):
        blocks(rep, g, node, x, y, rule, f"{label}[{i}]")
