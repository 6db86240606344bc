"""C22: the LaTeX of a Discover equation means the equation."""
import triton._C.libtriton  # noqa: F401
import re
from types import SimpleNamespace

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from vlib import discref as R, gens as G, latexeq as X
from vlib.core import check, eq, facet
from vlib.sgaref import quiet

TECHNIQUE = ("property-based testing: random equations over the whole operator library, rendered in both notations and read back with an independent LaTeX reader; "
             "every printed term is evaluated exactly on random concrete fields and compared with coefficient * term")
RULE = "non-trivial: a rendered equation with a derivative or a sum inside a term, whose value was compared at one point at least"

FUNS = ["add", "sub", "mul", "div", "n2", "n3", "n4", "n5", "sin", "cos", "tan", "exp", "log", "sqrt", "neg", "abs", "tanh", "inv", "logabs", "expneg", "sigmoid"]
TORCH = ["add", "sub", "mul", "div", "n2", "n3", "lap", "diff", "diff2", "diff3", "diff4"]       # names with a torch variant
PARAMS = ["nu", "p1", "kappa", "a", "k1", "gamma", "beta", "S", "E0", "c", "D_x", "vel"]


class Reader(X.Reader):
    """Reader for the sympy printer's dialect."""

    FUNCS = {**X.Reader.FUNCS, "\\re": sp.re, "\\modulus": sp.Abs, "\\im": sp.im, "\\sign": sp.sign, "\\arg": sp.arg}

    def prepare(self, s):
        s = s.replace(r"{\left(x_{1},x_{2},x_{3} \right)}", "")
        s = s.replace(r"\left|", r"\modulus(").replace(r"\right|", ")")
        s = s.replace(r"\operatorname{laplacian}", r"\Delta").replace(r"\operatorname{re}", r"\re").replace(r"\operatorname{im}", r"\im")
        s = s.replace(r"\operatorname{sign}", r"\sign").replace(r"\operatorname{atan}_{2}", r"\arctwo")
        if re.search(r"[0-9.]\s+[0-9]", s):
            raise X.ParseError(f"two numbers side by side in {s!r}")
        if re.search(r"_\{[^{}]*\}_|_\w_", s):
            raise X.ParseError(f"double subscript in {s!r}")
        if "\\text" in s:
            raise X.ParseError(f"error text in {s!r}")
        return s

    def atom(self):
        if self.peek() == "\\Delta":
            self.take()
            n = 1
            if self.peek() == "^":
                self.take()
                n = int(self.group_text())
            v = X.Reader.atom(self)
            if not self.laplacian_axes:
                raise X.ParseError("Laplacian without axes")
            return sum(sp.diff(v, self.axes[a], 2) for a in self.laplacian_axes) ** n
        return super().atom()

    def equation(self, s):
        """[(shown coefficient or None, rest)] of the top-level signed terms."""
        self.t, self.i = X.tokenize(self.prepare(s)), 0
        out = []
        while self.peek() is not None:
            sign = 1
            if self.peek() in ("+", "-"):
                sign = -1 if self.take() == "-" else 1
            elif out:
                raise X.ParseError(f"left over {self.t[self.i:]} in {s!r}")
            c = None
            if re.fullmatch(r"\d+\.\d{4}", self.peek() or ""):
                c = float(self.take())
            rest = sp.Integer(1) if self.peek() in ("+", "-", None) and c is not None else self.mul()
            out.append((sign, c, rest))
        return out


def meaning(t, env, axes, lap, at):
    """The term over concrete functions; `at` collects every intermediate expression."""
    n = t[0]
    if n in R.DIFFS:
        k = {"diff": 1, "diff2": 2, "diff3": 3, "diff4": 4, "Diff": 1, "Diff2": 2, "Diff_3": 1, "Diff2_3": 2}[n]
        v = sp.diff(meaning(t[1], env, axes, lap, at), axes[t[2][0]], k)
    elif n in ("lap", "lap_3"):
        a = meaning(t[1], env, axes, lap, at)
        v = sum(sp.diff(a, axes[x], 2) for x in lap)
    elif len(t) == 1:
        v = env[n] if n in env else sp.Rational(n)
    else:
        a = [meaning(c, env, axes, lap, at) for c in t[1:]]
        v = {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1], "div": lambda: a[0] / a[1],
             "n2": lambda: a[0] ** 2, "n3": lambda: a[0] ** 3, "n4": lambda: a[0] ** 4, "n5": lambda: a[0] ** 5, "sin": lambda: sp.sin(a[0]),
             "cos": lambda: sp.cos(a[0]), "tan": lambda: sp.tan(a[0]), "exp": lambda: sp.exp(a[0]), "log": lambda: sp.log(a[0]),
             "sqrt": lambda: sp.sqrt(a[0]), "neg": lambda: -a[0], "abs": lambda: sp.Abs(a[0]), "tanh": lambda: sp.tanh(a[0]), "inv": lambda: 1 / a[0],
             "logabs": lambda: sp.log(sp.Abs(a[0])), "expneg": lambda: sp.exp(-a[0]), "sigmoid": lambda: 1 / (1 + sp.exp(-a[0]))}[n]()
    at.append(v)
    return v


coefs = st.one_of(st.sampled_from([1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 1 / 3, 0.1, -0.25, 1.00002, 6.0, -1 / 6, 100.0]),
                  st.integers(1, 2 * 10 ** 6).map(lambda n: n / 1e5), st.integers(1, 2 * 10 ** 6).map(lambda n: -n / 1e5))


@st.composite
def equations(draw):
    d = draw(st.sampled_from([1, 1, 1, 2, 3]))
    fs = draw(st.permutations(FUNS))[:draw(st.integers(1, 5))]
    fs += ["mul"] * (draw(st.booleans()) and "mul" not in fs)
    diffs = R.diffs_of(d)
    fs += draw(st.permutations(diffs))[:draw(st.integers(0, 3))]
    if draw(st.sampled_from([True, False])):
        fs += [diffs[0]] * (diffs[0] not in fs)
    if draw(st.sampled_from([True, False, False, False])):          # powers and signs around every kind of operand
        fs = draw(st.permutations(["sigmoid", "add", "sub", "neg", "div", "inv", "expneg", "mul"]))[:2] + draw(st.permutations(["n4", "n3", "n2", "n5", "sub", "expneg", "inv", "neg", "div", "sqrt"]))[:2]
        fs = list(dict.fromkeys(fs))
    k = draw(st.integers(1, 4))
    return {"dim": d, "params": draw(st.permutations(PARAMS))[:draw(st.sampled_from([0, 0, 1, 2]))], "functions": fs,
            "numbers": draw(st.lists(st.sampled_from(["1.0", "2.0", "0.5", "3.0"]), max_size=1)),
            "terms": draw(st.lists(st.lists(st.integers(0, 9999), min_size=1, max_size=6), min_size=k, max_size=k)),
            "w": draw(st.lists(coefs, min_size=k, max_size=k)), "const": draw(st.sampled_from([None, None, None, 1.0, -2.5, 0.25])),
            "notation": draw(st.sampled_from(["subscript", "subscript", "leibniz"])), "expand": draw(st.sampled_from([True, True, False])),
            "lhs": draw(st.sampled_from([None, None, "t", "x", "y"])), "axes": draw(st.sampled_from([None, None, ["y", "z", "x"], ["x", "y", "z"], ["t", "x", "y"]])),
            "torch": draw(st.sampled_from([False, False, False, True])), "seed": draw(G.seeds)}


def nodes(c):
    names = [f"x{i + 1}" for i in range(c["dim"])] + ["u1"] + list(c["params"]) + list(c["numbers"]) + list(c["functions"])
    leaf = [i for i, n in enumerate(names) if n == "u1" or n in c["params"]]
    return [R.tree([names[i] for i in R.decode(nums, names, max_len=11, leaf=leaf)]) for nums in c["terms"]]


def node(t, torch=False):
    from kd.model.discover.stridge import Node
    n = Node(SimpleNamespace(name=t[0] + ("_t" if torch and t[0] in TORCH else ""), arity=len(t) - 1))
    n.children = [node(k, torch) for k in t[1:]]
    return n


def compare(tex, terms, w, const, c, ctx):
    """The printed equation against coefficients and terms."""
    d = c["dim"]
    ax = {f"x{i + 1}": sp.Symbol(f"c{i + 1}", real=True) for i in range(d)}
    fields = X.poly_fields(["u1"] + list(c["params"]), ax, c["seed"], deg=2)
    if c["seed"] % 3:                       # positive fields keep logarithms and roots real
        fields = {k: v ** 2 / 50 + sp.Rational(1, 2) for k, v in fields.items()} if d == 1 else {k: v + 3 for k, v in fields.items()}
    env = {**fields, **ax}
    shown = list(c["axes"] or ["x", "y", "z"])[:d]
    if c["notation"] == "leibniz":
        renv, raxes = dict(env), dict(ax)
    else:
        renv = {**{k: v for k, v in fields.items() if k != "u1"}, "u": fields["u1"], **{a: ax[f"x{i + 1}"] for i, a in enumerate(shown)}}
        raxes = {a: ax[f"x{i + 1}"] for i, a in enumerate(shown)}
    rd = Reader(renv, raxes)
    rd.laplacian_axes = list(raxes)
    what = f"{' , '.join(f'{v} {R.text(t)}' for v, t in zip(w, terms))}{'' if const is None else f' , {const}'} [{c['notation']}]: {tex}"
    m = re.fullmatch(r"\$u_(\{\w+\}|t) = (.*)\$", tex, re.S)
    check(m, f"{what}: not an equation for u_t")
    eq(m.group(1).strip("{}"), c["lhs"] or "t", f"{what}: left-hand side")
    try:
        got = rd.equation(m.group(2))
    except X.ParseError as e:
        check(False, f"{what}: {e}", sig="unreadable")
    eq(len(got), len(terms) + (const is not None), f"{what}: number of terms")
    pts = X.points(ax, c["seed"], 2)
    n = 0
    if const is not None:
        s, k, rest = got[-1]
        v = s * (1.0 if k is None else k) * float(rest)
        check(abs(v - const) < 6e-5, f"{what}: constant {v}")
    for (s, k, rest), v, t in zip(got, w, terms):
        sub = []
        try:
            val = meaning(t, env, ax, list(ax), sub)
        except (ZeroDivisionError, ValueError, TypeError):
            continue
        for p in pts:
            inner = []
            for e in sub:                   # inside out: a huge intermediate value ends the evaluation
                q = X.number(e, p)
                inner.append(q)
                if q is None or abs(q.imag) > 1e-9 * (1 + abs(q)) or abs(q) > 1e12:
                    break
            if len(inner) < len(sub) or inner[-1] is None or abs(inner[-1].imag) > 1e-9 * (1 + abs(inner[-1])) or abs(inner[-1]) > 1e12:
                ctx.label("undefined at a point")
                continue
            want = inner[-1].real
            r = X.number(rest, p)
            check(r is not None, f"{what}: term {R.text(t)} reads back as {rest}")
            have = s * (1.0 if k is None else k) * r.real
            tol = 5.1e-5 * abs(r) + (2e-5 * abs(v * want) if k is None else 0) + 1e-9 * (abs(v * want) + 1e-6) + 1e-12 * max(abs(q) for q in inner)
            check(abs(have - v * want) <= tol, f"{what}: term {R.text(t)} reads {have}, expected {v * want}", sig="meaning")
            n += 1
    return n


def walk(t):
    yield t
    for k in t[1:]:
        yield from walk(k)


def heavy(t, outer=0):
    """Derivative order along the deepest path: keeps the exact reference affordable."""
    o = {"diff": 1, "diff2": 2, "diff3": 3, "diff4": 4, "Diff": 1, "Diff2": 2, "Diff_3": 1, "Diff2_3": 2, "lap": 2, "lap_3": 2}.get(t[0], 0) + outer
    return max([o] + [heavy(k, o) for k in t[1:]])


@facet(equations(), quick=260, thorough=4000, shards=4, case_s=60)
def rendering(case, ctx):
    """Trees of the operator library, arbitrary coefficients."""
    from kd.viz.discover_eq2latex import discover_program_to_latex
    c = case
    terms = nodes(c)
    if any(heavy(t) > 4 or (heavy(t) > 2 and sum(len(x) > 1 for x in walk(t)) > 4) for t in terms):
        ctx.label("too heavy")
        terms = [t for t in terms if heavy(t) <= 2] or [("u1",)]
    w = c["w"][:len(terms)]
    prog = SimpleNamespace(w=w + ([] if c["const"] is None else [c["const"]]), STRidge=SimpleNamespace(terms=[node(t, c["torch"]) for t in terms]))
    kw = {} if c["axes"] is None else {"axis_names": c["axes"][:c["dim"]]}
    bad = any(singular(t, c) for t in terms)
    if bad:
        ctx.label("singular")
        return
    tex = discover_program_to_latex(prog, notation=c["notation"], expand_derivatives=c["expand"], lhs_axis=c["lhs"], **kw)
    n = compare(tex, terms, w, c["const"], c, ctx)
    eq(discover_program_to_latex(prog, notation=c["notation"], expand_derivatives=c["expand"], lhs_axis=c["lhs"], **kw), tex, "rendered a second time")
    kinds = {x[0] for t in terms for x in walk(t)}
    ctx.label("derivative", bool(kinds & R.DIFFS)); ctx.label("laplacian", bool(kinds & {"lap", "lap_3"})); ctx.label("parameter", bool(kinds & set(c["params"])))
    ctx.label(c["notation"]); ctx.label("expanded", c["expand"])
    ctx.nontrivial(n > 0 and bool(kinds & (R.DIFFS | {"lap", "lap_3", "add", "sub"})))


def singular(t, c):
    """A division by something that is zero everywhere: no equation to print."""
    ax = {f"x{i + 1}": sp.Symbol(f"x{i + 1}") for i in range(c["dim"])}
    env = {**ax, **{n: sp.Function(n)(*ax.values()) for n in ["u1"] + list(c["params"])}}
    try:
        sub = []
        meaning(t, env, ax, list(ax), sub)
    except (ZeroDivisionError, ValueError, TypeError, RecursionError):
        return True
    return any(e.has(sp.zoo, sp.nan, sp.oo) for e in sub)


@st.composite
def fits(draw):
    d = draw(st.sampled_from([0, 2, 3]))                      # 0: legacy x/t data
    axes = draw(st.permutations({2: ["x", "y", "t"], 3: ["x", "y", "z", "t"], 0: ["x", "t"]}[d]))
    return {"d": d, "axes": axes, "lhs": "t" if d == 0 else draw(st.sampled_from(axes)), "seed": draw(G.seeds), "const": draw(st.sampled_from([False, False, True])),
            "notation": draw(st.sampled_from(["subscript", "subscript", "leibniz"])),
            "terms": draw(st.lists(st.lists(st.integers(0, 9999), min_size=1, max_size=5), min_size=1, max_size=4)), "model": draw(st.sampled_from(["best_p", "searcher"]))}


@facet(fits(), quick=40, thorough=900, shards=2, case_s=60)
def plots(case, ctx):
    """Equations fitted to a dataset, through the equation plot of the model: axes and coefficients are those of the dataset and the fit."""
    import kd.viz as viz
    from kd.dataset import PDEDataset
    from kd.model.discover.adapter import DiscoverRegularAdapter
    from kd.model.discover.program import Program, from_tokens
    from kd.model.discover.task.task import set_task
    from kd.model.kd_discover import KD_Discover
    c = case
    r = np.random.RandomState(c["seed"])
    axes, lhs = c["axes"], c["lhs"]
    co = {a: np.linspace(0, 1 + k, 6 + k) for k, a in enumerate(axes)}
    mesh = np.meshgrid(*[co[a] for a in axes], indexing="ij")
    u = 1.5 + sum(r.uniform(-1, 1) * np.sin((k + 1) * m + r.uniform(0, 3)) for k, m in enumerate(mesh)) + 0.3 * np.cos(sum(mesh))
    if c["d"] == 0:
        ds = PDEDataset("e", x=co["x"], t=co["t"], usol=u if axes[0] == "x" else u.T)
    else:
        ds = PDEDataset("e", x=None, t=None, usol=None, fields_data={"u": u}, coords_1d=co, axis_order=list(axes), target_field="u", lhs_axis=lhs)
    spatial = ["x"] if c["d"] == 0 else [a for a in axes if a != lhs]
    with quiet():
        data = DiscoverRegularAdapter(ds).get_data()
    d = data.get("n_input_dim", 1)
    fs = ["add", "sub", "mul", "n2", "sin"] + {1: ["diff", "diff2"], 2: ["Diff", "Diff2", "lap"], 3: ["Diff_3", "Diff2_3", "lap_3"]}[d]
    names = [f"x{i + 1}" for i in range(d)] + ["u1"] + fs
    body = [n for n in names if n not in R.ADDITIVE]
    terms = [R.tree([body[i] for i in R.decode(nums, body, max_len=9, leaf=[body.index("u1")])]) for nums in c["terms"]]
    terms = [t for t in terms if "u1" in R.prefix(t) and heavy(t) <= 4] or [("u1",)]
    t = terms[0]
    for k, q in enumerate(terms[1:]):
        t = ("add" if k % 2 else "sub", t, q)
    Program.clear_cache(); Program.set_n_objects(1); Program.set_default_terms([]); Program.set_complexity("length"); Program.set_const_optimizer("dummy")
    with quiet():
        set_task(dict(task_type="pde", function_set=fs, dataset="x", metric="pde_reward", metric_params=[0.01], threshold=1e-6, data_noise_level=0, cut_ratio=0.03,
                      add_const=c["const"], spatial_error=False, max_depth=5, protected=False), data)
        lib = [k.name for k in Program.task.library.tokens]
        p = from_tokens(np.array([lib.index(n) for n in R.prefix(t)], dtype=np.int32))
        p.r_ridge
    if p.invalid:
        ctx.label("invalid")
        return
    m = object.__new__(KD_Discover)
    m.dataset_ = ds
    if c["model"] == "best_p":
        m.best_p = [p]
    else:
        m.searcher = SimpleNamespace(best_p=p)
    with quiet():
        res = viz.render_equation(m, notation=c["notation"], output_dir="out")
    eq(res.warnings, [], "warnings")
    check(len(res.paths) == 1 and res.paths[0].exists() and res.paths[0].stat().st_size > 500, f"no picture of {res.metadata.get('latex')}")
    res.paths[0].unlink()
    w = [float(v) for v in p.w]
    order = [R.text(q) for q in terms]
    eq([repr(q) for q in p.STRidge.terms], order, "terms of the fit")
    plain = p.str_expression.split(" + ")
    eq(len(plain), len(w), f"number of terms of {p.str_expression!r}")
    for k, (piece, v) in enumerate(zip(plain, w)):
        number, _, body = piece.partition(" * ")
        check(abs(float(number) - v) < 5.1e-5 * (1 + 1e-6 * abs(v)), f"coefficient {k} of {p.str_expression!r} is {v}")
        eq(body.strip(), order[k] if k < len(order) else "", f"term {k} of {p.str_expression!r}")
    n = compare(res.metadata["latex"], terms, w[:len(terms)], w[-1] if len(w) > len(terms) else None,
                {"dim": d, "params": [], "axes": spatial, "notation": c["notation"], "lhs": lhs, "seed": c["seed"]}, ctx)
    ctx.nontrivial(n > 0); ctx.label("constant term", len(w) > len(terms)); ctx.label(f"{d}-D"); ctx.label(f"left-hand side {lhs}"); ctx.label(c["notation"])
