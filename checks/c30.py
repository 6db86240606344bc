"""C30: the symbolic-regression wrapper against a recording stand-in for its backend."""
import triton._C.libtriton  # noqa: F401
import copy
import os
import sys
import types

import numpy as np
from hypothesis import strategies as st

from vlib import gens as G
from vlib.core import Frozen, arr_eq, check, close, eq, facet, raises
from vlib.plots import recording

TECHNIQUE = ("property-based testing against a recording stand-in backend: generated inputs, options, backend variants (API versions, failing or odd answers) and operation histories; "
             "every call the backend received, every answer the caller got and every number drawn is compared with an explicit model")
RULE = "non-trivial: at least one completed fit with two or more samples (histories: also an operation after it)"
ASSUMPTIONS = ["the real backend (Julia) is absent here, so the check covers the wrapper's side of the interface only"]

ALL_OPS = ["+", "-", "*", "/", "^", "sin", "exp", "square"]


class Boom(Exception):
    pass


def backend(c, log):
    """A stand-in PySRRegressor class whose answers are fixed by the case."""
    class Reg:
        def __init__(self, **kw):
            self.kw, self.fits, self.n = kw, [], len(log)
            log.append(self)
            if c.get("ctor_fails"):
                raise Boom("ctor")

        def fit(self, *a, **k):
            self.fits.append((a, k))
            if c.get("fit_fails"):
                raise Boom("fit")
            return self

        def predict(self, *a, **k):
            self.asked = (a, k)
            X = np.asarray(a[0], dtype=float)
            self.answer = [np.sum(X * (self.n + 2.5), axis=1), np.sum(X, axis=1)[:, None], np.asarray(np.sum(X, axis=1), dtype=np.float32)][c["pred"]]
            return self.answer

        def __str__(self):
            return f"Reg{self.n}"
    tag = c["eqs"]
    if tag != "none":
        def get_best(self):
            if tag == "raise":
                raise Boom("best")
            if tag == "dict":
                return {"equation": f"x0 + {self.n}", "loss": 0.1}
            if tag == "num":
                return {"equation": 3.5}
            if tag == "nokey":
                return {"loss": 1.0}
            return f"row{self.n}"
        Reg.get_best = get_best
    if c["sym"] != "none":
        def sympy(self):
            import sympy as sp
            if c["sym"] == "raise":
                raise Boom("sympy")
            a, b = sp.symbols("x0 x1")
            return [a ** 2 + b / 2, sp.sin(a) * (self.n + 1), sp.Float(0.25) * a - b, sp.Integer(0)][c["sx"]]
        Reg.sympy = sympy
    if c["lat"] != "none":
        def latex(self):
            if c["lat"] == "raise":
                raise Boom("latex")
            return {"ok": rf"x_{{0}} + {self.n}", "blank": "  ", "obj": ["x"], "nil": None}[c["lat"]]
        Reg.latex = latex
    return Reg


variants = st.fixed_dictionaries({"eqs": st.sampled_from(["dict", "dict", "num", "nokey", "odd", "raise", "none"]), "sym": st.sampled_from(["ok", "ok", "raise", "none"]), "sx": st.integers(0, 3),
                                  "lat": st.sampled_from(["none", "ok", "raise", "blank", "obj", "nil"]), "pred": st.integers(0, 2)})


class installed:
    """Installs the stand-in as `pysr` and forgets any backend remembered from before."""

    def __init__(self, c, log, absent=None):
        self.cls, self.absent = backend(c, log), absent

    def __enter__(self):
        from kd.model import kd_pysr
        self.mod, self.old, self.env = kd_pysr, sys.modules.get("pysr", self), os.environ.get("PYTHON_JULIACALL_HANDLE_SIGNALS")
        kd_pysr._PySRRegressor = None
        if self.absent == "missing":
            sys.modules["pysr"] = None
        elif self.absent == "nameless":
            sys.modules["pysr"] = types.ModuleType("pysr")
        else:
            m = types.ModuleType("pysr")
            m.PySRRegressor = self.cls
            sys.modules["pysr"] = m
        return kd_pysr

    def __exit__(self, *a):
        self.mod._PySRRegressor = None
        if self.old is self:
            sys.modules.pop("pysr", None)
        else:
            sys.modules["pysr"] = self.old
        if self.env is None:
            os.environ.pop("PYTHON_JULIACALL_HANDLE_SIGNALS", None)
        else:
            os.environ["PYTHON_JULIACALL_HANDLE_SIGNALS"] = self.env


@st.composite
def data_cases(draw):
    return {"n": draw(st.integers(1, 12)), "m": draw(st.integers(1, 4)), "kind": draw(st.sampled_from(["f8", "f4", "i8", "list", "fortran", "strided", "ro", "bool"])),
            "y": draw(st.sampled_from(["flat", "flat", "col", "list", "row"])), "v": draw(st.sampled_from(["unit", "wide"])), "seed": draw(G.seeds)}


def arrays(d, n=None):
    n = n or d["n"]
    rng = np.random.default_rng(d["seed"])
    X, y = rng.normal(size=(n, d["m"])), rng.normal(size=n)
    if d["v"] == "wide":
        X, y = X * 10.0 ** rng.integers(-8, 9, size=X.shape), y * 1e5
    k = d["kind"]
    if k == "f4":
        X, y = X.astype(np.float32), y.astype(np.float32)
    if k == "i8":
        X, y = rng.integers(-9, 9, size=X.shape), rng.integers(-9, 9, size=n)
    if k == "bool":
        X = X > 0
    if k == "fortran":
        X = np.asfortranarray(X)
    if k == "strided":
        X = np.repeat(X, 2, axis=0)[::2]
    if k == "ro":
        X.setflags(write=False)
        y.setflags(write=False)
    if d["y"] == "col":
        y = y[:, None]
    if d["y"] == "row":
        y = y[None, :]
    if k == "list":
        X = X.tolist()
    if d["y"] == "list":
        y = y.tolist()
    return X, y


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape and a.dtype == b.dtype and bool(np.all((a == b) | ((a != a) & (b != b)))), f"{what} changed on the way", got=a.tolist(), want=b.tolist())


def expected_text(c, n):
    return {"dict": f"x0 + {n}", "num": "3.5", "nokey": str({"loss": 1.0}), "odd": f"row{n}", "raise": f"Reg{n}", "none": f"Reg{n}"}[c["eqs"]]


def expected_latex(c, n, lhs):
    import sympy as sp
    if c["lat"] == "ok":
        return rf"x_{{0}} + {n}"
    if c["sym"] == "ok":
        a, b = sp.symbols("x0 x1")
        return f"{lhs} = " + sp.latex([a ** 2 + b / 2, sp.sin(a) * (n + 1), sp.Float(0.25) * a - b, sp.Integer(0)][c["sx"]])
    return expected_text(c, n)


def check_fit(c, reg, X, y):
    check(len(reg.fits) == 1, "the backend was not fitted exactly once", times=len(reg.fits))
    a, k = reg.fits[0]
    got = dict(zip(("X", "y"), a), **k)
    check(set(got) == {"X", "y"} and len(a) <= 2, "the backend's fit received something other than inputs and targets", args=len(a), kw=sorted(k))
    gx, gy = got["X"], got["y"]
    same(gx, X, "input matrix")
    same(gy, np.asarray(y).reshape(-1), "target vector")


@st.composite
def fit_cases(draw):
    return {"b": draw(variants), "d": draw(data_cases()), "it": draw(st.one_of(st.none(), st.integers(0, 5000))),
            "bin": draw(st.one_of(st.none(), st.lists(st.sampled_from(ALL_OPS), max_size=4))), "un": draw(st.one_of(st.none(), st.lists(st.sampled_from(ALL_OPS), max_size=4))),
            "tup": draw(st.booleans()),
            "extra": draw(st.one_of(st.none(), st.dictionaries(st.sampled_from(["progress", "maxsize", "parsimony", "niterations", "binary_operators", "variable_names"]), st.sampled_from([False, 20, 0.5, 7]), max_size=3))),
            "lhs": draw(st.sampled_from(["y", "u_t", r"\dot{x}"]))}


@facet(fit_cases(), quick=500, thorough=8000)
def passes_through(c, ctx):
    log = []
    X, y = arrays(c["d"])
    kw = {}
    if c["it"] is not None:
        kw["niterations"] = c["it"]
    if c["bin"] is not None:
        kw["binary_operators"] = tuple(c["bin"]) if c["tup"] else list(c["bin"])
    if c["un"] is not None:
        kw["unary_operators"] = list(c["un"])
    if c["extra"] is not None:
        kw["extra_model_kwargs"] = dict(c["extra"])
    fz = Frozen(X=X, y=y, kw=kw)
    with installed(c["b"], log) as mod:
        m = mod.KD_PySR(**kw)
        check(not log, "the backend was created before fitting")
        r = m.fit(X, y)
        check(r is m, "fit does not return the estimator")
        check(len(log) == 1, "one fit created several backends", n=len(log))
        want = {"niterations": c["it"] if c["it"] is not None else 1000}
        if c["bin"] is not None:
            want["binary_operators"] = list(c["bin"])
        if c["un"] is not None:
            want["unary_operators"] = list(c["un"])
        want.update(c["extra"] or {})
        check(log[0].kw == want, "the backend received other options than the caller gave", got=log[0].kw, want=want)
        check_fit(c, log[0], X, y)
        eq(m.best_equation_, expected_text(c["b"], 0), "best equation")
        eq(m.equation_latex(c["lhs"]), expected_latex(c["b"], 0, c["lhs"]), "LaTeX")
        eq(m.equation_latex(), expected_latex(c["b"], 0, "y"), "LaTeX with the default left-hand side")
        Q, _ = arrays({**c["d"], "seed": c["d"]["seed"] ^ 5}, n=c["d"]["n"] + 1)
        p = m.predict(Q)
        a, k = log[0].asked
        check(len(a) == 1 and not k, "predict passes something other than the inputs on")
        same(a[0], Q, "query")
        same(p, log[0].answer, "prediction")
        same(m.X_train_, X, "remembered inputs")
        same(m.y_train_, np.asarray(y).reshape(-1), "remembered targets")
    fz.verify("fitting")
    ctx.nontrivial(c["d"]["n"] >= 2)
    ctx.label("kwargs overridden", bool(c["extra"]) and "niterations" in c["extra"])
    ctx.label(f"latex:{c['b']['lat']}/{c['b']['sym']}")


@st.composite
def bad_cases(draw):
    bad = draw(st.sampled_from(["count", "count", "x1d", "x3d", "x0d", "ywide", "ywide2", "yempty"]))
    return {"b": draw(variants), "d": draw(data_cases()), "bad": bad, "off": draw(st.integers(1, 3)), "after": draw(st.booleans())}


def spoil(c):
    d = {**c["d"], "n": max(c["d"]["n"], 4)}
    X, y = arrays(d)
    n, m = np.asarray(X).shape
    if c["bad"] == "count":
        y = np.zeros(n + (c["off"] if c["d"]["seed"] % 2 else -c["off"]))
    if c["bad"] == "x1d":
        X = np.asarray(X)[:, 0]
    if c["bad"] == "x3d":
        X = np.asarray(X)[:, :, None]
    if c["bad"] == "x0d":
        X, y = 3.0, [1.0]
    if c["bad"] == "ywide":
        y = np.zeros((n, 2))
    if c["bad"] == "ywide2":                       # as many numbers as samples, but not one per sample
        X, y = np.zeros((2 * (n // 2), m)), np.zeros((n // 2, 2))
    if c["bad"] == "yempty":
        y = []
    return X, y


@facet(bad_cases(), quick=300, thorough=4000)
def rejects_before_backend(c, ctx):
    log = []
    with installed(c["b"], log) as mod:
        m = mod.KD_PySR()
        if c["after"]:
            X, y = arrays(c["d"])
            m.fit(X, y)
        n = len(log)
        Xb, yb = spoil(c)
        raises(ValueError, lambda: m.fit(Xb, yb), "inconsistent input accepted")
        check(sum(len(r.fits) for r in log) == n, "the backend was asked to fit inconsistent input")
        if c["after"]:
            eq(m.best_equation_, expected_text(c["b"], 0), "equation after a rejected fit")
            same(m.X_train_, X, "remembered inputs")
            same(m.predict(X), log[0].answer, "prediction after a rejected fit")
        else:
            raises(RuntimeError, lambda: m.predict([[1.0]]), "prediction before fitting")
            raises(RuntimeError, lambda: m.equation_latex(), "equation before fitting")
    ctx.nontrivial(True)
    ctx.label(c["bad"])


ops = st.one_of(st.tuples(st.just("fit"), data_cases(), variants), st.tuples(st.just("fit"), data_cases(), variants), st.tuples(st.sampled_from(["crash", "noctor"]), data_cases(), variants),
                st.tuples(st.just("bad"), data_cases(), st.sampled_from(["count", "x1d", "ywide2"])), st.tuples(st.just("predict"), data_cases()), st.tuples(st.just("latex"), st.sampled_from(["y", "z"])),
                st.tuples(st.just("plot"), st.sampled_from(["equation", "parity", "residual"])))


@facet(st.fixed_dictionaries({"ops": st.lists(ops, min_size=2, max_size=8), "b": variants, "two": st.booleans()}), quick=300, thorough=5000)
def histories(c, ctx):
    """Any order of fits (good, rejected, crashing), queries and plots: answers come from the last completed fit, or from none."""
    import kd.viz
    log, v = [], dict(c["b"])
    with installed(v, log) as mod, recording() as shots:
        # the stand-in is driven by `v`, which each fit replaces
        models = [mod.KD_PySR(niterations=5)] + ([mod.KD_PySR(niterations=6)] if c["two"] else [])
        state = [None] * len(models)               # (backend number, variant, X, y)
        later = False
        for i, op in enumerate(c["ops"]):
            w = i % len(models)
            m, s = models[w], state[w]
            if op[0] in ("fit", "crash", "noctor"):
                X, y = arrays(op[1])
                nv = dict(op[2], fit_fails=op[0] == "crash", ctor_fails=op[0] == "noctor")
                v.clear()
                v.update(nv)
                sys.modules["pysr"].PySRRegressor = backend(nv, log)
                mod._PySRRegressor = None
                if op[0] == "fit":
                    m.fit(X, y)
                    state[w] = (len(log) - 1, nv, X, y)
                    check_fit(nv, log[-1], X, y)
                    eq(log[-1].kw, {"niterations": 5 + w}, "options of this estimator")
                else:
                    raises(Boom, lambda: m.fit(X, y), "a failing backend was hidden")
            elif op[0] == "bad":
                Xb, yb = spoil({"d": op[1], "bad": op[2], "off": 1})
                raises(ValueError, lambda: m.fit(Xb, yb), "inconsistent input accepted")
            elif op[0] == "predict":
                Q, _ = arrays(op[1])
                if s is None:
                    raises(RuntimeError, lambda: m.predict(Q), "prediction without a completed fit")
                else:
                    p = m.predict(Q)
                    same(log[s[0]].asked[0][0], Q, "query")
                    same(p, log[s[0]].answer, "prediction of the last completed fit")
                    later = True
            elif op[0] == "latex":
                if s is None:
                    raises(RuntimeError, lambda: m.equation_latex(op[1]), "equation without a completed fit")
                else:
                    eq(m.equation_latex(op[1]), expected_latex(s[1], s[0], op[1]), "LaTeX of the last completed fit")
                    later = True
            else:
                k = len(shots)
                r = kd.viz.render(kd.viz.VizRequest(op[1], m, {"output_dir": "plots"}))
                if s is None:
                    check(r.warnings and not r.paths and len(shots) == k, "a plot without a completed fit", kind=op[1])
                else:
                    check_plot(op[1], r, shots[k:], s, log)
                    later = True
            if state[w] is None:
                check(m.best_equation_ is None and m.X_train_ is None and m.y_train_ is None, "state left by a fit that did not complete")
            else:
                eq(m.best_equation_, expected_text(state[w][1], state[w][0]), "best equation of the last completed fit")
                same(m.X_train_, state[w][2], "remembered inputs")
                same(m.y_train_, np.asarray(state[w][3]).reshape(-1), "remembered targets")
    ctx.nontrivial(later and any(s and np.asarray(s[2]).shape[0] > 1 for s in state))
    ctx.label("crash then query", any(o[0] in ("crash", "noctor", "bad") for o in c["ops"]))
    ctx.label("refit", sum(o[0] == "fit" for o in c["ops"]) > len(models))


def check_plot(kind, r, shots, s, log, given=None, bins=30):
    check(not r.warnings and len(r.paths) == 1 and len(shots) == 1, f"the {kind} plot was not drawn", warnings=r.warnings)
    check(os.path.samefile(shots[0].path, r.paths[0]), "the reported path is not the file written")
    eq(r.intent, kind, "intent")
    if kind == "equation":
        want = expected_latex(s[1], s[0], "y")
        eq(r.metadata["latex"], want, "reported LaTeX")
        eq(shots[0].axes[0].texts, ["$" + want + "$"], "drawn LaTeX")
        return
    if given is None:
        y, p = np.asarray(s[3]).reshape(-1).astype(float), np.asarray(log[s[0]].answer).reshape(-1).astype(float)
        same(log[s[0]].asked[0][0], s[2], "inputs of the plotted prediction")
    else:
        y, p = given
    A = shots[0].axes[0]
    if kind == "parity":
        close(A.scatters[0]["xy"], np.stack([y, p], 1), "parity points", 1e-6, 1e-300)
        lo, hi = min(y.min(), p.min()), max(y.max(), p.max())
        close(A.lines[0]["x"], [lo, hi], "identity line", 1e-6)
        close(A.lines[0]["y"], [lo, hi], "identity line", 1e-6)
    else:
        e = y - p
        tol = 1e-6 * (np.abs(y).max() + np.abs(p).max())
        close(r.metadata["residual_mean"], float(e.mean()), "residual mean", 0, tol)
        close(r.metadata["residual_std"], float(e.std()), "residual spread", 0, tol)
        check(len(A.rects) == bins, "number of bins", got=len(A.rects))
        check(sum(h for _, _, h in A.rects) == len(e), "the histogram does not count every residual", got=[h for _, _, h in A.rects], n=len(e))
        edges = np.array([x for x, _, _ in A.rects])
        for x, w, h in A.rects:
            lo = int(np.sum((e > x + tol) & (e < x + w - tol)))
            hi = int(np.sum((e >= x - tol) & (e <= x + w + tol)))
            check(lo <= h <= hi, "a histogram bar has the wrong height", x=x, w=w, h=h, between=[lo, hi])
        if e.max() - e.min() > 10 * tol:
            close([edges[0], A.rects[-1][0] + A.rects[-1][1]], [e.min(), e.max()], "histogram range", 0, tol)


@facet(st.fixed_dictionaries({"b": variants, "d": data_cases(), "o": data_cases(), "kind": st.sampled_from(["parity", "residual", "parity", "residual"]), "src": st.sampled_from(["train", "xy", "xonly", "yonly", "short", "given"]), "bins": st.sampled_from([None, 1, 7])}),
       quick=300, thorough=4000)
def plots(c, ctx):
    """Parity and residual plots show actual and predicted values of the data asked for."""
    import kd.viz
    log = []
    X, y = arrays(c["d"])
    o = {**c["o"], "m": c["d"]["m"]}
    X2, y2 = arrays(o)
    opts = {"output_dir": "out"}
    if c["src"] in ("xy", "xonly"):
        opts["X"] = X2
    if c["src"] in ("xy", "yonly"):
        opts["y"] = y2
    if c["src"] == "short":
        opts.update(X=X2, y=np.zeros(np.asarray(X2).shape[0] + 1))
    if c["bins"] and c["kind"] == "residual":
        opts["bins"] = c["bins"]
    given = None
    if c["src"] == "given":
        if c["kind"] != "residual":
            return
        y2 = np.asarray(y2, dtype=float).reshape(-1)
        given = (y2, np.round(y2) + 0.5)
        opts.update(actual=given[0], predicted=given[1])
    with installed(c["b"], log) as mod, recording() as shots:
        m = mod.KD_PySR()
        m.fit(X, y)
        f = kd.viz.plot_parity if c["kind"] == "parity" else kd.viz.plot_residuals
        if c["kind"] == "residual":
            opts.setdefault("actual", None)
            opts.setdefault("predicted", None)
        fz = Frozen(o=opts, X=X, y=y)
        r = f(m, show_info=False, **opts)
        fz.verify("plotting")
        if c["src"] == "short":
            check(r.warnings and not r.paths and not shots, "a plot of inconsistent data")
        else:
            s = (0, c["b"], X2, y2) if c["src"] == "xy" else (0, c["b"], X, y)
            check_plot(c["kind"], r, shots, s, log, given, c["bins"] or 30)
            check(len(log[0].fits) == 1, "plotting refits the model")
        same(m.X_train_, X, "remembered inputs")
    ctx.nontrivial(c["d"]["n"] >= 2)
    ctx.label(c["src"])


@facet(st.fixed_dictionaries({"b": variants, "d": data_cases(), "why": st.sampled_from(["missing", "nameless"]), "then": st.booleans()}), quick=60, thorough=400)
def missing_backend(c, ctx):
    """Without a backend the package still works; fitting says so, leaves no state, and works once the backend appears."""
    log = []
    X, y = arrays(c["d"])
    with installed(c["b"], log, absent=c["why"]) as mod:
        m = mod.KD_PySR()
        raises(RuntimeError, lambda: m.fit(X, y), "fitting without a backend")
        raises(RuntimeError, lambda: m.predict(X), "prediction without a fit")
        check(m.best_equation_ is None and m.X_train_ is None, "state left by a fit that did not happen")
        if c["then"]:
            mm = types.ModuleType("pysr")
            mm.PySRRegressor = backend(c["b"], log)
            sys.modules["pysr"] = mm
            m.fit(X, y)
            check_fit(c, log[0], X, y)
    ctx.nontrivial(c["d"]["n"] >= 2)
