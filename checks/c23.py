"""C23: the symbolic-regression model predicts with, and reports, the formula it found."""
import triton._C.libtriton  # noqa: F401
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import discref as R, gens as G
from vlib.core import Frozen, check, close, eq, facet, raises
from vlib.sgaref import quiet

TECHNIQUE = ("property-based testing: formulas placed in the model and formulas found by real short searches; the reported texts are parsed and evaluated by an independent evaluator and "
             "compared with predict() on new data, across histories of several models")
RULE = "non-trivial: a formula with an operator and at least one input, predicted on data it was not fitted to"

NAMESETS = [["a", "b", "c"], ["x2", "x1", "x3"], ["x1", "x2", "x3"], ["x3", "x1", "x2"], ["x", "y", "t"], ["exp", "add", "n2"], ["x10", "x1", "x11"], ["R_F", "r", "x1_raw"],
            ["max_x1", "x2x1", "x1"], ["a b", "temp (K)", "x1"]]


def names_for(c):
    if c["names"] is None:
        return None
    n = c["s"]["dim"]
    if n <= 3:
        return NAMESETS[c["names"]][:n]
    return [f"x{n - k}" for k in range(n)] if c["names"] % 2 else [f"v{k}" for k in range(n)]


@st.composite
def formulas(draw):
    s = draw(R.lib_specs(pde=False, consts=False))
    s["dim"] = draw(st.sampled_from([1, 2, 3, 3, 12]))
    s["functions"] = [f for f in s["functions"] if f not in R.DIFFS] + ["const"] * draw(st.sampled_from([0, 1, 1]))
    return {"s": s, "nums": draw(st.lists(st.integers(0, 9999), min_size=1, max_size=14)), "rows": draw(st.integers(2, 12)), "new": draw(st.integers(1, 7)),
            "seed": draw(G.seeds), "names": draw(st.sampled_from([None] + list(range(len(NAMESETS))))), "opt": draw(st.sampled_from(["dummy", "scipy"])),
            "y": draw(st.sampled_from(["random", "near"])), "form": draw(st.sampled_from(["array", "lists", "column", "ints", "fortran"]))}


def config(s, opt, **training):
    return {"task": {"function_set": list(s["functions"]), "protected": s["protected"]}, "training": {"const_optimizer": opt, "verbose": False, "debug": 0, **training}}


def model_with(program_tokens, **kw):
    """The model class whose search returns the given formula."""
    from kd.model.discover.program import Program, from_tokens
    from kd.model.kd_discover_regression import KD_Discover_Regression

    class Fixed(KD_Discover_Regression):
        def train(self, n_epochs=100, verbose=True):
            names = [t.name for t in Program.library.tokens]
            p = from_tokens(np.array([names.index(n) for n in program_tokens], dtype=np.int32))
            return {"program": p, "r": p.r_ridge, "expression": repr(p), "traversal": repr(p)}
    return Fixed(n_iterations=1, n_samples_per_batch=4, out_path=None, **kw)


def parse(text, names, what):
    """Tokens of a reported text; every input is named by `names`, constants are numbers."""
    out = []
    for piece in text.split(","):
        if piece in names and piece not in R.ARITY:
            out.append(("x", names.index(piece)))
        elif piece in R.ARITY:
            out.append(("op", piece))
        else:
            try:
                out.append(("num", float(piece)))
            except ValueError:
                check(False, f"{what}: cannot read {piece!r} in {text!r}")
    return out


def reported(res, toks, names, what):
    """The texts against the formula's tokens."""
    consts = list(res["constants"])
    for key, inputs in (("expression", [f"x{i + 1}" for i in range(len(names))]), ("expression_named", list(names))):
        k = 0
        pieces = res[key].split(",")
        eq(len(pieces), len(toks), f"{what}: number of tokens of {key} {res[key]!r}")
        for piece, n in zip(pieces, toks):
            if n == "const":
                check(abs(float(piece) - consts[k]) <= 0.51e-6 + 1e-9 * abs(consts[k]), f"{what}: constant {k} of {key} {res[key]!r} is {consts[k]!r}")
                k += 1
            elif n[0] == "x" and n[1:].isdigit():
                eq(piece, inputs[int(n[1:]) - 1], f"{what}: input {n} in {key} {res[key]!r}")
            else:
                eq(piece, n, f"{what}: operator in {key} {res[key]!r}")
    eq(len(consts), sum(n == "const" for n in toks), f"{what}: number of constants")
    eq(list(res["var_names"]), list(names), f"{what}: variable names")


def values(toks, X, s, consts):
    t = R.tree(toks)
    F = R.Fields(1, [X[:, i] for i in range(X.shape[1])], [], protected=s["protected"], consts=list(consts))
    v, sp, tr = R.evaluate(F, t)
    n = len(X)
    return np.broadcast_to(np.asarray(v).reshape(-1) if np.size(v) in (1, n) else v, (n,)), np.broadcast_to(np.asarray(sp).reshape(-1), (n,)), tr


def shaped(X, y, form):
    if form == "lists":
        return X.tolist(), y.tolist()
    if form == "column":
        return X, y.reshape(-1, 1)
    if form == "fortran":
        return np.asfortranarray(X), y[::-1][::-1]
    return X, y


def predicts(m, toks, X, s, consts, what, ctx):
    v, sp, tr = values(toks, X, s, consts)
    with quiet():
        try:
            got = m.predict(X)
        except RuntimeError as e:
            check(tr, f"{what}: predict raised {e}")
            ctx.label("predict refused")
            return None
    eq(np.shape(got), (len(X),), f"{what}: shape of the prediction")
    if not tr:
        R.agree(got, v, sp, f"{what}: prediction")
    return np.asarray(got, float)


@facet(formulas(), quick=500, thorough=9000, shards=4)
def fixed(case, ctx):
    """A known formula in the model: texts, constants, scores, predictions on new data."""
    c, s = case, case["s"]
    names = R.names_of(s)
    toks = [names[i] for i in R.decode(c["nums"], names, max_len=14)]
    r = np.random.RandomState(c["seed"])

    def rows(n):
        if c["form"] == "ints":
            return r.randint(1, 4, (n, s["dim"]))
        return r.uniform(0.2, 2, (n, s["dim"])) * r.choice([-1, 1, 1, 1], (n, s["dim"]))
    X, X2 = rows(c["rows"]), rows(c["new"])
    nc = sum(n == "const" for n in toks)
    v, _, tr = values(toks, X.astype(float), s, [1.0] * nc)
    y = r.standard_normal(c["rows"])
    if c["y"] == "near" and not tr and np.abs(v).max() < 1e6:
        y = v * r.uniform(0.5, 2) + 0.1 * y
    vn = names_for(c)
    m = model_with(toks, config_out=config(s, c["opt"]))
    what = f"{','.join(toks)} names {vn} [{c['opt']}, {c['form']}]"
    raises(RuntimeError, lambda: m.predict(X2), what=f"{what}: predict before fit")
    Xi, yi = shaped(X, y, c["form"])
    fr = Frozen(X=Xi, y=yi, names=vn)
    with quiet():
        try:
            res = m.fit(Xi, yi, vn) if vn is not None else m.fit(Xi, yi)
        except TypeError:
            if not (tr or values(toks, X.astype(float), s, [1e3] * nc)[2] or nc):
                raise
            ctx.label("no value on the data")
            return
    fr.verify("fit")
    p = res["program"]
    ctx.label("invalid", bool(p.invalid)); ctx.label(f"{s['dim']} inputs"); ctx.label("constants", nc > 0)
    if p.invalid:
        return
    reported(res, toks, vn or [f"x{i + 1}" for i in range(s["dim"])], what)
    yt = predicts(m, toks, X.astype(float), s, res["constants"], what, ctx)
    check(yt is not None, f"{what}: a valid formula does not predict its own data")
    mse = float(np.mean((y - yt) ** 2))
    close(res["mse"], mse, rtol=1e-9, atol=1e-300, what=f"{what}: reported error")
    close(res["reward"], 1 / (1 + np.sqrt(mse / max(np.var(y), 1e-12))), rtol=1e-9, atol=1e-12, what=f"{what}: reported reward")
    check(res["program"] is m.best_program_ and m.result_ is res, f"{what}: the result is not the one kept")
    before = copy.deepcopy({k: res[k] for k in ("expression", "expression_named", "constants", "reward", "mse")})
    fr2 = Frozen(X2=X2)
    g = predicts(m, toks, X2, s, res["constants"], what, ctx)
    fr2.verify("predict")
    if g is not None:
        one = [predicts(m, toks, X2[k:k + 1], s, res["constants"], what, ctx) for k in range(len(X2))]
        if all(o is not None for o in one):
            check(np.allclose(np.concatenate(one), g, rtol=1e-12, atol=0, equal_nan=True), f"{what}: a row's prediction depends on the other rows")
    raises(ValueError, lambda: m.predict(np.ones((3, s["dim"] + 1))), what=f"{what}: wrong number of inputs")
    raises(ValueError, lambda: m.predict(np.ones(s["dim"])), what=f"{what}: one-dimensional input")
    eq({k: res[k] for k in before}, before, f"{what}: result after predictions")
    check(not p.invalid, f"{what}: a prediction changed the reported formula to invalid")
    ctx.nontrivial(g is not None and len(toks) > 1 and any(n[0] == "x" for n in toks))


@st.composite
def searches(draw):
    s = {"pde": False, "dim": draw(st.integers(1, 3)), "nu": 0, "params": [], "protected": draw(st.booleans()),
         "functions": draw(st.permutations(["add", "mul", "sub", "div", "n2", "sin", "exp", "log", "sqrt"]))[:draw(st.integers(2, 5))] + ["const"] * draw(st.sampled_from([0, 1, 1]))}
    if not any(f in R.BIN for f in s["functions"]):
        s["functions"].insert(0, "add")
    return {"s": s, "seed": draw(G.seeds), "names": draw(st.sampled_from([None] + list(range(len(NAMESETS))))), "iters": draw(st.integers(1, 3)),
            "batch": draw(st.sampled_from([5, 20, 40])), "target": draw(st.integers(0, 3)), "ops": draw(st.booleans()), "again": draw(st.sampled_from(["no", "same", "other"]))}


@facet(searches(), quick=48, thorough=900, shards=4, case_s=120)
def searched(case, ctx):
    """Real searches: the formula reported is the one that predicts, models do not disturb each other, same seed gives the same answer."""
    from kd.model.kd_discover_regression import KD_Discover_Regression
    c, s = case, case["s"]
    r = np.random.RandomState(c["seed"])
    d = s["dim"]
    X = r.uniform(0.3, 2, (20, d))
    y = [X[:, 0] * 2 + 1, X[:, 0] ** 2 - X[:, -1], np.sin(X).sum(1), r.standard_normal(20)][c["target"]]
    vn = names_for(c)

    def build(seed):
        if c["ops"]:
            b = [f for f in s["functions"] if f in R.BIN]
            return KD_Discover_Regression(n_iterations=c["iters"], n_samples_per_batch=c["batch"], binary_operators=b, unary_operators=[f for f in s["functions"] if f in R.UN], out_path=None,
                                          seed=seed, config_out={"task": {"protected": s["protected"]}})
        return KD_Discover_Regression(n_iterations=c["iters"], n_samples_per_batch=c["batch"], out_path=None, seed=seed, config_out=config(s, "scipy"))

    def fit(m, X, y, names):
        with quiet():
            try:
                return m.fit(X, y, names)
            except (ValueError, TypeError) as e:
                if "zero-size" in str(e) or "NoneType" in str(e) or "nan" in str(e).lower():
                    return None          # no valid candidate in the whole search
                raise
    m = build(c["seed"] % 1000)
    fr = Frozen(X=X, y=y, names=vn)
    res = fit(m, X, y, vn)
    fr.verify("fit")
    if res is None or res["program"].invalid:
        ctx.label("nothing found")
        return
    p = res["program"]
    toks = ["const" if type(t).__name__ == "PlaceholderConstant" else t.name for t in p.traversal]
    vnames = vn or [f"x{i + 1}" for i in range(d)]
    what = f"{','.join(toks)} of {s['functions']} names {vnames}"
    allowed = set(s["functions"]) | {f"x{i + 1}" for i in range(d)} | {"const"}
    check(set(toks) <= allowed, f"{what}: tokens outside the requested set {sorted(set(toks) - allowed)}")
    reported(res, toks, vnames, what)
    yt = predicts(m, toks, X, s, res["constants"], what, ctx)
    check(yt is not None, f"{what}: a valid formula does not predict its own data")
    mse = float(np.mean((y - yt) ** 2))
    close(res["mse"], mse, rtol=1e-9, atol=1e-300, what=f"{what}: reported error")
    close(res["reward"], 1 / (1 + np.sqrt(mse / max(np.var(y), 1e-12))), rtol=1e-9, atol=1e-12, what=f"{what}: reported reward")
    X2 = r.uniform(0.3, 2, (5, d))
    a = predicts(m, toks, X2, s, res["constants"], what, ctx)
    texts = {k: copy.deepcopy(res[k]) for k in ("expression", "expression_named", "constants", "reward", "mse", "var_names")}
    if c["again"] != "no":
        other = build(c["seed"] % 1000 if c["again"] == "same" else 7)
        if c["again"] == "same":
            res2 = fit(other, X.copy(), y.copy(), vn)
            eq({k: res2[k] for k in texts}, texts, f"{what}: the same fit with the same seed")
        else:
            fit(other, r.uniform(0.3, 2, (9, d % 3 + 1)), r.standard_normal(9), None)
        b = predicts(m, toks, X2, s, texts["constants"], f"{what} after another model was fitted", ctx)
        check((a is None) == (b is None) and (a is None or np.array_equal(a, b, equal_nan=True)), f"{what}: predictions changed after another model was fitted")
        eq({k: res[k] for k in texts}, texts, f"{what}: the result changed after another model was fitted")
        ctx.label(f"second fit {c['again']}")
    ctx.nontrivial(len(toks) > 1); ctx.label("constants found", bool(res["constants"]))


@facet(st.tuples(st.integers(1, 4), st.integers(1, 6), st.sampled_from(["rows", "names", "1-D", "3-D", "text"]), G.seeds), quick=30, thorough=200)
def refuses(case, ctx):
    """Inconsistent input is refused before anything is fitted."""
    d, n, kind, seed = case
    r = np.random.RandomState(seed)
    X, y = r.standard_normal((n, d)), r.standard_normal(n)
    m = model_with(["x1"])
    bad = {"rows": lambda: m.fit(X, np.append(y, 1.0)), "names": lambda: m.fit(X, y, [f"v{k}" for k in range(d + 1)]), "1-D": lambda: m.fit(X[:, 0], y),
           "3-D": lambda: m.fit(X.reshape(n, d, 1), y), "text": lambda: m.fit([["a"] * d] * n, y)}[kind]
    raises(ValueError, bad, what=f"{kind} input")
    raises(RuntimeError, lambda: m.predict(X), what="predict after a refused fit")
    check(m.result_ is None and m.best_program_ is None, "a refused fit left a result behind")
    ctx.nontrivial(True)
