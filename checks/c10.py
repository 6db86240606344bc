"""C10: sparse regression returns consistent coefficients and scores."""
import triton._C.libtriton  # noqa: F401
import numpy as np
from hypothesis import strategies as st

from kd.model.discover import ga_utils
from kd.model.discover.stridge import STRidge as DiscoverRegression
from kd.model.sga.sgapde import PDE_find
from vlib import gens as G, sgaref as R
from vlib.core import Frozen, Skip, arr_eq, check, close, eq, facet

TECHNIQUE = ("property-based testing: random well-conditioned feature matrices with widely varying column scales and sparse, dense, "
             "noisy or exact targets; recomputed errors and criteria, per-support least squares, an independent sequential-threshold "
             "reference, exact recovery and column-rescaling relations")
RULE = "non-trivial: at least three columns and a selected support that is a proper subset, or a threshold that removed a column"


@st.composite
def system(draw, dmax=6, scales=(-3, 3)):
    d = draw(st.integers(1, dmax))
    return {"d": d, "n": draw(st.integers(4 * d + 6, 60)), "seed": draw(G.seeds),
            "scale": [draw(st.integers(*scales)) for _ in range(d)], "sparse": [draw(st.booleans()) for _ in range(d)],
            "noise": draw(st.sampled_from([0.0, 0.0, 1e-6, 0.01, 1.0])), "yscale": draw(st.sampled_from([-6, -2, 0, 1, 3, 8])),
            "coef": draw(st.sampled_from(["unit", "wide", "small"]))}


def build(s):
    r = np.random.RandomState(s["seed"])
    X = r.standard_normal((s["n"], s["d"])) * 10.0 ** np.array(s["scale"])
    w = {"unit": r.uniform(0.5, 2, s["d"]), "wide": 10.0 ** r.uniform(-2, 2, s["d"]), "small": 10.0 ** r.uniform(-4, 0, s["d"])}[s["coef"]]
    w = w * r.choice([-1, 1], s["d"]) * np.array(s["sparse"]) / 10.0 ** np.array(s["scale"])
    y = X @ w
    y = (y + s["noise"] * r.standard_normal(s["n"])) * 2.0 ** s["yscale"]
    return X, (w * 2.0 ** s["yscale"]).reshape(-1, 1), y.reshape(-1, 1)


def ls(X, y, cols):
    w = np.zeros((X.shape[1], 1))
    if len(cols):
        sc = np.linalg.norm(X[:, cols], axis=0)
        w[cols] = np.linalg.lstsq(X[:, cols] / sc, y, rcond=None)[0] / sc[:, None]
    return w


def scaled_units(X, w, y):
    """Known finding: when every coefficient is below the threshold the regression returns them in normalised units, and with a
    target so small that the fixed penalty swamps the error those can be taken for the result."""
    nrm = np.linalg.norm(X, axis=0)[:, None]
    full = ls(X, y, list(range(X.shape[1])))
    unscaled = np.count_nonzero(w) == w.size and np.allclose(w, full * nrm, rtol=1e-3, atol=0) and not np.allclose(w, full, rtol=1e-3, atol=0)
    check(not (unscaled and np.mean(y ** 2) < 1e-6), lambda: f"coefficients {w.ravel()} are in units of normalised columns", sig="unscaled-weights")


def weights_close(X, w, exp, y, what):
    """Compare in units of contribution to the prediction."""
    sc = np.linalg.norm(X, axis=0)[:, None]
    tol = 1e-7 * (np.linalg.norm(y) + 1e-300)
    check(np.all(np.abs((w - exp) * sc) <= tol), lambda: f"{what}: {w.ravel()} is not the least-squares fit {exp.ravel()} on the selected columns")


@facet(st.tuples(system(), st.sampled_from([0.0, 0.5, 1.0, 3.0]), st.sampled_from([1, 10]), st.booleans()).map(list), quick=400, thorough=8000, shards=4)
def sga_train(case, ctx):
    s, ratio, dtol, lasso = case
    X, wt, y = build(s)
    if not np.any(y):
        raise Skip()
    fr = Frozen(X=X, y=y)
    with R.quiet(), np.errstate(all="ignore"):
        w, err, mse, aic = PDE_find.Train(X, y, 0 if not lasso else 1e-3 * np.linalg.norm(y), dtol, ratio, sparse="Lasso" if lasso else "STR")
    fr.verify("sparse regression")
    eq(w.shape, (s["d"], 1), "coefficients")
    res = y - X @ w
    sc = np.linalg.norm(y)
    close(err, np.linalg.norm(res), "reported error of the reported coefficients", rtol=1e-6, atol=1e-9 * sc)
    close(mse, np.mean(res ** 2), "reported mean squared error of the reported coefficients", rtol=1e-6, atol=1e-13 * sc ** 2)
    k = int(np.count_nonzero(w))
    if not lasso or k:
        if np.mean(res ** 2) > 1e-20 * sc ** 2:
            close(aic, 2 * ratio * k + 2 * np.log(np.mean(res ** 2)), "reported criterion of the reported coefficients", rtol=1e-6, atol=1e-6)
            if not lasso and np.mean(res ** 2) > 1e-11 * np.mean(y ** 2):
                w0 = ls(X, y, list(range(s["d"])))
                check(aic <= 2 * ratio * np.count_nonzero(w0) + 2 * np.log(np.mean((y - X @ w0) ** 2)) + 1e-4,
                      lambda: f"criterion {aic} is worse than that of plain least squares")
        else:
            check(aic <= 2 * ratio * s["d"] + 2 * np.log(1e-19 * sc ** 2), lambda: f"criterion {aic} for an exact fit")
    sel = [int(i) for i in np.flatnonzero(w)]
    weights_close(X, w, ls(X, y, sel), y, "selected coefficients")
    if s["noise"] == 0 and not lasso:
        weights_close(X, w, wt, y, "exact combination")
    ctx.label("lasso" if lasso else "str"); ctx.label("exact", s["noise"] == 0)
    ctx.nontrivial(s["d"] >= 3 and 0 < len(sel) < s["d"])


def ref_stridge(X0, y, lam, maxit, tol, normalize):
    """Independent sequential thresholding; None when a decision is too close to call."""
    sc = np.linalg.norm(X0, normalize, axis=0) if normalize else np.ones(X0.shape[1])
    X = X0 / sc

    def fit(cols):
        A = X[:, cols]
        if lam:
            return np.linalg.solve(A.T @ A + lam * np.eye(len(cols)), A.T @ y)
        return np.linalg.lstsq(A, y, rcond=None)[0]
    d = X.shape[1]
    w = fit(list(range(d)))
    live = list(range(d))
    for j in range(maxit):
        if np.any(np.abs(np.abs(w[w != 0]) - tol) <= 1e-6 * (tol + 1e-12)):
            return None
        keep = [i for i in range(d) if abs(w[i, 0]) >= tol]
        if len(keep) == len(live):
            break
        if not keep:
            if j == 0:
                return "all below"
            break
        live = keep
        w = np.zeros((d, 1))
        w[live] = fit(live)
    out = np.zeros((d, 1))
    out[live] = np.linalg.lstsq(X[:, live], y, rcond=None)[0]
    return out / sc[:, None], live


@facet(st.tuples(system(), st.sampled_from([0, 1e-5, 0.1]), st.sampled_from([1, 2, 10]), st.sampled_from([0.01, 0.1, 1.0, 5.0]),
                 st.sampled_from([0, 2]), st.sampled_from(["sga", "discover"])).map(list), quick=600, thorough=12000, shards=4)
def threshold_regression(case, ctx):
    s, lam, maxit, tol, norm, which = case
    if norm == 0:
        s = dict(s, scale=[0] * s["d"])
    X, wt, y = build(s)
    if not np.any(y):
        raise Skip()
    tol = tol * float(np.linalg.norm(y)) / np.sqrt(s["d"]) / (1 if norm else np.sqrt(s["n"]))
    exp = ref_stridge(X, y, lam, maxit, tol, norm)
    if exp is None:
        raise Skip()
    if isinstance(exp, str):
        ctx.label("all below the threshold")
        return  # the unscaled full fit is returned; callers discard it
    exp, live = exp
    fr = Frozen(X=X, y=y)
    f = PDE_find.STRidge if which == "sga" else ga_utils.STRidge
    with R.quiet(), np.errstate(all="ignore"):
        w = f(X, y, lam, maxit, tol, norm)
    fr.verify("threshold regression")
    check(set(np.flatnonzero(w)) <= set(live), lambda: f"columns selected with threshold {tol}: {np.flatnonzero(w)}, expected {live}")
    weights_close(X, w, exp, y, "coefficients")
    ctx.nontrivial(len(live) < s["d"]); ctx.label(which)


@facet(st.tuples(system(), st.sampled_from([None, 0.0, 1e-3, 0.1])).map(list), quick=300, thorough=6000, shards=4)
def discover_train(case, ctx):
    s, l0 = case
    X, wt, y = build(s)
    if not np.any(y):
        raise Skip()
    fr = Frozen(X=X, y=y)
    with R.quiet(), np.errstate(all="ignore"):
        w, mse = ga_utils.TrainSTRidge(X, y, l0_penalty=l0)
    fr.verify("sparse regression")
    scaled_units(X, w, y)
    pen = 0.001 if l0 is None else l0
    m = float(np.mean((y - X @ w) ** 2))
    sc = float(np.mean(y ** 2))
    close(mse, m, "reported error of the reported coefficients", rtol=1e-6, atol=1e-13 * sc)
    w0 = ls(X, y, list(range(s["d"])))
    m0 = float(np.mean((y - X @ w0) ** 2))
    check(m + pen * np.count_nonzero(w) <= m0 + pen * np.count_nonzero(w0) + 1e-9 * sc,
          lambda: f"penalised error {m + pen * np.count_nonzero(w)} worse than plain least squares {m0 + pen * np.count_nonzero(w0)}")
    weights_close(X, w, ls(X, y, [int(i) for i in np.flatnonzero(w)]), y, "selected coefficients")
    ctx.nontrivial(s["d"] >= 3 and 0 < np.count_nonzero(w) < s["d"])


@facet(st.tuples(system(scales=(-2, 2)), st.integers(0, 5), st.sampled_from([-5, -1, 1, 4, 9])).map(list), quick=250, thorough=5000, shards=4)
def column_rescaling(case, ctx):
    s, j, e = case
    j %= s["d"]
    X, wt, y = build(s)
    if not np.any(y):
        raise Skip()
    X2 = X.copy()
    X2[:, j] *= 2.0 ** e
    for name, f in (("SGA", lambda A: PDE_find.Train(A, y, 0, 1)[0]), ("Discover", lambda A: ga_utils.TrainSTRidge(A, y, l0_penalty=1e-3)[0])):
        with R.quiet(), np.errstate(all="ignore"):
            a, b = f(X), f(X2)
        scaled_units(X, a, y)
        scaled_units(X2, b, y)
        if (np.flatnonzero(a) != np.flatnonzero(b)).any() if np.count_nonzero(a) == np.count_nonzero(b) else True:
            # the threshold search is local: rounding may take it to another selection
            ctx.label("other selection")
            continue
        b = b.copy()
        b[j] *= 2.0 ** e
        weights_close(X, b, a, y, f"{name}: coefficients after rescaling column {j}")
        ctx.nontrivial(s["d"] >= 3 and np.count_nonzero(a) > 0)


@facet(st.tuples(system(dmax=4, scales=(-1, 1)), st.booleans()).map(list), quick=250, thorough=5000, shards=3)
def discover_fit(case, ctx):
    """The fit of a candidate equation's terms: least squares, or flagged when a coefficient is out of range."""
    s, const = case
    X, wt, y = build(s)
    if not np.any(y):
        raise Skip()
    reg = DiscoverRegression.__new__(DiscoverRegression)
    reg.add_const = const
    A = np.concatenate([X, np.ones((s["n"], 1))], axis=1) if const else X
    fr = Frozen(A=A, y=y)
    with R.quiet():
        yh, w, invalid, e1, e2, rhs = reg.coef_calculate(A, y)
    fr.verify("fit")
    full = ls(A, y, list(range(A.shape[1])))
    dropped_const = const and abs(full[-1, 0]) < 5e-5
    exp = ls(X, y, list(range(s["d"]))) if dropped_const else full
    lo, hi = np.min(np.abs(full[:s["d"]])), np.max(np.abs(full[:s["d"] + (0 if dropped_const else int(const))]))
    if any(abs(v - 5e-5) < 1e-9 for v in np.abs(full).ravel()) or any(abs(v - 1e4) < 1e-3 for v in np.abs(full).ravel()):
        raise Skip()
    bad = lo < 5e-5 or hi > 1e4
    eq(bool(invalid), bool(bad), f"flag for coefficients {full.ravel()}")
    ctx.label("flagged", bad)
    if bad:
        eq(list(w), [0], "coefficients of a flagged candidate")
        return
    check(isinstance(w, list) and len(w) == len(exp), "coefficients")
    B = X if dropped_const else A
    weights_close(B, np.array(w).reshape(-1, 1), exp, y, "coefficients")
    close(np.asarray(yh).ravel(), (B @ exp).ravel(), "fitted values", rtol=1e-6, atol=1e-7 * np.linalg.norm(y))
    arr_eq(rhs, B, "term columns")
    ctx.nontrivial(len(w) >= 3)
