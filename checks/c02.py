"""C02: sampled points are real grid points with their own values."""
import numpy as np
from hypothesis import strategies as st

from kd.data import SparseData
from kd.dataset import PDEDataset
from kd.model.discover.adapter import DiscoverSparseAdapter
from vlib import gens as G
from vlib.core import arr_eq, check, close, eq, facet, raises

TECHNIQUE = ("property-based testing: every sample is looked up in a dictionary {grid point: value} built from the "
             "generating arrays; counts, disjointness of splits, bounds and seed-determinism are checked per draw")
RULE = "non-trivial: the grid has two axes of different length and the sample is neither empty nor the whole grid"


def table(axes, u):
    g = np.meshgrid(*axes, indexing="ij")
    pts = np.column_stack([a.ravel() for a in g]).astype(float)
    return {tuple(p): float(v) for p, v in zip(pts, np.asarray(u, float).ravel())}


def lookup(tab, pts, vals, what, distinct=True, exact=True):
    pts, vals = np.asarray(pts, float), np.asarray(vals, float)
    check(vals.shape == (len(pts), 1), f"{what}: values shape {vals.shape} for {len(pts)} points")
    for p, v in zip(pts, vals[:, 0]):
        check(tuple(p) in tab, f"{what}: {tuple(p)} is not a point of the grid")
        w = tab[tuple(p)]
        check(v == w if exact else abs(v - w) <= 1e-8 * (1 + abs(w)),
              f"{what}: value {v} at {tuple(p)}, the grid holds {w}")
    if distinct:
        check(len({tuple(p) for p in pts}) == len(pts), f"{what}: repeated points")


@st.composite
def grid2(draw):
    return {"nx": draw(st.integers(2, 14)), "nt": draw(st.integers(2, 14)), "seed": draw(G.seeds),
            "xk": draw(st.sampled_from(["uniform", "int", "irregular"])),
            "tk": draw(st.sampled_from(["uniform", "int", "irregular"])),
            "order": draw(st.sampled_from(["legacy", "xt", "tx"])), "f": draw(st.floats(0, 1)),
            "mode": draw(st.sampled_from(["count", "ratio"])), "npseed": draw(st.integers(0, 10**6))}


def build(c):
    x, t = G.coords(c["nx"], c["seed"], c["xk"]).astype(float), G.coords(c["nt"], c["seed"] + 1, c["tk"]).astype(float)
    u = G.values((c["nx"], c["nt"]), c["seed"] + 2)
    if c["order"] == "legacy":
        ds = PDEDataset("e", x=x, t=t, usol=u)
    else:
        tx = c["order"] == "tx"
        ds = PDEDataset("e", fields_data={"u": u.T if tx else u}, coords_1d={"x": x, "t": t},
                        axis_order=["t", "x"] if tx else ["x", "t"])
    return ds, x, t, u


@facet(grid2, quick=700, thorough=20000, shards=2)
def random_sample(c, ctx):
    ds, x, t, u = build(c)
    tot = u.size
    if c["mode"] == "ratio":
        r = min(max(round(c["f"], 3), 0.001), 0.999)
        arg, n = r, int(tot * r)
    else:
        arg = n = max(1, int(c["f"] * tot))
    np.random.seed(c["npseed"])
    p, v = ds.sample(arg, method="random")
    eq(len(p), n, f"number of points for sample({arg}) of {tot}")
    lookup(table([x, t], u), p, v, "sample('random')")
    np.random.seed(c["npseed"])
    p2, v2 = ds.sample(arg)
    arr_eq(p2, p, "same seed, points"); arr_eq(v2, v, "same seed, values")
    raises(ValueError, lambda: ds.sample(tot + 1), "more samples than points")
    raises(ValueError, lambda: ds.sample(1, method="nope"), "unknown method")
    ctx.nontrivial(u.shape[0] != u.shape[1] and 0 < n < tot); ctx.label(c["order"])


@facet(grid2, quick=300, thorough=8000)
def uniform_and_spline(c, ctx):
    ds, x, t, u = build(c)
    tot = u.size
    n = max(1, int(c["f"] * tot))
    p, v = ds.sample(n, method="uniform")
    k = int(np.sqrt(n))
    eq(len(p), k * k, f"uniform sample of {n}")
    lookup(table([x, t], u), p, v, "sample('uniform')", distinct=False)
    if k <= min(u.shape):
        check(len({tuple(q) for q in p}) == k * k, "uniform sample repeats points although the grid is large enough")
    if k >= 2 and k <= min(u.shape):
        check({x[0], x[-1]} <= set(p[:, 0]) and {t[0], t[-1]} <= set(p[:, 1]), "uniform sample does not span the grid")
    if k < 1:
        return
    p, v = ds.sample(n, method="spline")
    eq(len(p), k * k, f"spline sample of {n}"); eq(np.shape(v), (k * k, 1), "spline values")
    check((p[:, 0] >= x[0] - 1e-9).all() and (p[:, 0] <= x[-1] + 1e-9).all() and (p[:, 1] >= t[0] - 1e-9).all()
          and (p[:, 1] <= t[-1] + 1e-9).all(), "spline sample leaves the domain")
    tab = table([x, t], u)
    for q, val in zip(p, v[:, 0]):
        if tuple(q) in tab:   # an interpolating spline passes through the data
            close(val, tab[tuple(q)], "spline value at a grid point", rtol=1e-6, atol=1e-6)
    # polynomials up to the spline degree are reproduced at every sampled point
    a = np.random.RandomState(c["seed"]).uniform(-1, 1, 3)
    poly = lambda X, T: a[0] + a[1] * (X - x[0]) + a[2] * (T - t[0]) * (X - x[0])
    X, T = np.meshgrid(x, t, indexing="ij")
    ds2 = PDEDataset("e", x=x, t=t, usol=poly(X, T))
    p, v = ds2.sample(n, method="spline")
    w = poly(p[:, 0], p[:, 1])
    close(v[:, 0], w, "spline of a bilinear field", rtol=1e-6, atol=1e-6 * (1 + np.abs(poly(X, T)).max()))
    ctx.nontrivial(u.shape[0] != u.shape[1] and k >= 2)


@st.composite
def sparse(draw):
    return {"N": draw(st.integers(1, 60)), "d": draw(st.integers(2, 4)), "seed": draw(G.seeds),
            "colloc": draw(st.sampled_from([1, 7, 50])), "npseed": draw(st.integers(0, 10**6))}


def check_split(data, pts, vals, lb, ub, ncol, what, full=True):
    """train/validation are a disjoint split of (pts, vals); collocation points in the box, training points appended."""
    tab = {tuple(p): float(v) for p, v in zip(pts, vals[:, 0])}
    lookup(tab, data["X_u_train"], data["u_train"], what + " train")
    lookup(tab, data["X_u_val"], data["u_val"], what + " validation")
    a, b = {tuple(p) for p in data["X_u_train"]}, {tuple(p) for p in data["X_u_val"]}
    check(not (a & b), f"{what}: training and validation share points {sorted(a & b)[:2]}")
    if full:
        eq(len(a | b), len(tab), f"{what}: points in the split")
        eq(len(a), int(len(tab) * 0.8), f"{what}: training points")
    f = np.asarray(data["X_f_train"])
    eq(f.shape, (ncol + len(data["X_u_train"]), pts.shape[1]), f"{what}: collocation array shape")
    tol = 1e-9 * (1 + np.abs(ub) + np.abs(lb))
    check((f >= lb - tol).all() and (f <= ub + tol).all(), f"{what}: collocation points outside the domain")
    if len(data["X_u_train"]):
        arr_eq(f[ncol:], data["X_u_train"], f"{what}: training points appended to the collocation points")
    if ncol >= 7:
        # latin hypercube: one point in each of ncol equal slabs per axis
        for k in range(f.shape[1]):
            if ub[k] > lb[k]:
                s = np.floor((f[:ncol, k] - lb[k]) / (ub[k] - lb[k]) * ncol - 1e-9).clip(0, ncol - 1)
                check(len(set(s)) >= 0.6 * ncol, f"{what}: collocation points do not cover axis {k}")


@facet(sparse, quick=400, thorough=10000)
def sparse_split(c, ctx):
    r = np.random.RandomState(c["seed"])
    pts = r.uniform(-3, 3, (c["N"], c["d"])); vals = r.standard_normal((c["N"], 1))
    lb, ub = pts.min(0) - 0.5, pts.max(0) + 0.5
    out = []
    for _ in range(2):
        np.random.seed(c["npseed"])
        sd = SparseData(pts, vals)
        arr_eq(sd.x, pts[:, :-1], "SparseData.x"); arr_eq(sd.t, pts[:, -1:], "SparseData.t")
        sd.colloc_num = c["colloc"]
        sd.process_data((lb, ub))
        d = sd.get_data()
        check_split(d, pts, vals, lb, ub, c["colloc"], "SparseData")
        arr_eq(d["lb"], lb, "lb"); arr_eq(d["ub"], ub, "ub")
        out.append(d)
    for k in out[0]:
        arr_eq(out[1][k], out[0][k], f"same seed: {k}")
    ctx.nontrivial(c["N"] >= 3)


@st.composite
def adapter(draw):
    c = draw(grid2())
    c.update(order="legacy", opt=draw(st.sampled_from(["plain", "spline", "cut", "ratio", "cut_ratio", "noise"])),
             sample=draw(st.one_of(st.none(), st.floats(0, 1))), ratio=draw(st.sampled_from([0.05, 0.1, 0.33, 0.5, 1.0])),
             colloc=draw(st.sampled_from([1, 10, 40])), rs=draw(st.integers(0, 999)),
             q=draw(st.sampled_from([0.0, 0.1, 0.25, 0.45])), dr=draw(st.sampled_from([0.1, 0.5, 0.9, 1.0])),
             npar=draw(st.integers(0, 2)))
    return c


@facet(adapter, quick=900, thorough=20000, shards=2)
def sparse_adapter(c, ctx):
    x, t = G.coords(c["nx"], c["seed"], c["xk"]).astype(float), G.coords(c["nt"], c["seed"] + 1, c["tk"]).astype(float)
    u = G.values((c["nx"], c["nt"]), c["seed"] + 2)
    par = {n: G.values(u.shape, c["seed"] + 9 + i) for i, n in enumerate(G.PARAM_NAMES[:c["npar"]])}
    ds = PDEDataset("e", x=x, t=t, usol=u, param_fields=par or None)
    opt = c["opt"]
    cut = c["q"] if opt.startswith("cut") else None
    dr = c["dr"] if opt in ("ratio", "cut_ratio") else None
    xs, ts, us = x, t, u
    if cut is not None:
        kx, kt = int(np.floor(len(x) * cut)), int(np.floor(len(t) * cut))
        if len(x) - 2 * kx >= 2:
            xs, us = x[kx:len(x) - kx], us[kx:len(x) - kx]
        if len(t) - 2 * kt >= 2:
            ts, us = t[kt:len(t) - kt], us[:, kt:len(t) - kt]
    tot = us.size
    kw = dict(sample_ratio=c["ratio"], colloc_num=c["colloc"], random_state=c["rs"], cut_quantile=cut, data_ratio=dr,
              spline_sample=opt == "spline", noise_level=0.1 if opt == "noise" else 0.0)
    n = max(1, int(tot * c["ratio"]))
    if c["sample"] is not None:
        n = kw["sample"] = max(1, int(c["sample"] * tot))
    runs = []
    for _ in range(2):
        np.random.seed(c["npseed"])
        runs.append(DiscoverSparseAdapter(ds, **kw).get_data())
    d = runs[0]
    for k in d:
        if isinstance(d[k], np.ndarray):
            arr_eq(runs[1][k], d[k], f"same seed: {k}")
    mp = d["measured_points"]
    tab = table([xs, ts], us)
    if opt == "spline":
        nx_sel = max(1, int(kw["sample"] / len(ts))) if c["sample"] is not None else max(1, int(len(xs) * c["ratio"]))
        n = min(nx_sel, len(xs)) * len(ts)
    eq(len(mp), n, f"number of sampled points ({opt})")
    check(len({tuple(p) for p in mp}) == n, "sampled points repeat")
    vals = np.array([[tab[tuple(p)]] if tuple(p) in tab else [np.nan] for p in mp])
    check(not np.isnan(vals).any(), f"sampled point outside the (cut) grid ({opt})")
    lb, ub = np.array([xs.min(), ts.min()]), np.array([xs.max(), ts.max()])
    arr_eq(np.asarray(d["lb"]), lb, "lb"); arr_eq(np.asarray(d["ub"]), ub, "ub")
    if opt == "noise":
        sd = np.std(vals)
        got = {tuple(p): v for X, U in (("X_u_train", "u_train"), ("X_u_val", "u_val")) for p, v in zip(d[X], d[U][:, 0])}
        eq(len(got), n, "noisy sample: points in the split")
        # the noise is multiplied by the spread of the values: recover it and compare its scale (8 sigma)
        dev = np.array([got[tuple(p)] - v for p, v in zip(mp, vals[:, 0])])
        check(np.abs(dev).max() <= 0.8 * sd + 1e-12, f"noise deviates by {np.abs(dev).max()} for std {0.1 * sd}")
        if n > 8 and sd > 0:
            check(np.abs(dev).max() > 0, "noise_level had no effect")
    else:
        check_split(d, mp, vals, lb, ub, c["colloc"], f"adapter[{opt}]", full=dr is None)
        if dr is not None:
            ntr = int(n * 0.8)
            eq(len(d["X_u_train"]), min(ntr, max(1, int(ntr * dr))), "data_ratio: training points")
            eq(len(d["X_u_val"]), min(n - ntr, max(1, int((n - ntr) * dr))), "data_ratio: validation points")
    g = np.meshgrid(xs, ts, indexing="ij")
    arr_eq(d["X_star"], np.column_stack([g[0].ravel(), g[1].ravel()]), "X_star")
    arr_eq(d["u_star"], us.reshape(-1, 1), "u_star"); eq(tuple(d["shape"]), us.shape, "shape")
    if par:
        eq(list(d["param_names"]), list(par), "param names")
        for a, b in zip(d["param_data"], par.values()):
            if cut is None:
                arr_eq(a, b, "param data")
    ctx.label(opt)
    ctx.nontrivial(us.shape[0] != us.shape[1] and 1 < n < tot)


@st.composite
def nd_adapter(draw):
    s = draw(G.nd_spec(2, 4, 2, 5, maxpar=2))
    return {**s, "sample": draw(st.one_of(st.none(), st.floats(0, 1))),
            "ratio": draw(st.sampled_from([0.05, 0.1, 0.5, 1.0])), "colloc": draw(st.sampled_from([1, 12])),
            "rs": draw(st.integers(0, 999)), "npseed": draw(st.integers(0, 10**6))}


@facet(nd_adapter, quick=600, thorough=15000, shards=2)
def nd_sparse_adapter(s, ctx):
    cd, f, p = G.nd_arrays(s)
    ds = G.nd_dataset(s, (cd, f, p))
    lay = [a for a in s["order"] if a != s["lhs"]] + [s["lhs"]]
    perm = [s["order"].index(a) for a in lay]
    axes = [cd[a].astype(float) for a in lay]
    u = np.transpose(f[s["target"]].astype(float), perm)
    kw = dict(sample_ratio=s["ratio"], colloc_num=s["colloc"], random_state=s["rs"])
    n = max(1, int(u.size * s["ratio"]))
    if s["sample"] is not None:
        n = kw["sample"] = max(1, int(s["sample"] * u.size))
    runs = []
    for _ in range(2):
        np.random.seed(s["npseed"])
        runs.append(DiscoverSparseAdapter(ds, **kw).get_data())
    d = runs[0]
    for k in d:
        if isinstance(d[k], np.ndarray):
            arr_eq(runs[1][k], d[k], f"same seed: {k}")
    tab = table(axes, u)
    mp = d["measured_points"]
    eq(len(mp), n, "number of sampled points"); check(len({tuple(q) for q in mp}) == n, "sampled points repeat")
    check(all(tuple(q) in tab for q in mp), "a sampled point is not on the grid")
    vals = np.array([[tab[tuple(q)]] for q in mp])
    lb, ub = np.array([a.min() for a in axes]), np.array([a.max() for a in axes])
    arr_eq(d["lb"], lb, "lb"); arr_eq(d["ub"], ub, "ub")
    check_split(d, mp, vals, lb, ub, s["colloc"], "N-D adapter")
    lookup(tab, d["X_star"], d["u_star"], "N-D full grid"); eq(len(d["X_star"]), u.size, "full grid size")
    eq(tuple(d["shape"]), u.shape, "shape"); eq(d["n_input_dim"], len(axes) - 1, "n_input_dim")
    arr_eq(np.asarray(d["u_star"]).reshape(d["shape"]), u, "u_star in the reported shape")
    if p:
        eq(list(d["param_names"]), list(p), "param names")
        for a, nme in zip(d["param_data"], p):
            arr_eq(a, np.transpose(p[nme], perm), f"param {nme}")
    ctx.nontrivial(len(set(u.shape)) > 1 and 1 < n < u.size); ctx.label(f"{len(axes)}-D")


@st.composite
def bad(draw):
    return {"k": draw(st.sampled_from(["ratio0", "ratio2", "neg", "too_many", "cut", "cutneg", "dr0", "dr2", "sp0", "notds"])),
            "nx": draw(st.integers(2, 8)), "nt": draw(st.integers(2, 8)), "seed": draw(G.seeds),
            "v": draw(st.floats(0.01, 3))}


@facet(bad, quick=200, thorough=2000)
def rejected_options(c, ctx):
    x, t = G.coords(c["nx"], c["seed"]), G.coords(c["nt"], c["seed"] + 1)
    ds = PDEDataset("e", x=x, t=t, usol=G.values((c["nx"], c["nt"]), c["seed"]))
    v = c["v"]
    kw = {"ratio0": dict(sample_ratio=0.0), "ratio2": dict(sample_ratio=1.0 + v), "neg": dict(sample_ratio=-v),
          "too_many": dict(sample=c["nx"] * c["nt"] + 1 + int(v)), "cut": dict(cut_quantile=0.5 + v),
          "cutneg": dict(cut_quantile=-v), "dr0": dict(data_ratio=0.0), "dr2": dict(data_ratio=1 + v),
          "sp0": dict(spline_sample=True, sample_ratio=1 + v), "notds": {}}[c["k"]]
    ctx.nontrivial(); ctx.label(c["k"])
    raises((ValueError, TypeError), lambda: DiscoverSparseAdapter({"x": x} if c["k"] == "notds" else ds, colloc_num=2, **kw),
           f"sampling options {kw}")
