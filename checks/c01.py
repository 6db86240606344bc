"""C01: PDEDataset exposes exactly the grid it was built from."""
import copy

import numpy as np
from hypothesis import strategies as st

from kd.dataset import PDEDataset
from vlib import gens as G
from vlib.core import arr_eq, check, close, eq, facet, raises

TECHNIQUE = ("property-based testing: generated datasets (1-4 axes, any order, shape, dtype, names) compared view by "
             "view with the generating arrays; single-fault corruption of valid inputs must be rejected")
RULE = ("an evaluation counts as non-trivial when the grid has at least two axes of different length (or, for the "
        "rejection facets, when the corrupted input differs from a valid one in exactly one aspect)")


@st.composite
def legacy(draw):
    return {"nx": draw(st.integers(1, 9)), "nt": draw(st.integers(1, 9)), "seed": draw(G.seeds),
            "xk": draw(st.sampled_from(["uniform", "int", "irregular"])),
            "tk": draw(st.sampled_from(["uniform", "int", "irregular"])),
            "uk": draw(st.sampled_from(["normal", "int", "complex", "float32", "zeros"])),
            "form": draw(st.sampled_from(["args", "dict"])),
            "xform": draw(st.sampled_from(["flat", "row", "col", "list"])),
            "tform": draw(st.sampled_from(["flat", "row", "col", "list"])),
            "npar": draw(st.integers(0, 2)),
            "dom": draw(st.booleans()), "epi": draw(st.sampled_from([0.0, 1e-3, 0.5])),
            "i": draw(st.integers(-3, 12)), "j": draw(st.integers(-3, 12)),
            "q": [draw(st.floats(0, 1)) for _ in range(4)]}


def arranged(a, seed):
    """Coordinates may also run downwards (or be listed in any order): the views still describe the same grid."""
    return {0: a[::-1].copy(), 1: a[np.random.RandomState(seed % 1000).permutation(len(a))]}.get(seed % 5, a)


def shaped(a, form):
    return {"flat": a, "row": a.reshape(1, -1), "col": a.reshape(-1, 1), "list": list(map(float, a))}[form]


def make_legacy(c, anyorder=False):
    x, t = G.coords(c["nx"], c["seed"], c["xk"]), G.coords(c["nt"], c["seed"] + 1, c["tk"])
    if anyorder:
        x, t = arranged(x, c["seed"]), arranged(t, c["seed"] // 7)
    u = G.values((c["nx"], c["nt"]), c["seed"] + 2, c["uk"])
    P = {n: G.values(u.shape, c["seed"] + 5 + k) for k, n in enumerate(G.PARAM_NAMES[:c["npar"]])}
    dom = {"x": (float(x[0]), float(x[-1])), "t": (float(t[0]), float(t[-1]))} if c["dom"] else None
    kw = dict(domain=dom, epi=c["epi"], param_fields=P or None)
    if c["form"] == "args":
        ds = PDEDataset("eqn", x=shaped(x, c["xform"]), t=shaped(t, c["tform"]), usol=u, **kw)
    else:
        ds = PDEDataset("eqn", pde_data={"x": shaped(x, c["xform"]), "t": shaped(t, c["tform"]), "usol": u}, **kw)
    return ds, x.astype(float), t.astype(float), np.real(u), P, dom


@facet(legacy, quick=700, thorough=20000, shards=2)
def legacy_views(c, ctx):
    ds, x, t, u, P, dom = make_legacy(c, True)
    nx, nt = u.shape
    ctx.nontrivial(nx != nt)
    ctx.label(c["uk"])
    arr_eq(ds.x, x, "ds.x"); arr_eq(ds.t, t, "ds.t"); arr_eq(ds.usol, u, "ds.usol"); arr_eq(ds.u, u, "ds.u")
    d = ds.get_data()
    eq(sorted(d), ["t", "usol", "x"], "get_data keys")
    for k in d:
        arr_eq(d[k], ds[k], f"get_data[{k}] vs ds[{k}]")
        arr_eq(d[k], {"x": x, "t": t, "usol": u}[k], f"get_data[{k}]")
    eq(tuple(ds.get_size()), (nx, nt), "get_size")
    X, T = np.meshgrid(x, t, indexing="ij")
    pts = np.column_stack([X.ravel(), T.ravel()])
    m = ds.mesh()
    arr_eq(m, pts, "mesh()")
    arr_eq(m[:, 0].reshape(nx, nt), X, "mesh x column"); arr_eq(m[:, 1].reshape(nx, nt), T, "mesh t column")
    X2, T2 = np.meshgrid(x, t, indexing="xy")
    arr_eq(ds.mesh(indexing="xy"), np.column_stack([X2.ravel(), T2.ravel()]), "mesh('xy')")
    for ix in ("ij", "xy"):
        lo, hi = ds.mesh_bounds(indexing=ix)
        arr_eq(lo, np.array([x.min(), t.min()]), "mesh_bounds lower"); arr_eq(hi, np.array([x.max(), t.max()]), "mesh_bounds upper")
    b = ds.get_boundaries()
    eq(sorted(b), ["t", "x"], "boundary axes")
    for k, a in (("x", x), ("t", t)):
        eq((float(b[k][0]), float(b[k][1])), (float(a.min()), float(a.max())), f"boundary {k}")
    eq(ds.get_domain(), dom, "domain"); eq(ds.epi, c["epi"], "epi"); eq(ds.equation_name, "eqn", "equation_name")
    flat = u.ravel()
    for k in range(0, nx * nt, max(1, nx * nt // 7)):
        i, j = divmod(k, nt)
        px, pt, pu = ds.get_datapoint(i, j)
        eq((float(px), float(pt)), (x[i], t[j]), f"datapoint({i},{j}) coordinates")
        eq((float(px), float(pt)), (float(m[k, 0]), float(m[k, 1])), f"mesh row {k} vs datapoint")
        eq(float(pu), float(flat[k]), f"datapoint({i},{j}) value")
    i, j = c["i"], c["j"]
    if 0 <= i < nx and 0 <= j < nt:
        eq(float(ds.get_datapoint(i, j)[2]), float(u[i, j]), "datapoint value")
    else:
        ctx.label("out of range")
        raises(IndexError, lambda: ds.get_datapoint(i, j), f"get_datapoint({i},{j}) on a {nx}x{nt} grid")
    eq(sorted(ds.param_fields), sorted(P), "param names")
    for k in P:
        arr_eq(ds.param_fields[k], P[k], f"param {k}")
    raises(KeyError, lambda: ds["no_such_view"], "ds['no_such_view']")
    raises(ValueError, lambda: ds.get_derivative("q"), "get_derivative('q')")


@facet(legacy, quick=500, thorough=15000)
def ranges(c, ctx):
    """get_range keeps exactly the points inside the requested window (closed or half-open at the top)."""
    ds, x, t, u, _, _ = make_legacy(c)
    q = c["q"]

    def window(a, p, r):
        span = a[-1] - a[0] + 1.0
        lo, hi = sorted((a[0] - 0.5 + p * span, a[0] - 0.5 + r * span))
        if c["seed"] % 3 == 0:   # snap to grid values
            lo, hi = a[int(p * (len(a) - 1))], a[int(r * (len(a) - 1))]
            lo, hi = min(lo, hi), max(lo, hi)
        return float(lo), float(hi)
    xr, tr = window(x, q[0], q[1]), window(t, q[2], q[3])
    r = ds.get_range(xr, tr)
    eq(sorted(r), ["t", "usol", "x"], "get_range keys")

    def inside(a, w):
        half, closed = (a >= w[0]) & (a < w[1]), (a >= w[0]) & (a <= w[1])
        return half, closed
    ok = False
    for xm in inside(x, xr):
        for tm in inside(t, tr):
            ok |= (np.array_equal(r["x"], x[xm]) and np.array_equal(r["t"], t[tm])
                   and np.array_equal(r["usol"], u[np.ix_(xm, tm)]) and r["usol"].shape == (xm.sum(), tm.sum()))
    check(ok, f"get_range{xr, tr} is not the sub-grid inside the window: x={r['x']}, t={r['t']}, usol {r['usol'].shape}")
    ctx.nontrivial(r["usol"].size > 0 and r["usol"].size < u.size and x.size != t.size)


nd = G.nd_spec(1, 4, 1, 6)


@facet(nd, quick=900, thorough=25000, shards=2)
def nd_views(s, ctx):
    cd, f, p = G.nd_arrays(s)
    cd = {a: arranged(v, s["seed"] // (3 + k)) for k, (a, v) in enumerate(sorted(cd.items()))}
    ds = G.nd_dataset(s, (cd, f, p))
    shape = tuple(s["shape"])
    ctx.nontrivial(len(shape) >= 2 and len(set(shape)) > 1)
    ctx.label(f"{len(shape)}-D"); ctx.label("x,t present", "x" in cd and "t" in cd)
    eq(list(ds.axis_order), s["order"], "axis_order"); eq(ds.target_field, s["target"], "target_field")
    eq(ds.lhs_axis, s["lhs"], "lhs_axis")
    eq(sorted(ds.coords_1d), sorted(cd), "axes"); eq(sorted(ds.fields_data), sorted(f), "fields")
    for a in cd:
        arr_eq(ds.coords_1d[a], cd[a], f"coords {a}")
    for a in f:
        arr_eq(ds.fields_data[a], f[a], f"field {a}")
    eq(sorted(ds.param_fields), sorted(p), "params")
    for a in p:
        arr_eq(ds.param_fields[a], p[a], f"param {a}")
    arr_eq(ds.usol, f[s["target"]], "usol is the target field"); arr_eq(ds.u, f[s["target"]], "u is the target field")
    for a in ("x", "t"):
        if a in cd:
            arr_eq(getattr(ds, a), cd[a], f"ds.{a}"); arr_eq(ds[a], cd[a], f"ds[{a!r}]")
        else:
            check(getattr(ds, a) is None, f"ds.{a} exists although the grid has no axis {a}")
    eq(tuple(ds.get_size()), shape, "get_size")
    b = ds.get_boundaries()
    eq(sorted(b), sorted(cd), "boundary axes")
    for a in cd:
        eq((float(b[a][0]), float(b[a][1])), (float(cd[a].min()), float(cd[a].max())), f"boundary {a}")
    d = ds.get_data()
    arr_eq(d["usol"], f[s["target"]], "get_data usol")
    raises(KeyError, lambda: ds["no_such_view"], "ds['no_such_view']")
    if set(s["order"]) == {"x", "t"}:
        check_xt(ds, cd, f[s["target"]], s["order"], ctx)
    elif not {"x", "t"} <= set(cd) or len(shape) != 2:
        ctx.label("not an x/t grid")
        # point and derivative look-ups along x/t have no meaning here: an error, never a value
        for what, fn in (("get_datapoint", lambda: ds.get_datapoint(0, 0)), ("get_derivative", lambda: ds.get_derivative("x"))):
            raises(Exception, fn, f"{what} on axes {s['order']}")


def check_xt(ds, cd, u, order, ctx):
    ctx.label("order " + ",".join(order))
    ctx.nontrivial(cd["x"].size != cd["t"].size)
    ux = u if order == ["x", "t"] else u.T
    x, t = cd["x"], cd["t"]
    m = ds.mesh()
    k = 0
    for i in range(len(x)):
        for j in range(len(t)):
            px, pt, pu = ds.get_datapoint(i, j)
            eq((px, pt, pu), (x[i], t[j], ux[i, j]), f"datapoint({i},{j}), axis order {order}")
            eq((m[k, 0], m[k, 1]), (x[i], t[j]), f"mesh row {k}")
            k += 1
    eq(len(m), k, "mesh length")
    lo, hi = ds.mesh_bounds()
    close(lo, [x.min(), t.min()], "mesh_bounds lower"); close(hi, [x.max(), t.max()], "mesh_bounds upper")
    raises(IndexError, lambda: ds.get_datapoint(len(x), 0), "get_datapoint past the last x")
    raises(IndexError, lambda: ds.get_datapoint(0, len(t)), "get_datapoint past the last t")
    for a in ("x", "t"):
        if len(cd[a]) > 1:
            want = np.gradient(ux.astype(float), cd[a].astype(float), axis=0 if a == "x" else 1)
            close(ds.get_derivative(a), want, f"get_derivative({a})", rtol=1e-5, atol=1e-5)


@facet(G.nd_spec(2, 2, 1, 7, axes=[], need=("x", "t")), quick=300, thorough=8000)
def xt_orders(s, ctx):
    cd, f, p = G.nd_arrays(s)
    check_xt(G.nd_dataset(s, (cd, f, p)), cd, f[s["target"]], s["order"], ctx)


NDBAD = ["no_order", "dup_axis", "missing_coord", "extra_coord", "order_missing", "bad_target", "bad_lhs",
         "field_shape", "transposed", "coord_len", "no_fields", "no_coords", "empty_fields", "param_shape", "param_nan",
         "param_inf", "empty_order", "renamed_axis", "extra_dim"]


@st.composite
def nd_bad(draw):
    s = draw(G.nd_spec(1, 4, 1, 5))
    return {**s, "bad": draw(st.sampled_from(NDBAD)), "k": draw(st.integers(0, 50))}


@facet(nd_bad, quick=900, thorough=20000)
def nd_rejects(s, ctx):
    """Every single contradiction between shapes, axes and names is an error."""
    cd, f, p = G.nd_arrays(s)
    kw = dict(fields_data=dict(f), coords_1d=dict(cd), axis_order=list(s["order"]), target_field=s["target"],
              lhs_axis=s["lhs"], param_fields=dict(p))
    k, order, shape = s["k"], s["order"], tuple(s["shape"])
    ax = order[k % len(order)]
    fn = s["fields"][k % len(s["fields"])]
    b = s["bad"]
    if b == "no_order": kw["axis_order"] = None
    elif b == "dup_axis": kw["axis_order"].insert(k % (len(order) + 1), ax)
    elif b == "missing_coord": del kw["coords_1d"][ax]
    elif b == "extra_coord": kw["coords_1d"]["zz"] = np.arange(3.0)
    elif b == "order_missing": kw["axis_order"].remove(ax)
    elif b == "bad_target": kw["target_field"] = "nope"
    elif b == "bad_lhs": kw["lhs_axis"] = "nope"
    elif b == "field_shape":
        i = k % len(shape)
        kw["fields_data"][fn] = np.zeros(shape[:i] + (shape[i] + 1,) + shape[i + 1:])
    elif b == "transposed":
        if len(set(shape)) == 1:
            ctx.label("square: not a contradiction"); return
        perm = list(range(len(shape)))
        perm = perm[1:] + perm[:1]
        if tuple(shape[i] for i in perm) == shape:
            return
        kw["fields_data"] = {n: np.transpose(a, perm) for n, a in f.items()}
    elif b == "coord_len": kw["coords_1d"][ax] = np.append(cd[ax], cd[ax][-1] + 1.0)
    elif b == "no_fields": kw["fields_data"] = None
    elif b == "no_coords": kw["coords_1d"] = None
    elif b == "empty_fields": kw["fields_data"] = {}
    elif b == "empty_order": kw["axis_order"] = []
    elif b == "renamed_axis": kw["axis_order"][k % len(order)] = "zz"
    elif b == "extra_dim": kw["fields_data"] = {n: a[None] for n, a in f.items()}
    elif b == "param_shape": kw["param_fields"]["bad"] = np.zeros(shape + (1,)) if k % 2 else np.zeros(shape[:-1] + (shape[-1] + 1,))
    elif b in ("param_nan", "param_inf"):
        a = np.ones(shape); a.flat[k % a.size] = np.nan if b == "param_nan" else np.inf
        kw["param_fields"]["bad"] = a
    ctx.nontrivial(); ctx.label(b)
    raises((ValueError, KeyError, TypeError), lambda: PDEDataset("ds", **kw), f"contradictory dataset ({b})")


LBAD = ["short_x", "long_t", "transposed", "usol_1d", "nothing", "only_x", "only_u", "x_none", "param_shape", "param_nan", "usol_3d"]


@st.composite
def lbad(draw):
    return {**draw(legacy()), "bad": draw(st.sampled_from(LBAD)), "k": draw(st.integers(0, 50))}


@facet(lbad, quick=400, thorough=8000)
def legacy_rejects(c, ctx):
    x, t = G.coords(c["nx"], c["seed"], c["xk"]), G.coords(c["nt"], c["seed"] + 1, c["tk"])
    u = G.values((c["nx"], c["nt"]), c["seed"] + 2, c["uk"])
    d = {"x": x, "t": t, "usol": u}
    par, b = None, c["bad"]
    if b == "short_x": d["x"] = np.append(x, 99.0) if len(x) == 1 else x[:-1]
    elif b == "long_t": d["t"] = np.append(t, 1e3)
    elif b == "transposed":
        if c["nx"] == c["nt"]:
            return
        d["usol"] = u.T
    elif b == "usol_1d": d["usol"] = u.ravel()
    elif b == "usol_3d": d["usol"] = u[..., None]
    elif b == "nothing": d = {}
    elif b == "only_x": d = {"x": x}
    elif b == "only_u": d = {"usol": u}
    elif b == "x_none": del d["x"]
    elif b == "param_shape": par = {"nu": np.zeros((c["nx"] + 1, c["nt"]))}
    elif b == "param_nan":
        a = np.ones(u.shape); a.flat[c["k"] % a.size] = np.nan
        par = {"nu": a}
    ctx.nontrivial(); ctx.label(b)
    if c["form"] == "args" or not d:
        raises((ValueError, TypeError), lambda: PDEDataset("eqn", param_fields=par, **d), f"contradictory dataset ({b})")
    else:
        raises((ValueError, TypeError), lambda: PDEDataset("eqn", pde_data=d, param_fields=par), f"contradictory dataset ({b})")
