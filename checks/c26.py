"""C26: the numbers behind every plot are those of the data and the model."""
import triton._C.libtriton  # noqa: F401
import re
from pathlib import Path
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from vlib import discref as R, gens as G, vizmodels as M
from vlib.core import Skip, arr_eq, check, close, eq, facet, raises
from vlib.plots import recording
from vlib.sgaref import quiet

TECHNIQUE = ("property-based testing: every figure is intercepted at the moment it is saved and the coordinates and values held by its artists (curves, point clouds, coloured meshes, images, bars), "
             "together with the plot data returned to the caller, are compared with values computed independently from the generated fields, coordinates and model; contracts are tested against a shape model; "
             "predictions of Discover equations are compared with the exact derivatives of polynomial fields")
RULE = "non-trivial: at least one figure whose data differ from a transposed, shifted or axis-swapped version (non-constant fields on grids of different sizes), or an accepted contract"
ASSUMPTIONS = "matplotlib draws what its artists hold; rasterisation is not examined"


def V():
    import kd.viz
    return kd.viz


def one(shots, n=1):
    eq(len(shots), n, "figures saved")
    return shots[0]


def edges(c):
    """Cell borders matplotlib draws for cell centres c."""
    c = np.asarray(c, float)
    h = np.diff(c) / 2
    return np.concatenate([[c[0] - h[0]], c[:-1] + h, [c[-1] + h[-1]]])


def mesh(m, across, up, field, what, gouraud=False):
    """A coloured mesh with `across` along the horizontal axis and `up` along the vertical one."""
    field = np.asarray(field, float)
    eq(np.size(m["data"]), field.size, f"{what}: number of cells")
    arr_eq(np.reshape(m["data"], field.shape), field, f"{what}: values")
    if min(len(across), len(up)) < 2:
        return
    xs, ys = (np.asarray(across, float), np.asarray(up, float)) if gouraud else (edges(across), edges(up))
    eq(list(m["corners"].shape[:2]), [len(ys), len(xs)], f"{what}: cells")
    close(m["corners"][..., 0], np.broadcast_to(xs, (len(ys), len(xs))), f"{what}: horizontal coordinates", rtol=1e-9, atol=1e-9)
    close(m["corners"][..., 1], np.broadcast_to(ys[:, None], (len(ys), len(xs))), f"{what}: vertical coordinates", rtol=1e-9, atol=1e-9)


def bars(ax, values, bins, what, density=False):
    v = np.asarray(values, float).ravel()
    n, e = np.histogram(v, bins=bins, density=density)
    got = [r for r in ax.rects]
    eq(len(got), len(n), f"{what}: bars")
    close(np.array([r[2] for r in got]), n, f"{what}: heights", rtol=1e-9, atol=1e-12)
    close(np.array([r[0] for r in got]), e[:-1], f"{what}: positions", rtol=1e-9, atol=1e-12)


def points(sc, x, y, what):
    arr_eq(sc["xy"], np.stack([np.ravel(np.asarray(x, float)), np.ravel(np.asarray(y, float))], 1), what)


def curve(l, x, y, what):
    arr_eq(np.asarray(l["x"], float).ravel(), np.asarray(x, float).ravel(), f"{what}: positions")
    arr_eq(np.asarray(l["y"], float).ravel(), np.asarray(y, float).ravel(), f"{what}: values")


def shown(title):
    return float(re.search(r"t\s*[=~]\s*(-?[\d.]+)", title).group(1))


def diagonal(ax, a, b, what):
    lo, hi = min(np.min(a), np.min(b)), max(np.max(a), np.max(b))
    ls = [l for l in ax.lines if "--" == l["style"] and len(l["x"]) > 1]
    check(ls, f"{what}: no reference line")
    arr_eq(ls[0]["x"], ls[0]["y"], f"{what}: reference line y = x")
    close(np.array([np.min(ls[0]["x"]), np.max(ls[0]["x"])]), np.array([lo, hi]), f"{what}: extent of the reference line", rtol=1e-9, atol=1e-12)


# ---------------------------------------------------------------- contracts

SH = st.lists(st.integers(1, 3), min_size=1, max_size=3)


@st.composite
def contracts(draw):
    sh = draw(SH)
    kinds = ["residual", "optimization", "field", "slices", "terms", "parity", "reward"]
    return {"kind": draw(st.sampled_from(kinds)), "shape": sh, "seed": draw(G.seeds), "which": draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4])), "mode": draw(st.integers(0, 3)),
            "nt": draw(st.integers(1, 4)), "optional": draw(st.lists(st.booleans(), min_size=4, max_size=4)), "lists": draw(st.booleans()), "t": draw(st.floats(-0.3, 1.3))}


def spoil(shape, mode):
    """A different shape: longer, shorter, another rank, transposed."""
    s = list(shape)
    if mode == 0:
        return s[:-1] + [s[-1] + 1]
    if mode == 1:
        return s + [1]
    if mode == 2:
        return [s[0] + 2] + s[1:]
    return s[::-1] if s[::-1] != s else [1] + s


@facet(contracts(), quick=1500, thorough=40000)
def shapes(case, ctx):
    """Plot data containers accept exactly consistent shapes, keep what they are given, and take residuals as observed minus predicted."""
    v, c = V(), case
    from kd.viz import _contracts as K
    r = np.random.RandomState(c["seed"])
    give = (lambda a: a.tolist()) if c["lists"] else (lambda a: a)
    sh, k = c["shape"], c["which"]

    def arr(slot):
        return r.standard_normal(spoil(sh, c["mode"]) if slot == k else sh)
    opt = lambda i: c["optional"][i]

    def built(make, bad):
        if bad:
            raises(ValueError, make, f"contradicting shapes in {c['kind']}")
            ctx.label("rejected"); ctx.label(f"{c['kind']} rejected")
            return None
        ctx.nontrivial(); ctx.label(c["kind"])
        return make()
    if c["kind"] == "residual":
        a, p, e, x = arr(1), arr(2), arr(3), r.standard_normal([sh[0] + (c["mode"] + 1 if k == 4 else 0), 2])
        if opt(0):
            bad = a.shape != p.shape or a.shape != e.shape or (opt(1) and k == 4)
            d = built(lambda: K.ResidualPlotData(give(a), give(p), give(e), give(x) if opt(1) else None), bad)
        else:
            ok = a.shape == p.shape
            if not ok:
                try:
                    np.broadcast_shapes(a.shape, p.shape)
                except ValueError:
                    pass
            e = a - p if ok else None
            bad = not ok or (opt(1) and x.shape[0] != a.shape[0])
            d = built(lambda: K.ResidualPlotData.from_actual_predicted(give(a), give(p), input_coordinates=give(x) if opt(1) else None, metadata={"m": 1}), bad)
        if d is not None:
            arr_eq(d.actual, a, "actual"); arr_eq(d.predicted, p, "predicted"); arr_eq(d.residuals, e, "residuals")
            if opt(1):
                arr_eq(d.input_coordinates, x, "coordinates")
            eq(d.metadata, {} if opt(0) else {"m": 1}, "metadata")
    elif c["kind"] == "parity":
        a, p, e = arr(1), arr(2), arr(3)
        if opt(0):
            d = built(lambda: K.ParityPlotData(give(a), give(p), give(e)), not a.size == p.size == e.size)
        else:
            if a.shape != p.shape:
                return
            e = a - p
            d = built(lambda: K.ParityPlotData.from_actual_predicted(give(a), give(p)), False)
        if d is not None:
            arr_eq(d.actual_values, a.ravel(), "actual"); arr_eq(d.predicted_values, p.ravel(), "predicted"); arr_eq(d.residuals, e.ravel(), "residuals")
    elif c["kind"] in ("optimization", "reward"):
        s, o, rest = arr(0), arr(1), [arr(2), arr(3), arr(4)]
        names = ["complexity", "population_size", "unique_modules"] if c["kind"] == "optimization" else ["max_reward", "mean_reward"]
        kw = {n: a for i, (n, a) in enumerate(zip(names, rest)) if opt(i)}
        bad = s.shape != o.shape or any(a.shape != s.shape for a in kw.values())
        cls = K.OptimizationHistoryData if c["kind"] == "optimization" else K.RewardEvolutionData
        d = built(lambda: cls(give(s), give(o), **{n: give(a) for n, a in kw.items()}), bad)
        if d is not None:
            arr_eq(d.steps, s, "steps"); arr_eq(d.objective if c["kind"] == "optimization" else d.best_reward, o, "values")
            for n in names:
                if n in kw:
                    arr_eq(getattr(d, n), kw[n], n)
                else:
                    check(getattr(d, n) is None, f"{n} appeared from nowhere")
    elif c["kind"] == "terms":
        n = int(np.prod(sh))
        lhs = r.standard_normal(sh)
        terms = [(f"a{i}", r.standard_normal(n + (1 + c["mode"] if i + 1 == k else 0)), float(r.normal())) for i in range(sum(c["optional"]))]
        d = built(lambda: K.TermRelationshipData(give(lhs), "u_t", [K.TermContribution(a, give(b), w) for a, b, w in terms]), not terms or any(t[1].size != n for t in terms))
        if d is not None:
            arr_eq(d.lhs_values, lhs.ravel(), "left-hand side")
            eq([(t.label, t.coefficient) for t in d.terms], [(a, w) for a, _, w in terms], "terms")
            for t, (_, b, _) in zip(d.terms, terms):
                arr_eq(t.values, b, "term values")
    else:
        co = [np.sort(r.uniform(0, 1, n)) for n in sh]
        t = np.linspace(0, 1, c["nt"]) if c["nt"] > 1 else np.array([0.5])
        full = sh + [c["nt"]]
        mk = lambda slot: r.standard_normal(spoil(full, c["mode"]) if slot == k else full)
        a, p, e = mk(1), mk(2), mk(3)
        if k == 4:
            co[0] = np.append(co[0], 2.0)
        exp = tuple(len(x) for x in co) + (c["nt"],)
        kw = dict(t_coords=give(t), true_field=give(a), predicted_field=give(p))
        if len(sh) == 1 and opt(0):
            kw["x_coords"] = give(co[0])
        elif len(sh) == 1 and opt(1):
            kw["spatial_coords"] = give(co[0])
        else:
            kw["spatial_coords"] = [give(x) for x in co]
        bad = a.shape != exp or p.shape != exp
        if c["kind"] == "field":
            if opt(2):
                kw["residual_field"] = give(e)
                bad |= e.shape != exp
            d = built(lambda: K.FieldComparisonData(**kw), bad)
            if d is not None:
                arr_eq(d.residual_field, e if opt(2) else a - p, "residual field")
        else:
            s = np.array([c["t"], 0.5])
            kw["slice_times"] = give(s)
            bad |= bool((s < t.min()).any() or (s > t.max()).any())
            d = built(lambda: K.TimeSliceComparisonData(**kw), bad)
            if d is not None:
                arr_eq(d.slice_times, s, "slice times")
        if d is not None:
            eq(d.n_spatial_dims, len(sh), "spatial dimensions")
            for i, x in enumerate(co):
                arr_eq(d.spatial_coords[i], x, f"coordinate {i}")
            arr_eq(d.x_coords, co[0], "x"); arr_eq(d.t_coords, t, "t"); arr_eq(d.true_field, a, "true field"); arr_eq(d.predicted_field, p, "predicted field")
            raises(TypeError, lambda: (K.FieldComparisonData if c["kind"] == "field" else K.TimeSliceComparisonData)(**{q: w for q, w in kw.items() if q not in ("spatial_coords", "x_coords")}), "no coordinates")


def reduce_axes(n, axis, index, sizes):
    """Axes dropped and index taken, in terms of the original axes (list of (axis, index))."""
    left, out, first = list(range(n)), [], True
    while len(left) > 2:
        a = axis if first else -1
        a = max(0, min(a + len(left) if a < 0 else a, len(left) - 1))
        size = sizes[left[a]]
        i = size // 2 if index is None or not first else max(0, min(index, size - 1))
        out.append((left.pop(a), i))
        first = False
    return left, out


def take(field, dropped, left):
    """field[*space, t] with the dropped space axes fixed."""
    sel = [slice(None)] * field.ndim
    for a, i in dropped:
        sel[a] = i
    return np.asarray(field)[tuple(sel)]


@st.composite
def cuts(draw):
    n = draw(st.integers(3, 5))
    return {"sizes": [draw(st.integers(1, 4)) for _ in range(n)], "nt": draw(st.integers(1, 3)), "axis": draw(st.sampled_from([-1, -1, 0, 1, 2, 3, 4, 9, -2, -3, -9])),
            "index": draw(st.sampled_from([None, None, 0, 1, 2, 3, 7, -1, -5])), "seed": draw(G.seeds), "given": draw(st.booleans())}


@facet(cuts(), quick=400, thorough=10000)
def slicing(case, ctx):
    """Reducing higher-dimensional fields to a plane fixes the requested axis at the requested index, then the last axes at their middle, and keeps coordinates with their axes."""
    from kd.viz import _contracts as K
    c = case
    r = np.random.RandomState(c["seed"])
    co = [np.cumsum(r.uniform(0.1, 1, n)) + 10 * i for i, n in enumerate(c["sizes"])]
    full = c["sizes"] + [c["nt"]]
    a, p, e = r.standard_normal(full), r.standard_normal(full), r.standard_normal(full)
    t = np.arange(c["nt"]) * 1.5
    d = K.slice_3d_to_2d(K.FieldComparisonData(co, t, a, p, e if c["given"] else None), slice_axis=c["axis"], slice_index=c["index"])
    left, dropped = reduce_axes(len(co), c["axis"], c["index"], c["sizes"])
    for i, k in enumerate(left):
        arr_eq(d.spatial_coords[i], co[k], f"coordinate {i}")
    eq(d.n_spatial_dims, 2, "dimensions left")
    arr_eq(d.t_coords, t, "times")
    for got, f, w in ((d.true_field, a, "true"), (d.predicted_field, p, "predicted"), (d.residual_field, e if c["given"] else a - p, "residual")):
        arr_eq(got, take(f, dropped, left), w)
    ctx.nontrivial(len(set(c["sizes"])) > 1); ctx.label("axis clamped", not -len(co) <= c["axis"] < len(co)); ctx.label("index clamped", c["index"] is not None and not 0 <= c["index"] < 4)


# ---------------------------------------------------------------- SGA

@st.composite
def sga_cases(draw):
    d = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4]))            # 0: x and t as plain attributes
    names = ["x", "t"] if d == 0 else list(draw(st.permutations(["t", "x", "y", "z", "w"][:d + 1])))
    n = {0: 7, 1: 7, 2: 5, 3: 4, 4: 3}[d]
    return {"d": d, "axes": names, "lhs": draw(st.sampled_from(["t", "t", names[0]])) if d else "t", "shape": [draw(st.integers(2, n)) for _ in names], "seed": draw(G.seeds),
            "kind": draw(st.sampled_from(["field_comparison", "time_slices", "residual", "parity"])), "desc": draw(st.booleans()),
            "slices": draw(st.one_of(st.none(), st.lists(st.floats(-0.4, 1.4), max_size=4))), "count": draw(st.one_of(st.none(), st.integers(-1, 4))),
            "axis": draw(st.sampled_from([None, None, 0, 1, -1, 5])), "index": draw(st.sampled_from([None, None, 0, 1, 9])), "compare": draw(st.sampled_from([None, "original", "metadata"])),
            "cached": draw(st.sampled_from(["full", "flat", "full"])), "bins": draw(st.sampled_from([None, 3, 10])), "grid2d": draw(st.booleans()), "unit": draw(st.sampled_from([1, 1, 1e-3, 1e4]))}


def sga_model(c):
    r = np.random.RandomState(c["seed"])
    shape = tuple(c["shape"])
    names = ("u", "u_origin", "ut", "ut_origin", "right_side_full", "right_side_full_origin")
    x = SimpleNamespace(**{n: r.standard_normal(shape) for n in names})
    co = {}
    for a, n in zip(c["axes"], c["shape"]):
        co[a] = (r.uniform(-3, 3) + np.cumsum(r.uniform(0.1, 1, n))) * c.get("unit", 1)
        if c["desc"] and a != c["lhs"]:
            co[a] = co[a][::-1].copy()
    if c["d"] == 0:
        x.x, x.t = co["x"], co["t"]
        if c["grid2d"]:
            x.x, x.t = np.meshgrid(co["x"], co["t"], indexing="ij")
    else:
        x.axis_order, x.coords_1d, x.lhs_axis = list(c["axes"]), co, c["lhs"]
    from kd.model.kd_sga import KD_SGA
    m = object.__new__(KD_SGA)
    m.context_ = x
    pred = r.standard_normal(shape)
    m.best_equation_details_ = SimpleNamespace(predicted_rhs=pred if c["cached"] == "full" else pred.reshape(-1, 1), terms=())
    return m, x, co, pred


@facet(sga_cases(), quick=130, thorough=4000, shards=2, case_s=60)
def sga(case, ctx):
    """SGA: fields, time slices, residuals and parity of contexts with any number, order and direction of axes."""
    v, c = V(), case
    m, x, co, pred = sga_model(c)
    space = [a for a in c["axes"] if a != c["lhs"]]
    order = [c["axes"].index(a) for a in space] + [c["axes"].index(c["lhs"])]
    put = lambda f: np.moveaxis(f, order, range(len(order)))
    X, T = [co[a] for a in space], co[c["lhs"]]
    opts = {k: c[w] for k, w in (("slice_axis", "axis"), ("slice_index", "index")) if c[w] is not None}
    left, dropped = reduce_axes(len(space), -1 if c["axis"] is None else c["axis"], c["index"], [len(a) for a in X])
    kind = c["kind"]
    ctx.label(kind); ctx.label(f"{kind} {len(space)}-D"); ctx.label("left-hand axis not last", c["axes"][-1] != c["lhs"])
    ctx.nontrivial(len(set(c["shape"])) > 1)
    with recording() as shots, quiet():
        if kind == "field_comparison":
            res = v.plot_field_comparison(m, output_dir="o", **opts)
        elif kind == "time_slices":
            if c["slices"] is not None:
                opts["slice_times"] = [float(T.min() + s * np.ptp(T)) for s in c["slices"]]
            elif c["count"] is not None:
                opts["slice_count"] = c["count"]
            res = v.plot_time_slices(m, output_dir="o", **opts)
        elif kind == "residual":
            res = v.plot_residuals(m, output_dir="o", **({"bins": c["bins"]} if c["bins"] else {}))
        else:
            res = v.plot_parity(m, output_dir="o", **({"compare": c["compare"]} if c["compare"] else {}))
    shot = one(shots)
    eq([str(p) for p in res.paths], [shot.path], "reported file")
    eq(bool(res.warnings), len(space) > 2 and kind != "parity", "experimental warning")
    A = shot.axes
    if kind in ("field_comparison", "time_slices"):
        d = res.metadata["field_comparison_data" if kind == "field_comparison" else "time_slices_data"]
        for i, a in enumerate(X):
            arr_eq(d.spatial_coords[i], a, f"coordinate {space[i]}")
        arr_eq(d.t_coords, T, "times"); arr_eq(d.true_field, put(x.u_origin), "original field"); arr_eq(d.predicted_field, put(x.u), "metadata field")
        f = {"true": take(put(x.u_origin), dropped, left), "meta": take(put(x.u), dropped, left)}
        if kind == "field_comparison":
            s = res.metadata["summary"]
            eq([s["vmin"], s["vmax"]], [min(x.u.min(), x.u_origin.min()), max(x.u.max(), x.u_origin.max())], "range")
            idx = list(range(len(T))) if len(T) <= 3 else [0, len(T) // 2, len(T) - 1]
            times = T[idx]
        else:
            if c["slices"]:
                want = np.clip(opts["slice_times"], T.min(), T.max())
            elif c["slices"] is not None:
                want = T
            else:
                want = np.linspace(T.min(), T.max(), max(1, 3 if c["count"] is None else c["count"]))
            want = np.unique(want)
            idx = [int(np.argmin(np.abs(T - q))) for q in want]
            times = T[idx]
            arr_eq(np.asarray(d.slice_times), times, "times of the slices")
            close(np.asarray(res.metadata["time_slices_summary"]["actual_slice_times"]), times, "times of the slices", rtol=0)
        if len(space) == 1:
            if kind == "field_comparison":
                mesh(A[0].meshes[0], T, X[0], f["meta"], "metadata panel"); mesh(A[1].meshes[0], T, X[0], f["true"], "original panel")
                check("Metadata" in A[0].title and "Original" in A[1].title, f"panel titles {A[0].title!r}, {A[1].title!r}")
            else:
                eq(len(A), len(idx), "panels")
                for ax, i in zip(A, idx):
                    by = {l["label"]: l for l in ax.lines}
                    curve(by["Original"], X[0], f["true"][:, i], f"original at t[{i}]"); curve(by["Metadata"], X[0], f["meta"][:, i], f"metadata at t[{i}]")
                    close(shown(ax.title), T[i], "time in the title", atol=5.1e-4, rtol=0)
        else:
            across, up = X[left[1]], X[left[0]]
            rows = ("meta", "true") if kind == "field_comparison" else ("true", "meta")
            word = {"meta": "Metadata" if kind == "field_comparison" else "Predicted", "true": "Original" if kind == "field_comparison" else "True"}
            for j, row in enumerate(rows):
                for k, i in enumerate(idx):
                    ax = A[j * len(idx) + k]
                    mesh(ax.meshes[0], across, up, f[row][..., i], f"{row} at t[{i}]")
                    check(word[row] in ax.title, f"title {ax.title!r} of the {row} row")
                    close(shown(ax.title), T[i], "time in the title", atol=5.1e-3, rtol=0)
    elif kind == "residual":
        meta, orig = put(x.ut - x.right_side_full), put(x.ut_origin - x.right_side_full_origin)
        bins = c["bins"] or 40
        for name, e in (("metadata", meta), ("original", orig)):
            s = res.metadata["summary"][name]
            close(np.array([s["mean"], s["std"], s["max_abs"]]), np.array([e.mean(), e.std(), np.abs(e).max()]), f"summary of {name}", rtol=1e-9, atol=1e-12)
        d = res.metadata["residual_data"]
        arr_eq(d.residuals, d.actual - d.predicted, "residuals")
        while meta.ndim > 3:
            k = meta.ndim - 2
            meta, orig = (np.take(e, e.shape[k] // 2, axis=k) for e in (meta, orig))
        # three and more space dimensions: the histograms cover the displayed cut
        bars(A[0], meta, max(1, min(bins, meta.size)), "metadata residuals"); bars(A[1], orig, max(1, min(bins, orig.size)), "original residuals")
        if meta.ndim == 3:
            i = meta.shape[-1] // 2
            meta, orig = meta[..., i], orig[..., i]
        for ax, e, name in ((A[2], meta, "Metadata"), (A[3], orig, "Original")):
            im = ax.images[0]
            arr_eq(im["data"], e, f"{name} residual map")
            eq(im["origin"], "lower", "direction of the map")
            check(name in ax.title, f"title {ax.title!r}")
    else:
        y = x.ut_origin if c["compare"] == "original" else x.ut
        d = res.metadata["parity"]
        arr_eq(d.actual_values, y.ravel(), "observed"); arr_eq(d.predicted_values, pred.ravel(), "predicted"); arr_eq(d.residuals, (y - pred).ravel(), "residuals")
        eq(d.metadata["mode"], c["compare"] or "metadata", "mode")
        points(A[0].scatters[0], pred, y, "points"); diagonal(A[0], y, pred, "parity")
        e = (y - pred).ravel()
        s = res.metadata["summary"]
        close(np.array([s["mean_residual"], s["max_abs_residual"], s["rmse"]]), np.array([e.mean(), np.abs(e).max(), np.sqrt((e * e).mean())]), "summary", rtol=1e-9, atol=1e-12)


@st.composite
def sga_fits(draw):
    d = draw(st.sampled_from([0, 1, 2]))
    names = ["x", "t"] if d == 0 else list(draw(st.permutations(["t", "x", "y"][:d + 1])))
    return {"d": d, "axes": names, "lhs": draw(st.sampled_from(["t", "t", names[0]])) if d else "t", "shape": [draw(st.integers(7, 9)) for _ in names], "seed": draw(G.seeds)}


@facet(sga_fits(), quick=12, thorough=200, shards=2, case_s=120)
def sga_fitted(case, ctx):
    """SGA after a real fit: the fields and slices are those of the dataset, the parity plot holds the equation the model reports."""
    from kd.dataset import PDEDataset
    from kd.model.kd_sga import KD_SGA
    v, c = V(), case
    co = {a: np.linspace(0.0, 1 + k, n) for k, (a, n) in enumerate(zip(c["axes"], c["shape"]))}
    u = G.smooth([co[a] for a in c["axes"]], c["seed"]) + 2.0
    if c["d"] == 0:
        ds = PDEDataset("e", x=co["x"], t=co["t"], usol=u)
    else:
        ds = PDEDataset("e", fields_data={"u": u}, coords_1d=co, axis_order=list(c["axes"]), target_field="u", lhs_axis=c["lhs"], x=None, t=None, usol=None)
    m = KD_SGA(sga_run=1, num=4, depth=2, width=2, seed=c["seed"] % 1000)
    with quiet():
        m.fit_dataset(ds)
    space = [a for a in c["axes"] if a != c["lhs"]]
    order = [c["axes"].index(a) for a in space] + [c["axes"].index(c["lhs"])]
    with recording() as shots, quiet():
        f, s, p = v.plot_field_comparison(m, output_dir="o"), v.plot_time_slices(m, output_dir="o"), v.plot_parity(m, output_dir="o")
    for res, key in ((f, "field_comparison_data"), (s, "time_slices_data")):
        eq(res.warnings, [], "warnings")
        d = res.metadata[key]
        close(d.true_field, np.transpose(u, order), f"{key}: field", rtol=1e-12)
        arr_eq(d.t_coords, co[c["lhs"]], f"{key}: times")
        for i, a in enumerate(space):
            arr_eq(d.spatial_coords[i], co[a], f"{key}: {a}")
    eq(p.warnings, [], "warnings")
    x, d = m.context_, p.metadata["parity"]
    arr_eq(d.actual_values, np.ravel(x.ut), "observed left-hand side")
    best = m.best_equation_details_
    if best.predicted_rhs is not None:
        arr_eq(d.predicted_values, np.ravel(best.predicted_rhs), "predicted right-hand side")
    total, known = np.zeros(x.ut.size), True
    cols = np.asarray(x.default_terms).reshape(-1, x.num_default)
    if all(q.tree is None for q in best.terms) and best.terms:
        for q in best.terms:
            total += float(q.coefficient) * cols[:, list(x.default_names).index(q.label)]
        close(d.predicted_values, total, "predicted right-hand side of the reported terms", rtol=1e-6, atol=1e-8)
        ctx.label("only default terms")
    ctx.nontrivial(len(set(c["shape"])) > 1); ctx.label(f"{c['d']}-D"); ctx.label("left-hand axis not t", c["lhs"] != "t")


# ---------------------------------------------------------------- DLGA

@st.composite
def dlga_cases(draw):
    return {"kind": draw(st.sampled_from(["training_curve", "validation_curve", "search_evolution", "optimization", "field_comparison", "time_slices", "residual", "derivative_relationships", "parity"])),
            "seed": draw(G.seeds), "n": draw(st.integers(1, 9)), "gens": draw(st.integers(1, 6)), "modules": draw(st.integers(1, 6)), "nx": draw(st.integers(2, 6)), "nt": draw(st.integers(2, 6)),
            "slices": draw(st.one_of(st.none(), st.lists(st.floats(0, 1), min_size=1, max_size=4))), "num": draw(st.sampled_from([None, 1, 2, 9])), "coords": draw(st.sampled_from([None, "1d", "2d"])),
            "given": draw(st.booleans()), "top": draw(st.sampled_from([None, 1, 2, 9])), "drop": draw(st.sampled_from(["", "", "complexity", "population_size", "unique_modules"])),
            "spatial": draw(st.booleans()), "shape2": draw(st.booleans()), "desc": draw(st.booleans()), "legacy": draw(st.booleans())}


def products(m, k=0):
    """[(label, values, coefficient)] of solution k, from the metadata of the model."""
    out = []
    for genes, w in zip(m.Chrom[k], np.ravel(m.coef[k])):
        v = np.ones(len(next(iter(m.metadata.values()))))
        for g in genes:
            v = v * m.metadata[m.user_operators[g]][:, 0]
        out.append((" * ".join(m.user_operators[g] for g in genes), v, float(w)))
    return out


@facet(dlga_cases(), quick=170, thorough=5000, shards=2, case_s=60)
def dlga(case, ctx):
    """DLGA: loss and search histories, fields, slices, residuals, term relationships and parity, through the API and the module functions."""
    from kd.viz import dlga_viz
    v, c = V(), case
    m = M.dlga(c["seed"], c["gens"], c["n"], c["modules"])
    r = np.random.RandomState(c["seed"] % 10 ** 6)
    kind, legacy = c["kind"], c["legacy"]
    hist = m.evolution_history
    if c["drop"] and not (kind == "search_evolution" or legacy):
        for h in hist:
            h.pop(c["drop"])
    X, T = r.uniform(-3, 3) + np.cumsum(r.uniform(0.1, 1, c["nx"])), r.uniform(-3, 3) + np.cumsum(r.uniform(0.1, 1, c["nt"]))
    if c["desc"]:
        X = X[::-1].copy()
    a, p = r.standard_normal((c["nx"], c["nt"])), r.standard_normal((c["nx"], c["nt"]))
    Path("o").mkdir(exist_ok=True)
    ctx.label(kind + (" (module)" if legacy else "")); ctx.nontrivial()
    with recording() as shots, quiet():
        if kind in ("training_curve", "validation_curve", "search_evolution", "optimization"):
            if legacy:
                {"training_curve": dlga_viz.plot_training_loss, "validation_curve": dlga_viz.plot_validation_loss, "search_evolution": dlga_viz.plot_evolution,
                 "optimization": dlga_viz.plot_optimization_analysis}[kind](m, output_dir="o")
            else:
                res = getattr(v, "plot_" + kind)(m, output_dir="o")
        elif kind == "field_comparison":
            if legacy:
                dlga_viz.plot_pde_comparison(X, T, a, p, output_dir="o")
            else:
                e = r.standard_normal(a.shape) if c["given"] else None
                res = v.plot_field_comparison(m, t_coords=T, true_field=a, predicted_field=p, output_dir="o", residual_field=e, **{"spatial_coords" if c["spatial"] else "x_coords": X})
        elif kind == "time_slices":
            if legacy:
                rel = c["slices"] or [0.0, 1.0]
                dlga_viz.plot_time_slices(X, T, a, p, rel, output_dir="o")
            else:
                want = None if c["slices"] is None else [min(max(float(T[0] + s * np.ptp(T)), T[0]), T[-1]) for s in c["slices"]]
                res = v.plot_time_slices(m, t_coords=T, true_field=a, predicted_field=p, output_dir="o", slice_times=want, **{"spatial_coords" if c["spatial"] else "x_coords": X},
                                         **({"num_slices": c["num"]} if c["num"] else {}))
        elif kind == "residual":
            sh = (c["n"], 2) if c["shape2"] else (c["n"],)
            ya, yp, ye = r.standard_normal(sh), r.standard_normal(sh), r.standard_normal(sh)
            if c["n"] < 2:
                yp = yp + 1
            co = None if c["coords"] is None or (c["shape2"]) else r.standard_normal((c["n"],) if c["coords"] == "1d" else (c["n"], 2))
            if legacy:
                net = SimpleNamespace(Net=lambda q: q[:, :1] * 2 + q[:, 1:])
                xy, y = r.standard_normal((c["n"], 2)).astype(np.float32), r.standard_normal((c["n"], 1)).astype(np.float32)
                dlga_viz.plot_residual_analysis(net, xy, y, a, p, output_dir="o")
            else:
                res = v.plot_residuals(m, actual=ya, predicted=yp, coordinates=co, output_dir="o", **({"residuals": ye} if c["given"] else {}))
        elif kind == "derivative_relationships":
            kw = {"top_n_terms": c["top"]} if c["top"] else {}
            res = (dlga_viz.plot_derivative_relationships if legacy else v.plot_derivative_relationships)(m, output_dir="o", **kw)
        else:
            res = (dlga_viz.plot_pde_parity if legacy else v.plot_parity)(m, output_dir="o")
    shot = one(shots)
    A = shot.axes
    if not legacy:
        eq(res.warnings, [], "warnings")
    fit = [h["fitness"] for h in hist]
    if kind in ("training_curve", "validation_curve"):
        h = m.train_loss_history if kind[0] == "t" else m.val_loss_history
        curve(A[0].lines[0], np.arange(len(h)), h, kind)
        if not legacy:
            eq(res.metadata["points"], len(h), "points")
    elif kind == "search_evolution":
        curve(A[0].lines[0], np.arange(len(hist)), fit, "fitness"); curve(A[1].lines[0], np.arange(len(hist)), [h["complexity"] for h in hist], "complexity")
        check("Fitness" in A[0].title and "Complexity" in A[1].title, "titles")
    elif kind == "optimization":
        steps = np.arange(len(hist))
        if not legacy:
            d, s = res.metadata["optimization"], res.metadata["summary"]
            arr_eq(d.steps, steps, "steps"); arr_eq(d.objective, fit, "objective")
            eq([s["initial_objective"], s["final_objective"], s["best_objective"]], [fit[0], fit[-1], min(fit)], "summary")
            for n in ("complexity", "population_size", "unique_modules"):
                if n == c["drop"]:
                    check(getattr(d, n) is None, f"{n} from nowhere")
                else:
                    arr_eq(getattr(d, n), [h[n] for h in hist], n)
        lab = {l["label"]: l for ax in A for l in ax.lines}
        for n, w in (("population_size", "Population Size"), ("unique_modules", "Unique Modules")):
            if legacy or c["drop"] != n:
                curve(lab[w], steps, [h[n] for h in hist], n)
            else:
                check(w not in lab, f"{w} drawn from nowhere")
        ax = next(q for q in A if q.ylabel in ("Objective", "Fitness Value"))
        curve(ax.lines[0], steps, fit, "objective")
    elif kind == "field_comparison":
        mesh(A[0].meshes[0], T, X, a, "true field", gouraud=True); mesh(A[1].meshes[0], T, X, p, "predicted field", gouraud=True)
        check("Exact" in A[0].title and "Predicted" in A[1].title, "titles")
        if not legacy:
            d = res.metadata["field_comparison"]
            arr_eq(d.true_field, a, "true"); arr_eq(d.predicted_field, p, "predicted"); arr_eq(d.residual_field, a - p if e is None else e, "residual")
    elif kind == "time_slices":
        if legacy:
            idx = [int(s * (len(T) - 1)) for s in rel]
        else:
            d = res.metadata["time_slices"]
            q = np.linspace(T.min(), T.max(), max(1, min(c["num"] or 3, len(T)))) if want is None else np.asarray(want)
            close(np.asarray(d.slice_times), q, "slice times", rtol=1e-12)
            idx = [int(np.argmin(np.abs(T - w))) for w in q]
            eq(list(d.metadata["slice_indices"]), idx, "slice indices")
            arr_eq(d.true_field, a, "true field"); arr_eq(d.predicted_field, p, "predicted field")
        eq(len(A), len(idx), "panels")
        for ax, i in zip(A, idx):
            by = {l["label"]: l for l in ax.lines}
            curve(by["Exact"], X, a[:, i], f"exact at t[{i}]"); curve(by["Prediction"], X, p[:, i], f"prediction at t[{i}]")
            close(shown(ax.title), T[i], "time in the title", atol=5.1e-3, rtol=0)
    elif kind == "residual":
        if legacy:
            points(A[0].scatters[0], xy[:, 1], xy[:, 0], "training points")
            bars(A[1], a - p, 50, "residuals", density=True)
        else:
            d, s = res.metadata["residual"], res.metadata["summary"]
            e = ye if c["given"] else ya - yp
            arr_eq(d.actual, ya, "observed"); arr_eq(d.predicted, yp, "predicted"); arr_eq(d.residuals, e, "residuals")
            if co is not None:
                arr_eq(d.input_coordinates, co, "coordinates")
            close(np.array([s["mean"], s["std"], s["max_abs"]]), np.array([e.mean(), e.std(), np.abs(e).max()]), "summary", rtol=1e-9, atol=1e-12)
            eq(s["count"], e.size, "count")
            points(A[0].scatters[0], ya, yp, "points"); diagonal(A[0], ya, yp, "parity"); bars(A[1], e, 40, "residuals")
    elif kind == "derivative_relationships":
        y = m.metadata["u_t"][:, 0]
        terms = sorted(products(m), key=lambda q: -abs(q[2]))[:c["top"] or 4]
        if not legacy:
            d = res.metadata["term_relationships"]
            arr_eq(d.lhs_values, y, "left-hand side"); eq([q.label for q in d.terms], [q[0] for q in terms], "terms")
            for q, (_, w, k) in zip(d.terms, terms):
                close(q.values, w, f"values of {q.label}", rtol=1e-12); eq(q.coefficient, k, f"coefficient of {q.label}")
        for ax, (label, w, k) in zip(A, terms):
            close(ax.scatters[0]["xy"], np.stack([w, y], 1), f"points of {label}", rtol=1e-9, atol=1e-12)
            check(f"{k:.4f}" in ax.title, f"coefficient {k} in {ax.title!r}")
        eq(sum(bool(ax.scatters) for ax in A), len(terms), "panels")
    else:
        y = m.metadata["u_t"][:, 0]
        z = sum(k * w for _, w, k in products(m))
        if not legacy:
            d, s = res.metadata["parity"], res.metadata["summary"]
            arr_eq(d.actual_values, y, "observed"); close(d.predicted_values, z, "predicted", rtol=1e-9, atol=1e-12); close(d.residuals, y - z, "residuals", rtol=1e-9, atol=1e-9)
            e = y - z
            close(np.array([s["mean_residual"], s["max_abs_residual"], s["rmse"]]), np.array([e.mean(), np.abs(e).max(), np.sqrt((e * e).mean())]), "summary", rtol=1e-9, atol=1e-9)
        close(A[0].scatters[0]["xy"], np.stack([z, y], 1), "points", rtol=1e-9, atol=1e-12); diagonal(A[0], y, z, "parity")


# ---------------------------------------------------------------- Discover

@st.composite
def histories(draw):
    n = draw(st.integers(1, 14))
    return {"seed": draw(G.seeds), "n": n, "kind": draw(st.sampled_from(["search_evolution", "search_evolution", "density"])), "legacy": draw(st.booleans()),
            "epochs": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(-2, n + 1), max_size=4))), "curves": draw(st.sampled_from([None, 1, 2, 3, 20])), "spread": draw(st.sampled_from([0, 1, 1]))}


@facet(histories(), quick=60, thorough=2000, case_s=60)
def discover_history(case, ctx):
    """Discover: best, maximum and mean reward of every iteration; each density curve belongs to the epoch it names."""
    from kd.viz import discover_viz
    v, c = V(), case
    r = np.random.RandomState(c["seed"])
    m = M.discover(c["seed"] % 1000, c["n"])
    m.searcher.r_train = [np.round(r.uniform(-1, 1, r.randint(1, 6)), 1) for _ in range(c["n"])]
    m.searcher.r_history = [r.uniform(0, 1, 8) + 3 * i * c["spread"] for i in range(c["n"])]
    if c["kind"] == "density":
        kw = {}
        if c["epochs"] is not None:
            kw["epoches"] = list(c["epochs"])
        if c["curves"] is not None:
            kw["max_curves"] = c["curves"]
        with recording() as shots, quiet():
            res = v.render(v.VizRequest("density", m, dict(kw, output_dir="o")))
        if c["epochs"] is not None:
            want = [i for i in c["epochs"] if 0 <= i < c["n"]]
        else:
            want = None
        if want == []:
            eq(len(shots), 0, "figures"); check(res.warnings, "no warning")
            return
        ax = one(shots).axes[0]
        if want is None:
            want = [int(l["label"].split()[1]) for l in ax.lines]
            check(want == sorted(set(want)) and all(0 <= i < c["n"] for i in want) and want, f"epochs {want}")
            check(len(want) <= 2 * (c["curves"] or 10) + 1 and (want[-1] == c["n"] - 1), f"epochs {want} of {c['n']}")
            if c["n"] <= max(1, c["curves"] or 10):
                eq(want, list(range(c["n"])), "all epochs")
        eq([l["label"] for l in ax.lines], [f"Epoch {i}" for i in want], "labels")
        eq(list(res.metadata["epoches"]), c["epochs"] if c["epochs"] is not None else want, "epochs reported")
        from scipy.stats import gaussian_kde
        for l, i in zip(ax.lines, want):
            d = np.asarray(m.searcher.r_history[i])
            close(l["y"], gaussian_kde(d)(l["x"]), f"density of epoch {i}", rtol=1e-6, atol=1e-9)
        ctx.nontrivial(len(want) > 1); ctx.label("chosen epochs", c["epochs"] is not None); ctx.label("sampled epochs", len(want) < c["n"] and c["epochs"] is None)
        return
    with recording() as shots, quiet():
        if c["legacy"]:
            discover_viz.plot_evolution(m, output_dir="o")
        else:
            res = v.plot_search_evolution(m, output_dir="o")
    by = {l["label"]: l for l in one(shots).axes[0].lines}
    mx, mean = [max(b) for b in m.searcher.r_train], [sum(b) / len(b) for b in m.searcher.r_train]
    best = [max(mx[:i + 1]) for i in range(c["n"])]
    steps = np.arange(1, c["n"] + 1)
    for name, y in (("Best Reward", best), ("Maximum Reward", mx), ("Average Reward", mean)):
        arr_eq(np.asarray(by[name]["x"]), steps, f"{name}: iterations"); close(by[name]["y"], np.array(y), name, rtol=1e-9, atol=1e-12)
    if not c["legacy"]:
        d = res.metadata["reward_evolution"]
        arr_eq(d.steps, steps, "steps"); arr_eq(d.best_reward, best, "best"); arr_eq(d.max_reward, mx, "max"); close(d.mean_reward, np.array(mean), "mean", rtol=1e-9, atol=1e-12)
    ctx.nontrivial(best != mx); ctx.label("module function", c["legacy"])


class Poly:
    """A polynomial of degree <= 2 in every coordinate, with exact derivatives on the grid."""

    def __init__(self, coef, co):
        self.c, self.co = np.asarray(coef, float), co

    def grid(self):
        out = self.c
        for k, x in enumerate(self.co):
            out = np.moveaxis(np.tensordot(np.stack([x ** j for j in range(out.shape[k])], 1), out, axes=([1], [k])), 0, k)
        return out

    def d(self, k):
        c = np.moveaxis(self.c, k, 0)
        c = np.array([(j + 1) * c[j + 1] for j in range(c.shape[0] - 1)] + [np.zeros_like(c[0])])
        return Poly(np.moveaxis(c, 0, k), self.co)


@st.composite
def disc_cases(draw):
    d = draw(st.sampled_from([0, 0, 2, 2, 3]))
    axes = list(draw(st.permutations({0: ["x", "t"], 2: ["x", "y", "t"], 3: ["x", "y", "z", "t"]}[d])))
    terms = draw(st.lists(st.sampled_from(["u1", "n2", "n3", "mul", "sin", "diff", "diff2", "udiff", "diffsq", "xu", "lap", "neg", "sub", "div", "Sin2"]), min_size=1, max_size=4, unique=True))
    return {"d": d, "axes": axes, "lhs": "t" if d == 0 else draw(st.sampled_from(["t", "t", axes[0]])), "seed": draw(G.seeds), "terms": terms, "which": [draw(st.integers(0, 2)) for _ in terms],
            "shape": [draw(st.integers(6, 9 if d < 3 else 7)) for _ in axes], "desc": [draw(st.booleans()) for _ in axes], "const": draw(st.sampled_from([False, False, True])),
            "kind": draw(st.sampled_from(["residual", "field_comparison", "parity"])), "legacy": draw(st.booleans()), "axis": draw(st.sampled_from([None, 0, 1, 2, 7])),
            "index": draw(st.sampled_from([None, 0, 2, 99])), "model": draw(st.sampled_from(["best_p", "searcher"]))}


@facet(disc_cases(), quick=110, thorough=3500, shards=3, case_s=90)
def discover_fields(case, ctx):
    """Discover: the left-hand side, the equation's right-hand side and their difference on the data grid, at the right coordinates, slices and times."""
    from kd.dataset import PDEDataset
    from kd.model.discover.adapter import DiscoverRegularAdapter
    from kd.model.kd_discover import KD_Discover
    from kd.model.discover.program import Program, from_tokens
    from kd.model.discover.task.task import set_task
    from kd.viz import discover_viz
    v, c = V(), case
    r = np.random.RandomState(c["seed"])
    axes, lhs = c["axes"], c["lhs"]
    space = [a for a in axes if a != lhs]
    if c["d"] == 0:
        axes, space = ["x", "t"], ["x"]
    co = {a: r.uniform(-1, 1) + r.choice([0.1, 0.25, 0.5]) * np.arange(n) for a, n in zip(axes, c["shape"])}
    for a, q in zip(axes, c["desc"]):
        if q and a != lhs:
            co[a] = co[a][::-1].copy()
    P = Poly(r.uniform(-1, 1, [3] * len(axes)) * (r.uniform(size=[3] * len(axes)) < 0.6), [co[a] for a in axes])
    P.c.flat[0] += 3.0
    P.c.flat[1] += 0.5; P.c[tuple([1] + [0] * (len(axes) - 1))] += 0.5
    u = P.grid()
    if c["d"] == 0:
        ds = PDEDataset("e", x=co["x"], t=co["t"], usol=u)
    else:
        ds = PDEDataset("e", x=None, t=None, usol=None, fields_data={"u": u}, coords_1d=co, axis_order=list(axes), target_field="u", lhs_axis=lhs)
    with quiet():
        adapter = DiscoverRegularAdapter(ds)
        data = adapter.get_data()
    dim = data.get("n_input_dim", 1)
    tl = axes.index(lhs)
    order = [axes.index(a) for a in space] + [tl]
    put = lambda f: np.transpose(f, order)                    # (*space, t)
    U = [put(u)]
    D = [put(P.d(axes.index(a)).grid()) for a in space]
    D2 = [put(P.d(axes.index(a)).d(axes.index(a)).grid()) for a in space]
    X = np.meshgrid(*[co[a] for a in space], indexing="ij")
    X = [np.repeat(x[..., None], len(co[lhs]), -1) for x in X]
    diff, diff2, lap = {1: ("diff", "diff2", "diff2"), 2: ("Diff", "Diff2", "lap"), 3: ("Diff_3", "Diff2_3", "lap_3")}[dim]
    made = {}
    for t, k in zip(c["terms"], c["which"]):
        k %= dim
        xk, Uu = f"x{k + 1}", U[0]
        made.update({"u1": {"u1": ("u1",)}, "n2": {"n2": ("n2", ("u1",))}, "n3": {"n3": ("n3", ("u1",))}, "mul": {"mul": ("mul", ("u1",), ("n2", ("u1",)))}, "sin": {"sin": ("sin", ("u1",))},
                     "diff": {"diff": (diff, ("u1",), (xk,))}, "diff2": {"diff2": (diff2, ("u1",), (xk,))}, "udiff": {"udiff": ("mul", ("u1",), (diff, ("u1",), (xk,)))},
                     "diffsq": {"diffsq": ("n2", (diff, ("u1",), (xk,)))}, "xu": {"xu": ("mul", (xk,), ("u1",))}, "lap": {"lap": (lap, ("u1",)) if dim > 1 else ("diff2", ("u1",), ("x1",))},
                     "neg": {}, "sub": {}, "div": {"div": ("div", ("u1",), (xk,))}, "Sin2": {"Sin2": ("sin", (diff2, ("u1",), (xk,)))}}[t])
        val = {"u1": Uu, "n2": Uu ** 2, "n3": Uu ** 3, "mul": Uu ** 3, "sin": np.sin(Uu), "diff": D[k], "diff2": D2[k], "udiff": Uu * D[k], "diffsq": D[k] ** 2, "xu": X[k] * Uu,
               "lap": sum(D2), "div": Uu / (X[k] + 1e-8), "Sin2": np.sin(D2[k])}
        if t in made:
            made[t] = (made[t], val[t])
    if c["d"] == 0 and any(np.abs(x).min() < 0.02 for x in co.values()):
        made.pop("div", None)
    if any(np.abs(x).min() < 0.02 for x in X):
        made.pop("div", None)
    if not made:
        made = {"u1": (("u1",), U[0])}
    if dim == 1 and "lap" in made and "diff2" in made:
        made.pop("lap")
    terms = list(made.values())
    t = terms[0][0]
    for k, (q, _) in enumerate(terms[1:]):
        t = ("add" if k % 2 else "sub", t, q)
    fs = ["add", "sub", "mul", "div", "n2", "n3", "sin"] + sorted({diff, diff2, lap})
    Program.clear_cache(); Program.set_n_objects(1); Program.set_default_terms([]); Program.set_complexity("length"); Program.set_const_optimizer("dummy")
    with quiet():
        set_task(dict(task_type="pde", function_set=fs, dataset="x", metric="pde_reward", metric_params=[0.01], threshold=0, data_noise_level=0, cut_ratio=0.03,
                      add_const=c["const"], spatial_error=False, max_depth=5, protected=False), data)
        lib = [q.name for q in Program.task.library.tokens]
        p = from_tokens(np.array([lib.index(n) for n in R.prefix(t)], dtype=np.int32))
        p.r_ridge
    if p.invalid or p.w is None:
        ctx.label("invalid")
        return
    w = np.ravel(np.asarray(p.w, float))
    if len(p.STRidge.terms) != len(terms):
        ctx.label("terms merged")
        return
    rhs = sum(a * val for a, (_, val) in zip(w, terms)) + (w[-1] if len(w) > len(terms) else 0.0)
    m = object.__new__(KD_Discover)
    m.dataset_, m.data_class = ds, adapter
    if c["model"] == "best_p":
        m.best_p = [p]
    else:
        m.searcher = SimpleNamespace(best_p=p)
    T, S = co[lhs], [co[a] for a in space]
    opts = {k: c[q] for k, q in (("slice_axis", "axis"), ("slice_index", "index")) if c[q] is not None}
    legacy = c["legacy"] and dim == 1
    kind = c["kind"]
    with recording() as shots, quiet():
        if legacy:
            {"residual": discover_viz.plot_pde_residual_analysis, "field_comparison": discover_viz.plot_field_comparison, "parity": discover_viz.plot_actual_vs_predicted}[kind](m, p, output_dir="o")
        elif kind == "residual":
            res = v.plot_residuals(m, output_dir="o")
        elif kind == "field_comparison":
            res = v.plot_field_comparison(m, output_dir="o", **opts)
        else:
            res = v.plot_parity(m, output_dir="o")
    if not legacy:
        eq([q for q in res.warnings if "experimental" not in q], [], "warnings")
    A = one(shots).axes
    # the data grid may lose points at the ends of the time axis; everything else stays
    raw = np.asarray(data["ut"], float)
    ut = raw if dim == 1 else np.moveaxis(raw, 0, -1)
    nt = ut.shape[-1]
    eq(list(ut.shape[:-1]), [len(s) for s in S], "grid of the left-hand side")
    lo = (len(T) - nt) // 2
    Tt, rhs = T[lo:lo + nt], rhs[..., lo:lo + nt]
    close(ut, put(P.d(tl).grid())[..., lo:lo + nt], "left-hand side of the data", rtol=1e-6, atol=1e-6 * (1 + np.abs(ut).max()))
    tol = dict(rtol=1e-6, atol=1e-7 * (1 + max(np.abs(a * val).max() for a, (_, val) in zip(w, terms))) / min(1.0, min(abs(s[1] - s[0]) for s in S)) ** 2)
    what = f"{p.str_expression}"
    ctx.label(kind + (" (module)" if legacy else "")); ctx.label(f"{dim}-D"); ctx.label("left-hand axis not t", lhs != "t"); ctx.label("descending axis", any(s[0] > s[-1] for s in S)); ctx.label("constant", len(w) > len(terms))
    ctx.nontrivial(len(terms) > 0)
    first = ut.ravel() if dim == 1 else np.moveaxis(ut, -1, 0).ravel()
    pred = rhs.ravel() if dim == 1 else np.moveaxis(rhs, -1, 0).ravel()
    e = ut - rhs
    if kind == "parity":
        if legacy:
            close(A[0].scatters[0]["xy"], np.stack([first, pred], 1), f"points for {what}", **tol)
            return
        d = res.metadata["parity"]
        arr_eq(d.actual_values, first, "observed"); close(d.predicted_values, pred, f"predicted by {what}", **tol); arr_eq(d.residuals, d.actual_values - d.predicted_values, "residuals")
        points(A[0].scatters[0], d.predicted_values, d.actual_values, "points"); diagonal(A[0], d.actual_values, d.predicted_values, "parity")
    elif kind == "residual":
        if not legacy:
            d, s = res.metadata["residual"], res.metadata["summary"]
            arr_eq(d.actual, first, "observed"); close(d.predicted, pred, f"predicted by {what}", **tol); arr_eq(d.residuals, d.actual - d.predicted, "residuals")
            close(np.array([s["mean"], s["std"], s["max_abs"]]), np.array([d.residuals.mean(), d.residuals.std(), np.abs(d.residuals).max()]), "summary", rtol=1e-6, atol=1e-9)
            eq(s["count"], e.size, "count")
        if dim == 1:
            xx, tt = np.meshgrid(S[0], Tt, indexing="ij")
            if not legacy:
                close(d.input_coordinates, np.stack([xx.ravel(), tt.ravel()], 1), "coordinates of the residuals", rtol=1e-9, atol=1e-9)
            close(A[0].scatters[0]["xy"], np.stack([tt.ravel(), xx.ravel()], 1), "points", rtol=1e-9, atol=1e-9)
            if not legacy:
                bars(A[1], d.residuals, 40, "residuals", density=True)
        else:
            i = nt // 2
            q, left = e[..., i], list(S)
            while q.ndim > 2:
                q, left = np.take(q, q.shape[-1] // 2, axis=-1), left[:-1]
            g = A[0].meshes[0]
            close(np.reshape(g["data"], q.shape), q, f"residual map of {what}", **tol)
            mesh(dict(g, data=q), left[1], left[0], q, "residual map")
            close(shown(A[0].title), Tt[i], "time in the title", atol=5.1e-3, rtol=0)
            bars(A[1], d.residuals, 40, "residuals", density=True)
    else:
        if not legacy:
            d = res.metadata["field_comparison"]
            arr_eq(d.true_field, ut, "observed field"); close(d.predicted_field, rhs, f"field predicted by {what}", **tol)
            close(d.t_coords, Tt, "times", rtol=1e-9, atol=1e-9)
            for k, s in enumerate(S):
                close(d.spatial_coords[k], s, f"coordinate {space[k]}", rtol=1e-9, atol=1e-9)
        if dim == 1:
            for ax, f in ((A[0], ut), (A[1], rhs)):
                g = ax.meshes[0]
                close(np.reshape(g["data"], f.shape), f, f"{ax.title} of {what}", **tol)
                mesh(dict(g, data=f), Tt, S[0], f, ax.title, gouraud=legacy)
            check("True" in A[0].title and "Predicted" in A[1].title, "titles")
        else:
            left, dropped = reduce_axes(dim, -1 if c["axis"] is None else c["axis"], c["index"], [len(s) for s in S])
            idx = list(range(nt)) if nt <= 3 else [0, nt // 2, nt - 1]
            for j, f in enumerate((ut, rhs)):
                f = take(f, dropped, left)
                for k, i in enumerate(idx):
                    ax = A[j * len(idx) + k]
                    g = ax.meshes[0]
                    q = f[..., i]
                    close(np.reshape(g["data"], q.shape), q, f"{ax.title} of {what}", **tol)
                    mesh(dict(g, data=q), S[left[1]], S[left[0]], q, ax.title)
                    check(("True", "Predicted")[j] in ax.title, f"title {ax.title!r}")
                    close(shown(ax.title), Tt[i], "time in the title", atol=5.1e-3, rtol=0)


# ---------------------------------------------------------------- Discover on scattered points

@st.composite
def spr_cases(draw):
    return {"d": draw(st.sampled_from([1, 1, 2, 3])), "n": draw(st.integers(12, 60)), "seed": draw(G.seeds), "kind": draw(st.sampled_from(["spr_residual", "spr_field_comparison", "spr_field_comparison"])),
            "legacy": draw(st.sampled_from(["", "", "residual", "parity", "field"])), "cache": draw(st.booleans())}


@facet(spr_cases(), quick=40, thorough=1200, case_s=90)
def discover_spr(case, ctx):
    """Discover on scattered points: observed and predicted values with their own coordinates; interpolated fields reproduce linear fields inside the sampled region."""
    import torch
    from kd.model.discover.program import Program
    from kd.model.kd_discover import KD_Discover
    from kd.viz import discover_viz
    v, c = V(), case
    r = np.random.RandomState(c["seed"])
    n, d = c["n"], c["d"]
    S = [r.uniform(-1, 2, n) * (k + 1) for k in range(d)]
    T = r.uniform(3, 5, n)
    wa, wp = r.uniform(-2, 2, d + 2), r.uniform(-2, 2, d + 2)
    lin = lambda w, s, t: w[0] + sum(q * x for q, x in zip(w[1:], s)) + w[-1] * t
    if d > 1:                                                  # a field that depends on the two displayed coordinates only
        wa[-1] = wp[-1] = 0.0
        wa[3:-1] = wp[3:-1] = 0.0
    edges = np.linspace(T.min(), T.max(), 6)
    if d > 1:                                                  # ... with its own values in each of the five time bins
        height = r.uniform(-1, 1, 5)
        lin0 = lin
        lin = lambda w, s, t: lin0(w, s, 0.0) * (1 + height[np.clip(np.searchsorted(edges, t, side="right") - 1, 0, 4)])
    y, yp = lin(wa, S, T), lin(wp, S, T)
    task = SimpleNamespace(ut=y.reshape(-1, 1), x=[torch.tensor(s).reshape(-1, 1) for s in S], t=torch.tensor(T).reshape(-1, 1))
    if c["cache"]:
        task.ut_cache, task.ut = [task.ut], None
        task.reset_ut = lambda i: setattr(task, "ut", task.ut_cache[i])
    p = SimpleNamespace(r_ridge=0.5, y_hat_rhs=yp.reshape(-1, 1), Theta=np.ones((n, 1)), w=[1.0])
    m = object.__new__(KD_Discover)
    m.searcher = SimpleNamespace(best_p=p)
    old = Program.task
    Program.task = task
    legacy = c["legacy"] if d == 1 else ""
    try:
        with recording() as shots, quiet():
            if legacy:
                {"residual": discover_viz.plot_spr_residual_analysis, "parity": discover_viz.plot_spr_actual_vs_predicted, "field": discover_viz.plot_spr_field_comparison}[legacy](m, p, output_dir="o")
            else:
                res = v.render(v.VizRequest(c["kind"], m, {"output_dir": "o"}))
    finally:
        Program.task = old
    A = one(shots).axes
    ctx.nontrivial(); ctx.label(f"module {legacy}" if legacy else c["kind"]); ctx.label(f"{d}-D")
    scale = max(np.abs(y).max(), np.abs(yp).max())

    def inside(data, gx, gt, w, what, mirror=False):
        """data[i, j] at (gx[i], gt[j]): the linear field, wherever the interpolation has a value."""
        from scipy.spatial import Delaunay
        q = np.stack(np.meshgrid(gx, gt, indexing="ij"), -1)
        h = Delaunay(np.stack([S[0], T], 1)).find_simplex(q.reshape(-1, 2)).reshape(q.shape[:2]) >= 0
        core = h.copy()
        core[1:] &= h[:-1]; core[:-1] &= h[1:]; core[:, 1:] &= h[:, :-1]; core[:, :-1] &= h[:, 1:]
        close(np.where(core, data, 0), np.where(core, lin(w, [q[..., 0]], q[..., 1]), 0), what, rtol=0, atol=2e-3 * scale)
        return core.sum()
    if legacy == "residual":
        points(A[0].scatters[0], T, S[0], "points"); bars(A[1], y - yp, 50, "residuals", density=True)
    elif legacy == "parity":
        points(A[0].scatters[0], y, yp, "points")
    elif legacy == "field":
        for ax, w, name in ((A[0], wa, "true"), (A[1], wp, "predicted")):
            im = ax.images[0]
            eq(im["origin"], "lower", "direction")
            close(np.array(im["extent"]), np.array([T.min(), T.max(), S[0].min(), S[0].max()]), "extent", rtol=1e-9)
            eq((ax.xlabel, A[0].ylabel), ("Time", "Space"), "axis labels")
            inside(im["data"], np.linspace(S[0].min(), S[0].max(), im["data"].shape[0]), np.linspace(T.min(), T.max(), im["data"].shape[1]), w, f"{name} field")
    elif c["kind"] == "spr_residual":
        eq(res.warnings, [], "warnings")
        q = res.metadata["residual"]
        arr_eq(q.actual, y, "observed"); arr_eq(q.predicted, yp, "predicted"); arr_eq(q.residuals, y - yp, "residuals"); arr_eq(q.input_coordinates, np.stack(S + [T], 1), "coordinates")
        points(A[0].scatters[0], y, yp, "points"); diagonal(A[0], y, yp, "parity"); bars(A[1], y - yp, 40, "residuals")
    else:
        eq(res.warnings, [], "warnings")
        q = res.metadata["field_comparison"]
        close(np.array([q.x_coords[0], q.x_coords[-1]]), np.array([S[0].min(), S[0].max()]), "range of x", rtol=1e-9)
        if d == 1:
            close(np.array([q.t_coords[0], q.t_coords[-1]]), np.array([T.min(), T.max()]), "range of t", rtol=1e-9)
            inside(q.true_field, q.x_coords, q.t_coords, wa, "true field"); inside(q.predicted_field, q.x_coords, q.t_coords, wp, "predicted field")
            mesh(A[0].meshes[0], q.t_coords, q.x_coords, q.true_field, "true field"); mesh(A[1].meshes[0], q.t_coords, q.x_coords, q.predicted_field, "predicted field")
        else:
            from scipy.spatial import Delaunay
            e = np.linspace(T.min(), T.max(), 6)
            close(q.t_coords, (e[:-1] + e[1:]) / 2, "centres of the time bins", rtol=1e-9)
            g = np.stack(np.meshgrid(q.spatial_coords[0], q.spatial_coords[1], indexing="ij"), -1)
            close(np.array([g[..., 1].min(), g[..., 1].max()]), np.array([S[1].min(), S[1].max()]), "range of y", rtol=1e-9)
            for i in range(5):
                k = (T >= e[i]) & ((T <= e[i + 1]) if i == 4 else (T < e[i + 1]))
                if k.sum() < 4:
                    continue
                tri = Delaunay(np.stack([S[0][k], S[1][k]], 1))
                h = tri.find_simplex(g.reshape(-1, 2)).reshape(g.shape[:2]) >= 0
                core = h.copy()
                core[1:] &= h[:-1]; core[:-1] &= h[1:]; core[:, 1:] &= h[:, :-1]; core[:, :-1] &= h[:, 1:]
                for f, w, name in ((q.true_field, wa, "true"), (q.predicted_field, wp, "predicted")):
                    close(np.where(core, f[..., i], 0), np.where(core, lin(w, [g[..., 0], g[..., 1]], np.full(g.shape[:2], q.t_coords[i])), 0), f"{name} field in bin {i}", rtol=0, atol=2e-3 * scale)
            for j, f in enumerate((q.true_field, q.predicted_field)):
                for k, i in enumerate([0, 2, 4]):
                    mesh(A[3 * j + k].meshes[0], q.spatial_coords[1], q.spatial_coords[0], f[..., i], f"panel {j},{k}")
                    close(shown(A[3 * j + k].title), q.t_coords[i], "time in the title", atol=5.1e-3, rtol=0)


@st.composite
def spr_runs(draw):
    one_ = lambda: {"dim": draw(st.sampled_from([1, 1, 2])), "n": draw(st.integers(5, 7)), "seed": draw(st.integers(0, 999)), "data": draw(G.seeds), "iters": draw(st.sampled_from([1, 2]))}
    a = one_()
    b = draw(st.sampled_from([None, "same size", "other", "built only", "grid"]))
    return {"a": a, "b": b, "o": {**one_(), **({"dim": a["dim"], "n": a["n"]} if b == "same size" else {})}}


def spr_model(c, train=True, grid=False):
    """(model, result) of a short physics-informed (or grid) search."""
    from kd.dataset import PDEDataset
    from kd.model.kd_discover import KD_Discover, KD_Discover_SPR
    n, dim = c["n"], c["dim"]
    axes = [np.linspace(0.5, 2, n)] * dim + [np.linspace(0, 1, n)]
    u = G.smooth(axes, c["data"])
    names = ["x", "y"][:dim] + ["t"]
    ds = PDEDataset("ds", x=axes[0], t=axes[1], usol=u) if dim == 1 else \
        PDEDataset("ds", fields_data={"u": u}, coords_1d=dict(zip(names, axes)), axis_order=names, target_field="u", lhs_axis="t")
    conf = {"training": {"verbose": False, "debug": 0, "n_samples": 20, "batch_size": 20, "early_stopping": False, "stability_selection": False}, "controller": {"max_length": 20, "num_units": 8, "attention": False},
            "pinn": {"number_layer": 2, "n_hidden": 4, "pinn_epoch": 4, "duration": 3, "coll_data": 20, "iter_num": c["iters"]}, "prior": {"length": {"min_": 3, "max_": 20, "on": True}}}
    if grid:
        conf.pop("pinn")
        m = KD_Discover(out_path=None, config_out=conf, n_iterations=1, n_samples_per_batch=20, seed=c["seed"])
        m.import_dataset(ds)
        return m, m.train(n_epochs=1, verbose=False)
    m = KD_Discover_SPR(out_path="run/r.csv", config_out=conf, n_iterations=1, n_samples_per_batch=20, seed=c["seed"])
    m.import_dataset(ds, sample_ratio=0.5, colloc_num=15, random_state=c["seed"] % 7)
    setup = m.setup

    def quick_setup():
        setup()
        m.denoise_pinn.pretrain_epoch = 5
    m.setup = quick_setup
    return m, m.train(n_epochs=1, verbose=False) if train else None


@facet(spr_runs(), quick=10, thorough=160, shards=3, case_s=200)
def discover_spr_fitted(case, ctx):
    """Physics-informed Discover after a real run: every plot shows the equation the run reported and the data it was fitted on, whatever was built or run since."""
    from kd.model.discover.program import Program
    from kd.viz import discover_viz
    from kd.viz.discover_eq2latex import discover_program_to_latex
    v, c = V(), case
    try:
        with quiet():
            m, res = spr_model(c["a"])
            p = res["program"]
            ut = np.array(Program.task.ut, float).reshape(-1)
    except (ValueError, TypeError, IndexError, AttributeError) as x:
        if "NoneType" in str(x) or "zero-size" in str(x):
            raise Skip("nothing found")
        raise
    if p.invalid or p.y_hat_rhs is None or p.w is None:
        raise Skip("no valid equation")
    task = Program.task
    pts = np.concatenate([np.array(a.detach()) for a in task.x] + [np.array(task.t.detach())], axis=1)
    yh = np.array(p.y_hat_rhs, float).reshape(-1)
    own = [np.asarray(p.Theta, float).reshape(len(yh), -1), np.asarray(p.w, float).reshape(-1)]
    rhs = own[0] @ own[1][:own[0].shape[1]] + (own[1][-1] if len(own[1]) == own[0].shape[1] + 1 else 0)
    close(yh, rhs, "prediction of the reported equation", rtol=1e-5, atol=1e-6 * (1 + np.abs(own[0] * own[1][:own[0].shape[1]]).max()))
    dim = c["a"]["dim"]
    axis = dict(lhs_axis="t", axis_names=["x", "y"][:dim])
    with quiet():
        tex = discover_program_to_latex(p, notation="subscript", **axis)
        if c["b"]:
            try:
                spr_model(c["o"], train=c["b"] != "built only", grid=c["b"] == "grid")
            except (ValueError, TypeError, IndexError, AttributeError) as x:
                if not ("NoneType" in str(x) or "zero-size" in str(x)):
                    raise
    with recording() as shots, quiet():
        r1 = v.render(v.VizRequest("spr_residual", m, {"output_dir": "o"}))
        eq(r1.warnings, [], "warnings")
        f = discover_viz._calculate_pinn_fields(m, p)
        discover_viz.plot_spr_actual_vs_predicted(m, p, output_dir="o")
    q = r1.metadata["residual"]
    close(np.asarray(q.input_coordinates, float), pts, "coordinates of the residuals", rtol=1e-6)
    close(q.actual, ut, "observed time derivative", rtol=1e-6)
    close(q.predicted, yh, "prediction of the reported equation in the residual plot", rtol=1e-6)
    close(q.residuals, ut - yh, "residuals", rtol=1e-5, atol=1e-6 * np.abs(ut).max())
    points(shots[0].axes[0].scatters[0], ut, yh, "points of the residual plot")
    points(shots[1].axes[0].scatters[0], ut, yh, "points of the parity plot")
    close(f["residual"], ut - yh, "residuals of the module function", rtol=1e-5, atol=1e-6 * np.abs(ut).max())
    with quiet():
        r2 = v.render(v.VizRequest("equation", m, {"output_dir": "o"}))
    if not r2.warnings:
        bare = lambda t: re.sub(r"_\{(\w)\}", r"_\1", t)
        eq(bare(r2.metadata["latex"]), bare(tex), "equation shown after the run")
    ctx.nontrivial(); ctx.label(str(c["b"])); ctx.label(f"{dim}-D"); ctx.label("rounds", c["a"]["iters"] > 1)


@st.composite
def trees(draw):
    spec = draw(R.all_libs())
    return {"spec": spec, "nums": [draw(R.ints) for _ in range(2)], "legacy": draw(st.booleans())}


@facet(trees(), quick=100, thorough=3000)
def discover_tree(case, ctx):
    """Discover: the drawn tree has exactly the nodes and parent-child links of the best expression, in order, whatever was drawn before."""
    from kd.model.discover.plotter import Plotter
    from kd.model.discover.program import from_tokens
    from kd.model.kd_discover import KD_Discover
    from kd.viz import discover_viz
    v, c = V(), case
    lib = R.library(c["spec"])
    R.set_program(lib)
    names = R.names_of(c["spec"])
    done = []

    class Catch(Plotter):
        def tree_plot(self, program):
            g = super().tree_plot(program)
            done.append(g)
            g.pipe = lambda format=None: b"png"
            g.render = lambda *a, **k: Path(a[0] + ".png").write_bytes(b"png")
            return g
    for nums in c["nums"]:
        seq = [names[i] for i in R.decode(nums, names, max_len=15)]
        p = from_tokens(np.array([names.index(n) for n in seq], dtype=np.int32))
        m = object.__new__(KD_Discover)
        m.searcher = SimpleNamespace(best_p=p, plotter=Catch())
        want = ["const" if n == "const" else n for n in seq]
        with quiet():
            if c["legacy"]:
                discover_viz.plot_expression_tree(m, output_dir="o")
            else:
                res = v.render(v.VizRequest("tree", m, {"output_dir": "o"}))
                eq(res.warnings, [], "warnings")
        body = [b.strip() for b in done[-1].body]
        label, kids, root = {}, {}, None
        for b in body:
            e = re.fullmatch(r'"?([^"]+?)"? -> "?([^"]+?)"?', b)
            n = re.fullmatch(r'"?([^"\[]+?)"? \[label="?([^"]*?)"?\]', b)
            if e:
                kids.setdefault(e[1], []).append(e[2])
            else:
                check(n, f"unreadable line {b!r} of the graph")
                check(n[1] not in label, f"node {n[1]} drawn twice")
                label[n[1]] = n[2]
                root = root or n[1]
        order = []

        def walk(q):
            order.append(label[q])
            got = kids.get(q, [])
            eq(len(got), R.arity(label[q]), f"children of {label[q]}")
            for k in got:
                walk(k)
        walk(root)
        eq(len(label), len(seq), "nodes")
        if "const" not in seq:
            eq(order, want, "expression drawn")
        else:
            eq([a if b != "const" else "const" for a, b in zip(order, want)], want, "expression drawn")
        ctx.nontrivial(len(seq) > 3); ctx.label("repeated tokens", len(set(seq)) < len(seq)); ctx.label("module function", c["legacy"])
