"""C06: finite-difference operators."""
import triton._C.libtriton  # noqa: F401
import numpy as np
from hypothesis import strategies as st

from kd.model.discover.functions import function_map
from kd.model.discover.task.pde import utils_fd as D
from kd.model.discover.task.pde import utils_v1 as V1
from kd.model.sga.sgapde import PDE_find as S
from kd.utils.solver import FiniteDifferenceOperator as FDO
from kd.utils.utils_fd import FiniteDiff as KFD
from vlib import gens as G
from vlib.core import check, close, arr_eq, facet, raises, Frozen

TECHNIQUE = ("property-based testing: every derivative operator of every solver on random grids, axes, spacings and memory "
             "layouts; oracle is the analytic derivative of random polynomials of the degree the stencil resolves, plus "
             "linearity, scaling, line-by-line independence and a trigonometric oracle where the operator is periodic")
RULE = "non-trivial: the polynomial has the highest degree resolved and the grid has more points than the stencil needs"


def col(x, shape2):
    return x.reshape(-1, 1) if shape2 else x


# name -> (call(u, x, axis, c), allowed ndim, allowed axes, order, degree exact everywhere, degree exact inside, margin, min n)
OPS = {}


def reg(name, call, ndims, axes, order, deg, ideg=None, margin=0, minn=3, periodic=False):
    OPS[name] = dict(call=call, ndims=ndims, axes=axes, order=order, deg=deg, ideg=ideg or deg, margin=margin, minn=minn,
                     periodic=periodic)


dx = lambda x: x[1] - x[0]
reg("sga.FiniteDiff", lambda u, x, a, c: S.FiniteDiff(u, dx(x)), [1], [0], 1, 2, minn=3)
reg("sga.FiniteDiff2", lambda u, x, a, c: S.FiniteDiff2(u, dx(x)), [1], [0], 2, 3, minn=4)
reg("sga.Diff", lambda u, x, a, c: S.Diff(u, dx(x), a), [1, 2, 3, 4], [0, 1, 2, 3], 1, 2, minn=3)
reg("sga.Diff2", lambda u, x, a, c: S.Diff2(u, dx(x), a), [1, 2, 3, 4], [0, 1, 2, 3], 2, 3, minn=4)
reg("sga.Diff[xt]", lambda u, x, a, c: S.Diff(u, dx(x), "xt"[a]), [2], [0, 1], 1, 2, minn=3)
reg("sga.Diff2[xt]", lambda u, x, a, c: S.Diff2(u, dx(x), "xt"[a]), [2], [0, 1], 2, 3, minn=4)
for k, (d, i, m, n) in {1: (2, 2, 0, 3), 2: (3, 3, 0, 4), 3: (2, 4, 2, 5), 4: (3, 5, 2, 5)}.items():
    reg(f"kd.FiniteDiff{k}", lambda u, x, a, c, k=k: KFD(u, dx(x), order=k), [1], [0], k, d, i, m, n)
for k, (d, i, m, n) in {1: (2, 2, 0, 3), 2: (3, 3, 0, 4), 3: (3, 4, 2, 4), 4: (3, 5, 2, 4)}.items():
    reg(f"FDO{k}", lambda u, x, a, c, k=k: FDO(u, dx(x), 1).compute(k), [2], [0], k, d, i, m, n)
    reg(f"FDO.diff{k}", lambda u, x, a, c, k=k: FDO.diff(u, dx(x), order=k), [2], [0], k, d, i, m, n)
    f = "Diff" + ("" if k == 1 else str(k))
    t = "diff" + ("" if k == 1 else str(k))
    reg(f"discover.{f}", lambda u, x, a, c, f=f: getattr(D, f)(u, col(x, c), 1), [2], [0], k, d, i, m, n)
    reg(f"v1.{f}", lambda u, x, a, c, f=f: getattr(V1, f)(u, col(x, c), 1), [2], [0], k, d, i, m, n)
    reg(f"token.{t}", lambda u, x, a, c, t=t: function_map[t].function(u, col(x, c), 1), [2], [0], k, d, i, m, n)
reg("discover.FiniteDiff", lambda u, x, a, c: D.FiniteDiff(u, dx(x)), [1], [0], 1, 2, minn=3)
reg("discover.FiniteDiff2", lambda u, x, a, c: D.FiniteDiff2(u, dx(x)), [1], [0], 2, 3, minn=4)
reg("v1.FiniteDiff", lambda u, x, a, c: V1.FiniteDiff(u, dx(x)), [1], [0], 1, 2, minn=3)
for nm, mod in (("discover", D.Diff_2), ("token", function_map["Diff"].function)):
    reg(f"{nm}.Diff_2", lambda u, x, a, c, f=mod: f(u, col(x, c), a), [3], [1, 2], 1, 2, margin=1, minn=3, periodic=True)
for nm, mod in (("discover", D.Diff2_2), ("token", function_map["Diff2"].function)):
    reg(f"{nm}.Diff2_2", lambda u, x, a, c, f=mod: f(u, col(x, c), a), [3], [1, 2], 2, 3, margin=1, minn=3, periodic=True)
for nm, mod in (("discover", D.Diff_3), ("token", function_map["Diff_3"].function)):
    reg(f"{nm}.Diff_3", lambda u, x, a, c, f=mod: f(u, col(x, c), a), [4], [1, 2, 3], 1, 2, minn=3)
for nm, mod in (("discover", D.Diff2_3), ("token", function_map["Diff2_3"].function)):
    reg(f"{nm}.Diff2_3", lambda u, x, a, c, f=mod: f(u, col(x, c), a), [4], [1, 2, 3], 2, 3, minn=4)


@st.composite
def grid(draw):
    op = draw(st.sampled_from(sorted(OPS)))
    o = OPS[op]
    nd = draw(st.sampled_from(o["ndims"]))
    ax = draw(st.sampled_from([a for a in o["axes"] if a < nd]))
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    shape[ax] = draw(st.integers(o["minn"], 12))
    return {"op": op, "shape": shape, "axis": ax, "seed": draw(G.seeds), "col": draw(st.booleans()),
            "layout": draw(st.sampled_from(["C", "F", "view", "neg"])), "deg": draw(st.integers(0, 5)),
            "x0": draw(st.sampled_from([0.0, -1.5, 2.0])), "h": draw(st.sampled_from([1.0, 0.5, 0.1, 0.01, 3.0])),
            "dt": draw(st.sampled_from(["f8", "f8", "f8", "f4", "i8"]))}


def lay(u, kind):
    if kind == "F":
        return np.asfortranarray(u)
    if kind == "view":
        b = np.full(tuple(2 * s for s in u.shape), 9e9)
        b = b.astype(u.dtype)
        sl = tuple(slice(None, None, 2) for _ in u.shape)
        b[sl] = u
        return b[sl]
    if kind == "neg":
        sl = tuple(slice(None, None, -1) for _ in u.shape)
        return u[sl].copy()[sl]
    return np.ascontiguousarray(u)


def bc(x, ax, nd):
    s = [1] * nd
    s[ax] = -1
    return x.reshape(s)


def along(op, c, u, x):
    return OPS[op]["call"](u, x, c["axis"], c["col"])


def xgrid(c):
    return c["x0"] + c["h"] * np.arange(c["shape"][c["axis"]])


@facet(grid(), quick=1500, thorough=40000, shards=4)
def polynomial(c, ctx):
    """Exactness on polynomials along the axis whose coefficients vary freely over the other axes."""
    o, x, ax = OPS[c["op"]], xgrid(c), c["axis"]
    nd, n = len(c["shape"]), c["shape"][ax]
    deg = min(c["deg"], o["ideg"])
    r = np.random.RandomState(c["seed"])
    xs = np.arange(n, dtype=float)                 # unit steps: keeps rounding error relative to the stencil scale
    oshape = list(c["shape"]); oshape[ax] = 1
    u, du = np.zeros(c["shape"]), np.zeros(c["shape"])
    for k in range(deg + 1):
        a = r.randint(-3, 4, oshape).astype(float)
        u = u + a * bc(xs ** k, ax, nd)
        if k >= o["order"]:
            f = np.prod([k - j for j in range(o["order"])])
            du = du + a * bc(f * xs ** (k - o["order"]), ax, nd)
    du = du / c["h"] ** o["order"]
    u = lay(u.astype(c["dt"]), c["layout"])
    fr = Frozen(u=u, x=x)
    got = along(c["op"], c, u, x)
    fr.verify("derivative operator")
    check(np.shape(got) == tuple(c["shape"]), f"{c['op']}: shape {np.shape(got)}, expected {tuple(c['shape'])}")
    m = 0 if (deg <= o["deg"] and not o["periodic"] and not (c["op"].startswith("kd.FiniteDiff") and o["order"] > 2)) else o["margin"]
    inner = [slice(None)] * nd
    inner[ax] = slice(m, n - m)
    tol = 1e-9 * (1 + np.max(np.abs(u))) / c["h"] ** o["order"] * (1e6 if c["dt"] == "f4" and np.max(np.abs(u)) > 2 ** 22 else 1) * 16
    # float32 fields hold small integers exactly, but the stencil is then evaluated in float32
    if c["dt"] == "f4":
        tol = 2e-6 * (1 + np.max(np.abs(u))) / c["h"] ** o["order"] * 32
    close(got[tuple(inner)], du[tuple(inner)],
          f"{c['op']}: derivative of order {o['order']} along axis {ax} of a degree-{deg} polynomial, margin {m}, spacing {c['h']}",
          rtol=1e-8, atol=tol)
    if c["op"].startswith("kd.FiniteDiff") and o["order"] > 2:
        arr_eq(np.r_[got[:2], got[-2:]], np.zeros(4), f"{c['op']}: documented zero boundary points")
    ctx.label(c["op"].split(".")[0]); ctx.label(f"order{o['order']}"); ctx.label(f"{nd}d")
    ctx.nontrivial(deg >= min(o["deg"], o["ideg"]) and n > o["minn"])


@facet(grid(), quick=800, thorough=20000, shards=4)
def algebra(c, ctx):
    """Linearity, spacing scaling, independence of the other lines, shift of the coordinate origin."""
    o, x, ax = OPS[c["op"]], xgrid(c), c["axis"]
    nd = len(c["shape"])
    r = np.random.RandomState(c["seed"])
    u, v = r.standard_normal(c["shape"]), r.standard_normal(c["shape"])
    a, b = r.uniform(-3, 3, 2)
    f = lambda w, xx=x: np.asarray(along(c["op"], c, lay(w, c["layout"]), xx))
    fu, fv = f(u).copy(), f(v)
    s = (1 + np.max(np.abs(u)) + np.max(np.abs(v))) / c["h"] ** o["order"]
    close(f(a * u + b * v), a * fu + b * fv, f"{c['op']} is linear", rtol=1e-9, atol=1e-11 * s * 100)
    k = 2.0
    close(f(u, c["x0"] + c["h"] * k * np.arange(len(x))), fu / k ** o["order"], f"{c['op']} scales with the spacing", rtol=1e-7, atol=1e-9 * s)
    close(f(u, x + 5.0), fu, f"{c['op']} does not depend on the origin", rtol=1e-6, atol=1e-7 * s)
    # each line along the axis is treated on its own
    other = [i for i in range(nd) if i != ax]
    if other:
        oidx = tuple(int(r.randint(c["shape"][i])) for i in other)
        sel = [slice(None)] * nd
        for i, j in zip(other, oidx):
            sel[i] = j
        w = r.standard_normal(c["shape"])
        w[tuple(sel)] = u[tuple(sel)]
        close(f(w)[tuple(sel)], fu[tuple(sel)], f"{c['op']} mixes lines", rtol=1e-12, atol=1e-12 * s)
    arr_eq(f(u), fu, f"{c['op']} repeated")
    # reversal symmetry: d^k/d(-x)^k
    sl = [slice(None)] * nd
    sl[ax] = slice(None, None, -1)
    close(f(u[tuple(sl)])[tuple(sl)], (-1) ** o["order"] * fu, f"{c['op']} mirrored", rtol=1e-7, atol=1e-9 * s)
    ctx.label(c["op"].split(".")[0]); ctx.nontrivial(c["shape"][ax] > o["minn"] and np.prod(c["shape"]) > c["shape"][ax])


PER = [k for k, o in OPS.items() if o["periodic"]]


@facet(st.fixed_dictionaries({"op": st.sampled_from(PER), "axis": st.integers(1, 2), "n": st.integers(3, 14), "m": st.integers(1, 3),
                              "seed": G.seeds, "col": st.booleans(), "k": st.integers(0, 6), "h": st.sampled_from([1.0, 0.1, 0.37])}),
       quick=300, thorough=6000)
def wraparound(c, ctx):
    """Periodic operators: eigenfunctions of the circulant stencil, at every point including both ends."""
    o, n, h = OPS[c["op"]], c["n"], c["h"]
    r = np.random.RandomState(c["seed"])
    shape = [c["m"], 2, 2]
    shape[c["axis"]] = n
    os_ = list(shape); os_[c["axis"]] = 1
    th = 2 * np.pi * (c["k"] % n) / n
    j = bc(np.arange(n), c["axis"], 3)
    A, ph = r.uniform(-2, 2, os_), r.uniform(0, 6, os_)
    u = A * np.cos(th * j + ph)
    exp = -A * np.sin(th * j + ph) * np.sin(th) / h if o["order"] == 1 else A * np.cos(th * j + ph) * (2 * np.cos(th) - 2) / h ** 2
    got = o["call"](u, h * np.arange(n), c["axis"], c["col"])
    close(got, exp, f"{c['op']} on a periodic mode k={c['k']} n={n}", rtol=1e-8, atol=1e-10 / h ** 2)
    p = r.standard_normal(shape)
    f = lambda w: o["call"](w, h * np.arange(n), c["axis"], c["col"])
    sh = int(r.randint(1, n))
    close(f(np.roll(p, sh, c["axis"])), np.roll(f(p), sh, c["axis"]), f"{c['op']} commutes with rotation", rtol=1e-9, atol=1e-10 / h ** 2)
    ctx.nontrivial(c["k"] % n != 0 and n > 3)


@facet(st.fixed_dictionaries({"d": st.sampled_from([2, 3]), "shape": st.lists(st.integers(4, 7), min_size=4, max_size=4),
                              "seed": G.seeds, "col": st.booleans(), "h": st.lists(st.sampled_from([1.0, 0.5, 0.2, 2.0]), min_size=3, max_size=3)}),
       quick=200, thorough=4000)
def laplacian(c, ctx):
    d = c["d"]
    shape = c["shape"][:d + 1]
    r = np.random.RandomState(c["seed"])
    xs = [h * np.arange(n) for h, n in zip(c["h"], shape[1:])]
    X = [col(x, c["col"]) for x in xs]
    u = r.standard_normal(shape)
    exp = np.zeros(shape)
    for ax in range(1, d + 1):
        h = c["h"][ax - 1]
        v = np.moveaxis(u, ax, 0)
        if d == 2:
            g = (np.roll(v, -1, 0) - 2 * v + np.roll(v, 1, 0)) / h ** 2
        else:
            g = np.empty_like(v)
            g[1:-1] = (v[2:] - 2 * v[1:-1] + v[:-2]) / h ** 2
            g[0] = (2 * v[0] - 5 * v[1] + 4 * v[2] - v[3]) / h ** 2
            g[-1] = (2 * v[-1] - 5 * v[-2] + 4 * v[-3] - v[-4]) / h ** 2
        exp += np.moveaxis(g, 0, ax)
    fr = Frozen(u=u, X=X)
    for nm, f in ((f"Laplace{d}", D.Laplace if d == 2 else D.Laplace_3), (f"token lap{d}", function_map["lap" if d == 2 else "lap_3"].function)):
        close(f(u, X), exp, nm, rtol=1e-9, atol=1e-9 * 25)
    # a quadratic form has a constant Laplacian away from wrapped ends
    q = r.uniform(-2, 2, d)
    w = np.zeros(shape)
    for ax in range(1, d + 1):
        w = w + q[ax - 1] * bc(xs[ax - 1] ** 2, ax, d + 1)
    sl = (slice(None),) + (slice(1, -1),) * d
    got = D.Laplace(w, X) if d == 2 else D.Laplace_3(w, X)
    close(got[sl] if d == 2 else got, np.full(w[sl].shape if d == 2 else shape, 2 * q.sum()), f"Laplacian of a quadratic in {d}-D", atol=1e-8 * 100)
    fr.verify("Laplacian")
    ctx.label(f"{d}d"); ctx.nontrivial(len(set(c["h"][:d])) > 1 and len(set(shape[1:])) > 1)


@facet(st.fixed_dictionaries({"kind": st.sampled_from(["short", "axis", "order"]), "op": st.sampled_from(sorted(OPS)),
                              "short": st.integers(1, 2), "seed": G.seeds, "m": st.integers(1, 3), "bad": st.sampled_from([-1, 2, 7, "y", "u", 1.0, None]),
                              "order": st.sampled_from([0, 5, -1, 7])}), quick=300, thorough=4000)
def rejects(c, ctx):
    r = np.random.RandomState(c["seed"])
    if c["kind"] == "short":
        o = OPS[c["op"]]
        if c["op"].startswith("kd.FiniteDiff") and o["order"] > 2:
            return                                       # documented zeros near the boundary
        n = o["minn"] - c["short"]
        nd = o["ndims"][0]
        ax = o["axes"][0]
        shape = [c["m"]] * nd
        shape[ax] = n
        x = np.arange(max(n, 2)) * 0.5 if "sga" in c["op"] or "FDO" in c["op"] or "FiniteDiff" in c["op"] else np.arange(n) * 0.5
        raises(Exception, lambda: o["call"](r.standard_normal(shape), x, ax, False), f"{c['op']} on {n} points")
    elif c["kind"] == "axis":
        u = r.standard_normal((5, 6))
        for f in (S.Diff, S.Diff2):
            raises((ValueError, TypeError), lambda: f(u, 0.1, c["bad"]), f"SGA derivative with respect to {c['bad']!r}")
        raises(ValueError, lambda: S.Diff(r.standard_normal((4, 4, 4)), 0.1, "x"), "axis name on a 3-D field")
    else:
        raises(ValueError, lambda: FDO(r.standard_normal((6, 2)), 0.1, 1).compute(c["order"]), f"order {c['order']}")
    ctx.label(c["kind"]); ctx.nontrivial(True)


@facet(st.fixed_dictionaries({"orders": st.lists(st.integers(1, 4), min_size=2, max_size=5), "seed": G.seeds, "n": st.integers(5, 9)}),
       quick=100, thorough=2000)
def operator_reuse(c, ctx):
    """One operator object asked for several orders in any sequence: every result equals a fresh one and stays put."""
    u = np.random.RandomState(c["seed"]).standard_normal((c["n"], 3))
    op = FDO(u, 0.3, 2)
    got = [op.compute(k) for k in c["orders"]]
    for k, g in zip(c["orders"], got):
        arr_eq(g, FDO(u, 0.3, 2).compute(k), f"order {k} in the history {c['orders']}")
    ctx.nontrivial(len(set(c["orders"])) > 1)
