"""C07: SGA grid preparation."""
import triton._C.libtriton  # noqa: F401
import numpy as np
import torch
from hypothesis import strategies as st

from kd.model.kd_sga import KD_SGA
from kd.model.sga.adapter import SGADataAdapter
from kd.model.sga.sgapde.config import SolverConfig
from kd.model.sga.sgapde.context import ProblemContext
from vlib import gens as G, sgaref as R
from vlib.core import Frozen, arr_eq, check, close, eq, facet, raises

TECHNIQUE = ("property-based testing: random grids (2-4 axes, any order, target and left-hand axis) prepared through dataset, "
             "adapter and context, compared with an independent reference preparation; metamorphic relabelling of axis order")
RULE = "non-trivial: at least two axis sizes differ and the axis order is not the default x,t (or there are parameter fields)"


def same_context(ctx, ref, what="prepared"):
    sc = lambda a: 1e-9 * (1 + np.max(np.abs(a)))
    eq(list(ctx.axis_order), list(ref.order), f"{what}: axis order")
    arr_eq(ctx.u, ref.f[ref.target], f"{what}: target field")
    eq(sorted(ctx.fields), sorted(ref.f), f"{what}: fields")
    for n, v in ref.f.items():
        arr_eq(ctx.fields[n], v, f"{what}: field {n}")
    for a in ref.order:
        arr_eq(ctx.coord_grids[a], ref.grid[a], f"{what}: coordinate grid {a}")
        arr_eq(ctx.coords_1d[a], ref.c[a], f"{what}: coordinate {a}")
        close(ctx.delta[a], ref.h[a], f"{what}: spacing of {a}", rtol=1e-9)
        eq(ctx.axis_map[a], ref.ax[a], f"{what}: index of {a}")
    close(ctx.ut, ref.ut, f"{what}: left-hand side d{ref.target}/d{ref.lhs}", rtol=1e-9, atol=sc(ref.ut))
    p = ctx.primary_spatial_axis
    ux = ref.diff(ref.f[ref.target], p)
    uxx = ref.diff(ux, p)
    uxxx = ref.diff(uxx, p)
    for got, exp, nm in ((ctx.ux, ux, "first"), (ctx.uxx, uxx, "second"), (ctx.uxxx, uxxx, "third")):
        close(got, exp, f"{what}: {nm} derivative along {p}", rtol=1e-8, atol=sc(exp))
    names = [r[0] for r in ctx.VARS]
    eq(sorted(names), sorted(ref.leaves), f"{what}: terminal set")
    eq(len(set(names)), len(names), f"{what}: terminals are distinct")
    for r in ctx.VARS:
        eq(int(r[1]), 0, f"{what}: terminal {r[0]} arity")
        close(r[2], ref.leaves[r[0]], f"{what}: terminal {r[0]}", rtol=1e-9, atol=sc(ref.leaves[r[0]]))
    eq([r[0] for r in ctx.den], ref.spatial, f"{what}: derivative axes")
    for r in ctx.den:
        arr_eq(r[2], ref.grid[r[0]], f"{what}: derivative axis {r[0]}")
    eq(tuple(ctx.default_terms.shape), (int(np.prod(ref.shape)), 1), f"{what}: default terms")
    arr_eq(ctx.default_terms[:, 0], ref.f[ref.target].reshape(-1), f"{what}: default term column")


def nontriv(s):
    return len(set(s["shape"])) > 1 and (s["order"] != ["x", "t"] or bool(s["params"]))


@facet(R.problem(max_axes=4, maxfields=3), quick=250, thorough=5000, shards=4)
def preparation(s, ctx):
    arr = R.arrays(s)
    fr = Frozen(c=arr[0], f=arr[1], p=arr[2])
    ref = R.Ref(s, arr)
    c = R.make_context(s, arr)
    same_context(c, ref)
    eq(c.primary_spatial_axis, ref.primary, "primary spatial axis")
    fr.verify("preparation")
    ctx.label("legacy" if s["legacy"] else f"{len(s['order'])}d"); ctx.label("lhs!=t", s["lhs"] != "t"); ctx.nontrivial(nontriv(s))


@facet(R.problem(legacy=False, max_axes=4), quick=120, thorough=2000, shards=3)
def relabelling(s, ctx):
    """Transposing every array with the axis order only transposes the prepared arrays."""
    c, f, p = R.arrays(s)
    perm = list(np.random.RandomState(s["seed"]).permutation(len(s["order"])))
    order2 = [s["order"][i] for i in perm]
    t = lambda d: {k: v.transpose(perm) for k, v in d.items()}
    a = R.make_context(s, (c, f, p), primary_spatial_axis=[x for x in s["order"] if x != s["lhs"]][0])
    s2 = dict(s, order=order2)
    b = R.make_context(s2, ({k: c[k] for k in order2}, t(f), t(p)), primary_spatial_axis=a.primary_spatial_axis)
    for nm in ("u", "ut", "ux", "uxx", "uxxx"):
        close(getattr(b, nm), getattr(a, nm).transpose(perm), f"{nm} after relabelling {s['order']} as {order2}", rtol=1e-12, atol=1e-11 * (1 + np.abs(getattr(a, nm)).max()))
    va, vb = {r[0]: r[2] for r in a.VARS}, {r[0]: r[2] for r in b.VARS}
    eq(sorted(va), sorted(vb), "terminal names")
    for k in va:
        close(vb[k], va[k].transpose(perm), f"terminal {k} after relabelling", rtol=1e-12, atol=1e-11 * (1 + np.abs(va[k]).max()))
    ctx.nontrivial(perm != sorted(perm) and len(set(s["shape"])) > 1)


@facet(st.tuples(R.problem(legacy=None, xt=True, min_n=5, max_n=14), st.booleans()), quick=120, thorough=2000, shards=2)
def edges(case, ctx):
    """Edge removal keeps the x range [int(.1 n), int(.9 n)) of fields, parameters and coordinates alike."""
    s, _ = case
    ix = s["order"].index("x")
    n = s["shape"][ix]
    lo, hi = int(n * 0.1), int(n * 0.9)
    c, f, p = R.arrays(s)
    if hi - lo < 3:
        raises(ValueError, lambda: R.make_context(s, (c, f, p), delete_edges=True), "too few points left after edge removal")
        return
    sl = [slice(None)] * 2
    sl[ix] = slice(lo, hi)
    sl = tuple(sl)
    fr = Frozen(c=c, f=f, p=p)
    got = R.make_context(s, (c, f, p), delete_edges=True)
    crop = ({k: (v[lo:hi] if k == "x" else v) for k, v in c.items()}, {k: v[sl] for k, v in f.items()}, {k: v[sl] for k, v in p.items()})
    same_context(got, R.Ref(s, crop), "cropped")
    arr_eq(got.u_origin, f[s["target"]], "original field kept")
    fr.verify("edge removal")
    ctx.label("lhs=x", s["lhs"] == "x"); ctx.nontrivial(n >= 10 and lo > 0)


@facet(st.tuples(R.problem(legacy=False, max_axes=3, min_n=4), G.seeds), quick=60, thorough=800)
def descending(case, ctx):
    """Strictly decreasing coordinates are a valid uniform grid: the derivatives change sign accordingly."""
    s, seed = case
    c, f, p = R.arrays(s)
    a = s["order"][seed % len(s["order"])]
    i = s["order"].index(a)
    flip = lambda v: np.flip(v, i)
    c2 = {k: (v[::-1].copy() if k == a else v) for k, v in c.items()}
    g = R.make_context(s, (c2, {k: flip(v) for k, v in f.items()}, {k: flip(v) for k, v in p.items()}))
    ref = R.Ref(s, (c, f, p))
    close(flip(g.ut), ref.ut, f"left-hand side with {a} stored in decreasing order", rtol=1e-8, atol=1e-8 * (1 + np.abs(ref.ut).max()))
    for k, v in ref.grads.items():
        close(flip(g.grad_fields[k]), v, f"{k} with {a} stored in decreasing order", rtol=1e-8, atol=1e-8 * (1 + np.abs(v).max()))
    ctx.nontrivial(True)


class Poly(torch.nn.Module):
    """Differentiable surrogate with known derivatives in its own inputs."""

    def __init__(self, coef):
        super().__init__()
        self.input_dim = len(coef)
        self.coef = torch.tensor(coef, dtype=torch.float32)

    def forward(self, x):
        z = x @ self.coef.to(x)
        return (torch.sin(z) + 0.5 * z).reshape(-1, 1)


@facet(st.tuples(R.problem(max_axes=3, params=False), st.booleans(), G.seeds), quick=60, thorough=800, shards=2)
def autograd(case, ctx):
    """With a surrogate network, the prepared derivatives are its exact derivatives in physical units."""
    s, normal, seed = case
    arr = R.arrays(s)
    ref = R.Ref(s, arr)
    r = np.random.RandomState(seed)
    models = {n: Poly(list(r.uniform(-1, 1, len(s["order"])))) for n in s["fields"]}
    from kd.dataset import PDEDataset  # noqa: F401
    with R.quiet():
        cfg = SolverConfig(**SGADataAdapter(R.make_dataset(s, arr)).to_solver_kwargs(), use_autograd=True, normal=normal)
        cfg.autograd_models = models
        c = ProblemContext(cfg)
    X = np.stack([ref.grid[a].reshape(-1) for a in ref.order], 1)
    mu, sd = (X.mean(0), np.where(X.std(0) == 0, 1, X.std(0))) if normal else (0, np.ones(X.shape[1]))
    Z = (X - mu) / sd

    def deriv(n, a, k=1):
        w = models[n].coef.numpy().astype(float)
        z = Z @ w
        i = ref.ax[a]
        sc = (np.std(arr[1][n]) or 1.0) if normal else 1.0
        g = {1: np.cos(z) + 0.5, 2: -np.sin(z), 3: -np.cos(z)}[k]
        return (g * (w[i] / sd[i]) ** k * sc).reshape(ref.shape)
    close(c.ut, deriv(ref.target, ref.lhs), f"network derivative along {ref.lhs}", rtol=2e-4, atol=2e-4)
    close(c.ux, deriv(ref.target, c.primary_spatial_axis), f"network derivative along {c.primary_spatial_axis}", rtol=2e-4, atol=2e-4)
    for k, v in c.grad_fields.items():
        n, a = k.rsplit("_", 1)
        close(v, deriv(n, a), f"network derivative {k}", rtol=2e-4, atol=2e-4)
    eq(sorted(c.grad_fields), sorted(ref.grads), "derivative terminals")
    if sorted(s["order"]) == ["t", "x"] and s["lhs"] == "t" and len(s["fields"]) == 1:
        close(c.uxx, deriv(ref.target, "x", 2), "second network derivative", rtol=5e-4, atol=5e-4)
        close(c.uxxx, deriv(ref.target, "x", 3), "third network derivative", rtol=5e-3, atol=5e-3)
        ctx.label("second-order autograd")
    ctx.nontrivial(normal and len(set(s["shape"])) > 1)


class _Stop(Exception):
    pass


@facet(st.tuples(R.problem(max_axes=3, maxfields=3), G.seeds, st.integers(0, 3)), quick=80, thorough=1000)
def estimator_choice(case, ctx):
    """KD_SGA prepares exactly the dataset it was given, with the user's choice of target and axes taking precedence."""
    s, seed, mode = case
    arr = R.arrays(s)
    r = np.random.RandomState(seed)
    kw, s2 = {}, dict(s)
    if not s["legacy"]:
        if mode & 1:
            kw["target_field"] = s2["target"] = s["fields"][r.randint(len(s["fields"]))]
        if mode & 2:
            kw["lhs_axis"] = s2["lhs"] = s["order"][r.randint(len(s["order"]))]
    box = {}

    class Solver:
        def __init__(self, cfg):
            self.cfg = cfg

        def run(self, context):
            box["ctx"] = context
            return "eq", 0.0
    with R.quiet():
        m = KD_SGA(seed=int(seed % 100), num=7, depth=3, width=2, p_var=0.25, p_mute=0.35, p_cro=0.45, sga_run=3, **kw)
        m.fit_dataset(R.make_dataset(s, arr), solver_cls=Solver)
    same_context(box["ctx"], R.Ref(s2, arr), "estimator")
    cfg = m.config_
    eq([cfg.num, cfg.depth, cfg.width, cfg.p_var, cfg.p_mute, cfg.p_cro, cfg.sga_run, cfg.seed], [7, 3, 2, 0.25, 0.35, 0.45, 3, int(seed % 100)], "solver options")
    ctx.nontrivial(bool(kw))


@facet(st.tuples(R.problem(legacy=False, max_axes=3, min_n=4), st.sampled_from(
    ["shape", "coordlen", "nonuniform", "repeat", "nonmono", "badtarget", "badlhs", "axis_conflict", "deriv_conflict", "param_conflict",
     "param_shape", "dup", "primary_missing", "primary_lhs", "underscore", "single", "badname", "lhs_alias", "edges_nd", "short", "reserved", "param_reshaped", "tiny"]), G.seeds), quick=200, thorough=3000)
def rejects(case, ctx):
    s, kind, seed = case
    c, f, p = (dict(d) for d in R.arrays(s))
    r = np.random.RandomState(seed)
    kw = dict(target_field=s["target"], lhs_axis=s["lhs"], axis_order=list(s["order"]))
    a = s["order"][r.randint(len(s["order"]))]
    n0 = s["target"]
    sp = [x for x in s["order"] if x != s["lhs"]]
    err = (ValueError,)
    if kind == "shape":
        f[n0] = np.zeros(tuple(k + 1 for k in s["shape"]))
    elif kind == "coordlen":
        c[a] = np.r_[c[a], c[a][-1] + (c[a][1] - c[a][0])]
    elif kind == "nonuniform":
        i = r.randint(1, len(c[a]))
        c[a] = c[a].copy(); c[a][i] += 0.37 * (c[a][1] - c[a][0])
    elif kind == "repeat":
        c[a] = c[a].copy()
        if seed % 2:
            c[a][:] = 1.0
        else:
            i = r.randint(1, len(c[a]))
            c[a][i] = c[a][i - 1]
        kw["enforce_uniform_grid"] = bool(r.randint(2))
    elif kind == "nonmono":
        i, j = sorted(r.choice(len(c[a]), 2, replace=False))
        c[a] = c[a].copy()
        if len(c[a]) == 2 or (i, j) == (0, len(c[a]) - 1) and len(c[a]) == 3:
            return
        c[a][i], c[a][j] = c[a][j], c[a][i]
        kw["enforce_uniform_grid"] = bool(r.randint(2))
    elif kind == "tiny":  # non-uniform steps are refused whatever the unit of the axis
        c[a] = c[a] * 10.0 ** -r.randint(1, 12)
        i = r.randint(1, len(c[a]))
        c[a][i] += 0.37 * (c[a][1] - c[a][0])
    elif kind == "badtarget":
        kw["target_field"] = "nosuch"
    elif kind == "badlhs":
        kw["lhs_axis"] = "q"
    elif kind == "axis_conflict":
        f[a] = f[n0]
    elif kind == "deriv_conflict":
        f[f"{n0}_{a}"] = f[n0]
    elif kind == "param_conflict":
        p[[n0, a, f"{n0}_{a}"][r.randint(3)]] = f[n0]
    elif kind == "reserved":
        f = dict(f, **{"w1": f[n0], "w2": f[n0]})
        keys = list(f)
        keys.insert(r.randint(len(keys) + 1), "ux")
        f = {k: f.get(k, f[n0]) for k in keys}
    elif kind == "param_reshaped":
        v = np.asarray(f[n0])
        p["nu"] = [v.reshape(-1), v.reshape(v.shape[::-1]) if v.shape != v.shape[::-1] else v.ravel(), v[..., None]][r.randint(3)]
    elif kind == "param_shape":
        p["nu"] = np.zeros(tuple(k + 1 for k in s["shape"]))
    elif kind == "dup":
        kw["axis_order"] = s["order"][:1] + s["order"][:-1]
    elif kind == "primary_missing":
        kw["primary_spatial_axis"] = "nope"
    elif kind == "primary_lhs":
        kw["primary_spatial_axis"] = s["lhs"]
    elif kind == "underscore":
        c["x_1"] = c.pop(a); kw["axis_order"][kw["axis_order"].index(a)] = "x_1"
    elif kind == "badname":
        f[["1u", "u-v", "", "u v", "d^2"][r.randint(5)]] = f[n0]
    elif kind == "lhs_alias":
        if len(s["lhs"]) != 1:
            return
        f[f"{n0}{s['lhs']}"] = f[n0]
    elif kind == "edges_nd":
        if len(s["order"]) == 2 and "x" in s["order"]:
            return
        kw["delete_edges"] = True
        err = (ValueError, NotImplementedError)
    elif kind == "single":
        c = {s["lhs"]: c[s["lhs"]]}
        f = {n0: np.arange(float(len(c[s["lhs"]])))}
        p = {}
        kw["axis_order"] = [s["lhs"]]
    elif kind == "short":
        i = s["order"].index(a)
        c[a] = c[a][:2]
        f = {k: v.take([0, 1], i) for k, v in f.items()}
        p = {k: v.take([0, 1], i) for k, v in p.items()}

    def go():
        with R.quiet():
            return ProblemContext(SolverConfig(fields_data=f, coords_1d=c, param_fields=p or None, problem_name="made_up", **kw))
    raises(err, go, f"{kind} ({a})")
    ctx.label(kind); ctx.nontrivial(True)
