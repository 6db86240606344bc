"""C14: DLGA term columns, coefficients and fitness agree with their definition."""
import triton._C.libtriton  # noqa: F401
import copy
import os

import numpy as np
import torch
from hypothesis import strategies as st

from kd.dataset import PDEDataset
from kd.model.dlga import DLGA
from kd.model.kd_dlga import KD_DLGA
from vlib import dlgaref as D, gens as G
from vlib.core import Frozen, arr_eq, check, close, eq, facet, fail, raises
from vlib.sgaref import quiet

TECHNIQUE = ("property-based testing: random genomes and libraries, with term columns recomputed as products, coefficients checked as total least "
             "squares (smallest singular direction, recomputed independently) and the fitness recomputed from the returned coefficients; operator "
             "derivatives compared with closed forms for generated analytic surrogates and with spectral differentiation of a double-precision "
             "copy for generated networks")
RULE = "non-trivial: more than one term, or a term of more than one operator (fitness); a surrogate or network with all derivatives non-zero (derivatives)"


@st.composite
def fit_cases(draw):
    s = draw(D.specs(max_pop=2))
    n = len(s["ops"]) if s["kd"] else 6
    return {"s": s, "g": draw(D.genomes(n, max_terms=5, max_len=4))}


@facet(fit_cases(), quick=300, thorough=8000, shards=4)
def fitness(case, ctx):
    s, g = case["s"], case["g"]
    with quiet():
        m = D.make(s)
    cols, ut, utt = D.data(s)
    genome = copy.deepcopy(g)
    fz = Frozen(ut=m.u_t, utt=m.u_tt, g=genome)
    G_, length = m.translate_DNA(genome)
    ref = D.term_matrix(cols, g)
    close(G_, ref, f"term columns of {g}", rtol=1e-9, atol=1e-12)
    eq(int(length), sum(len(t) for t in g), f"complexity of {g}")
    keep = np.array(G_)
    coef, fit, mse, name = m.get_fitness(G_, length)
    arr_eq(G_, keep, "term columns after scoring")
    fz.verify("get_fitness")
    arr_eq(m.Theta.detach().numpy(), cols, "the library after scoring")
    eq(np.shape(coef), (len(g), 1), "shape of the coefficients")
    check(name in ("u_t", "u_tt"), f"left-hand side {name!r}")
    lhs = {"u_t": ut, "u_tt": utt}[name].astype(float)
    r = lhs - ref @ coef
    val = float(np.mean(r ** 2))
    check(abs(mse - val) <= 1e-7 * val + 1e-13, lambda: f"fit error reported {mse}, the coefficients give {val}")
    check(abs(fit - (mse + s["epi"] * sum(len(t) for t in g))) <= 1e-12 * (1 + abs(fit)), f"fitness {fit}, error {mse}, epi {s['epi']}, genome {g}")
    best = {}
    for k, b in (("u_t", ut), ("u_tt", utt)):
        w, sv = D.tls(b, ref)
        if abs(w[0]) < 1e-3:
            return ctx.label("left-hand side not in the smallest direction")
        gap = (sv[-2] - sv[-1]) / sv[0]
        c = -w[1:, None] / w[0]
        best[k] = float(np.mean((b - ref @ c) ** 2))
        if k == name:
            if gap > 1e-3:
                close(coef, c, f"total least-squares coefficients of {g} for {name}", rtol=2e-4, atol=2e-4 * np.abs(c).max())
                ctx.label("coefficients compared")
            a = np.vstack([[1.0], -coef])
            obj = np.linalg.norm(np.hstack([b, ref]) @ a) / np.linalg.norm(a)
            check(obj <= sv[-1] * (1 + 1e-4) + 1e-5 * sv[0], lambda: f"residual {obj} of the returned direction, the smallest is {sv[-1]}")
            if s["exact"] == k and sv[-1] < 1e-3 * sv[-2]:
                ctx.label("near-exact relation")
    if abs(best["u_t"] - best["u_tt"]) > 1e-3 * (best["u_t"] + best["u_tt"]):
        eq(name, min(best, key=best.get), f"left-hand side with the smaller error ({best})")
    ctx.nontrivial(len(g) > 1 or len(g[0]) > 1)
    ctx.label(name)


class Analytic(torch.nn.Module):
    """u = sum_k a_k sin(b_k x + c_k t + d_k) + polynomial; derivatives known in closed form."""

    def __init__(self, seed):
        super().__init__()
        r = np.random.RandomState(seed)
        self.w = torch.nn.Parameter(torch.tensor(np.column_stack([r.uniform(-1, 1, 3), r.uniform(-2, 2, 3), r.uniform(-2, 2, 3), r.uniform(-3, 3, 3)]), dtype=torch.float32))
        self.p = torch.nn.Parameter(torch.tensor(r.uniform(-1, 1, (4, 4)), dtype=torch.float32))

    def forward(self, X):
        x, t = X[:, :1], X[:, 1:2]
        out = 0 * x
        for a, b, c, d in self.w:
            out = out + a * torch.sin(b * x + c * t + d)
        for i in range(4):
            for j in range(4):
                out = out + self.p[i, j] * x ** i * t ** j
        return out

    def exact(self, X, nx, nt):
        x, t = X[:, 0].astype(float), X[:, 1].astype(float)
        out = np.zeros(len(x))
        for a, b, c, d in self.w.detach().numpy().astype(float):
            out += a * b ** nx * c ** nt * np.sin(b * x + c * t + d + (nx + nt) * np.pi / 2)
        return out + np.polynomial.polynomial.polyval2d(x, t, _pder(_pder(self.p.detach().numpy().astype(float), nx, 0), nt, 1))


def _pder(p, k, ax):
    return np.polynomial.polynomial.polyder(p, k, axis=ax) if k else p


KEYS = {"u": (0, 0), "u_x": (1, 0), "u_xx": (2, 0), "u_xxx": (3, 0), "u_t": (0, 1), "u_tt": (0, 2)}
BASE_KEYS = ["u", "u_x", "u_xx", "u_xxx", "u_t", "u_tt"]


def assemble(kd, ops):
    with quiet():
        return KD_DLGA(operators=list(ops), epi=0.1, input_dim=2, verbose=False) if kd else DLGA(epi=0.1, input_dim=2)


def compare(m, kd, ops, ref, scale, tol, what):
    """Library, left-hand sides and metadata against reference columns ref[key] (n,1)."""
    order = list(ops) if kd else BASE_KEYS
    th = m.Theta.detach().cpu().numpy()
    eq(th.shape, (len(ref["u"]), len(order)), f"{what}: shape of the library")
    for j, k in enumerate(order):
        close(th[:, j], ref[k], f"{what}: library column {j} ({k})", rtol=tol, atol=tol * scale[k])
    close(m.u_t.reshape(-1), ref["u_t"], f"{what}: u_t", rtol=tol, atol=tol * scale["u_t"])
    close(m.u_tt.reshape(-1), ref["u_tt"], f"{what}: u_tt", rtol=tol, atol=tol * scale["u_tt"])
    for k, v in m.metadata.items():
        check(k in ref, f"{what}: metadata entry {k!r}")
        close(np.asarray(v).reshape(-1), ref[k], f"{what}: metadata {k}", rtol=tol, atol=tol * scale[k])


@st.composite
def models(draw):
    kd = draw(st.booleans())
    return {"kd": kd, "ops": draw(st.permutations(D.OPS))[:draw(st.integers(1, 6))] if kd else [], "seed": draw(G.seeds), "n": draw(st.integers(1, 25)),
            "bad": draw(st.sampled_from([None, None, None, "u_xt", "ux"]))}


@facet(models(), quick=150, thorough=4000, shards=2)
def derivatives(case, ctx):
    m = assemble(case["kd"], case["ops"])
    net = Analytic(case["seed"])
    m.Net, m.best_epoch = net, 7
    os.makedirs("model_save", exist_ok=True)
    torch.save(net.state_dict(), "model_save/Net_7.pkl")
    X = np.random.RandomState(case["seed"] + 1).uniform(-1.2, 1.2, (case["n"], 2))
    fz = Frozen(X=X)
    th = m.generate_meta_data(X)
    fz.verify("generate_meta_data")
    check(th is m.Theta, "returned library is not the stored one")
    X32 = X.astype(np.float32)
    ref = {k: net.exact(X32, *d) for k, d in KEYS.items()}
    scale = {k: 10.0 * 2.0 ** sum(d) for k, d in KEYS.items()}
    compare(m, case["kd"], case["ops"], ref, scale, 1e-5, "analytic surrogate")
    if case["kd"] and case["bad"]:
        b = assemble(True, list(case["ops"]) + [case["bad"]])
        b.Net, b.best_epoch = net, 7
        raises(ValueError, lambda: b.generate_meta_data(X), f"unknown operator {case['bad']}")
        ctx.label("unknown operator")
    ctx.nontrivial(case["n"] > 1)


def spectral(net, X32):
    """Derivatives of a double-precision copy of `net` by differentiating its Chebyshev interpolant along each axis."""
    net = copy.deepcopy(net).double().eval()
    K, h = 25, 0.5
    nodes = np.cos(np.pi * (np.arange(K) + 0.5) / K)
    V = np.polynomial.chebyshev.chebvander(nodes, K - 1)
    Vi = np.linalg.inv(V)
    out = {}
    with torch.no_grad():
        out["u"] = net(torch.tensor(X32.astype(float))).numpy().reshape(-1)
        for ax, keys in ((0, ("u_x", "u_xx", "u_xxx")), (1, ("u_t", "u_tt"))):
            P = np.repeat(X32.astype(float)[:, None, :], K, axis=1)
            P[:, :, ax] += h * nodes[None, :]
            f = net(torch.tensor(P.reshape(-1, 2))).numpy().reshape(-1, K)
            c = (Vi @ f.T)
            for i, k in enumerate(keys):
                out[k] = np.polynomial.chebyshev.chebval(0.0, np.polynomial.chebyshev.chebder(c, i + 1)) / h ** (i + 1)
    return out


@st.composite
def fits(draw):
    d = draw(models())
    d.update({"nx": draw(st.integers(4, 9)), "nt": draw(st.integers(4, 9)), "iters": draw(st.sampled_from([1, 2, 5])), "order": draw(st.booleans()),
              "how": draw(st.sampled_from(["fit", "mesh", "sample", "none"])), "kd": draw(st.sampled_from([True, True, False])),
              "ops": draw(st.permutations(D.OPS))[:draw(st.integers(2, 6))]})
    return d


@facet(fits(), quick=40, thorough=1200, shards=4)
def fitted_models(case, ctx):
    s = case
    x, t = G.coords(s["nx"], s["seed"], "irregular"), G.coords(s["nt"], s["seed"] + 3, "irregular")
    x, t = (x - x.mean()) / np.ptp(x), (t - t.mean()) / np.ptp(t)
    u = G.smooth([x, t], s["seed"])
    torch.manual_seed(s["seed"]); D.seed(s["seed"])
    with quiet():
        m = KD_DLGA(operators=list(s["ops"]), epi=0.01, input_dim=2, verbose=False, max_iter=s["iters"]) if s["kd"] else DLGA(0.01, 2, max_iter=s["iters"])
    with torch.no_grad():
        for p in m.Net.parameters():
            p.mul_(0.9)
    m.pop_size, m.n_generations = 4, 2
    pts = np.column_stack([g.ravel() for g in np.meshgrid(x, t, indexing="ij")])
    fz = Frozen(x=x, t=t, u=u, pts=pts)
    seen = {}
    gen = m.generate_meta_data

    def record(X):
        seen["X"] = np.array(X)
        return gen(X)
    m.generate_meta_data = record
    with quiet():
        if not s["kd"] or s["how"] == "fit":
            y = u.reshape(-1, 1).copy()
            m.fit(pts, y)
            arr_eq(y, u.reshape(-1, 1), "the caller's targets after fit")
        else:
            ds = PDEDataset("e", fields_data={"u": u.T.copy()}, coords_1d={"t": t, "x": x}, axis_order=["t", "x"], target_field="u", lhs_axis="t") \
                if s["order"] else PDEDataset("e", None, x=x, t=t, usol=u, domain=None, epi=0)
            kw = {"mesh": {"Xy_from": "mesh"}, "none": {}, "sample": {"sample": 12}}[s["how"]]
            eq(m.fit_dataset(ds, **kw), m, "fit_dataset returns the estimator")
    fz.verify("fit")
    X = seen.get("X", pts)
    if len(X) != len(m.Theta):
        fail(f"the library has {len(m.Theta)} rows for {len(X)} points")
    if s["how"] == "sample" and s["kd"]:
        eq(X.shape, (12, 2), "sample size")
        check({tuple(r) for r in X.tolist()} <= {tuple(r) for r in pts.tolist()}, "sampled points are not grid points")
    else:
        check({tuple(r) for r in X.tolist()} == {tuple(r) for r in pts.tolist()} and len(X) == len(pts), "the library is not evaluated at the data points")
    ref = spectral(m.Net, X.astype(np.float32))
    scale = {k: max(1.0, float(np.abs(v).max())) for k, v in ref.items()}
    compare(m, s["kd"], s["ops"], ref, scale, 3e-3, "fitted network")
    if s["kd"]:
        close(m.predict(pts).reshape(-1), spectral(m.Net, pts.astype(np.float32))["u"], "predict", rtol=1e-4, atol=1e-5)
    ch, fi, na = m.Chrom[0], m.Fitness[0], m.name[0]
    chk = m.get_fitness(*m.translate_DNA(ch))
    check(abs(chk[1] - fi) <= 1e-9 * (1 + abs(fi)) and chk[3] == na, f"returned fitness {fi} of {ch}, evaluating it gives {chk[1]}")
    ctx.nontrivial(); ctx.label(s["how"] if s["kd"] else "base")
