"""C31: physics-informed residuals equal the residual of the equation."""
import triton._C.libtriton  # noqa: F401
import numpy as np
from hypothesis import strategies as st

from vlib import discref as R, gens as G
from vlib.core import Skip, check, close, eq, facet, raises
from vlib.jets import Jet
from vlib.sgaref import quiet

TECHNIQUE = ("property-based testing: random small networks, differentiable equations, coefficients and points; values, residuals, losses and one training "
             "step are compared with Taylor-jet arithmetic (exact derivatives without automatic differentiation)")
RULE = "non-trivial: the equation contains a derivative or a product and its terms are not all zero"
ASSUMPTIONS = ["operands of divisions are kept away from the protected range (|denominator| >= 1e-4)", "squares and cubes of huge values (protected) are excluded"]

FUNS = ["add", "sub", "mul", "div", "n2", "n3", "diff", "diff2", "diff3", "diff4", "lap"]
ORDER = {"diff": 1, "diff2": 2, "diff3": 3, "diff4": 4, "lap": 2}


# ---------------------------------------------------------------- reference
def order(t):
    return ORDER.get(t[0], 0) + max((order(c) for c in t[1:]), default=0)


def net_params(nn):
    ls = [nn.input_layer, *nn.mid_linear, nn.out_layer]
    return [(l.weight.detach().numpy().astype(float), l.bias.detach().numpy().astype(float)) for l in ls]


def forward(params, act, xs, lb, ub):
    """The network on jets of the raw coordinates (normalised to [-1, 1])."""
    h = [(x - float(l)) * (2.0 / (float(u) - float(l))) - 1.0 for x, l, u in zip(xs, lb, ub)]
    for k, (W, b) in enumerate(params):
        z = []
        for row, c in zip(W, b):
            s = h[0] * row[0]
            for w, v in zip(row[1:], h[1:]):
                s = s + v * w
            z.append(s + float(c))
        h = z if k == len(params) - 1 else [getattr(v, act)() for v in z]
    return h[0]


def space_jet(params, act, pts, lb, ub, deg):
    """u as a function of the space coordinates around each point (time fixed), and u_t there."""
    n, d = pts.shape
    xs = [Jet.var(i, pts[:, i], d - 1, deg) for i in range(d - 1)] + [Jet.const(pts[:, -1], d - 1, deg, n)]
    u = forward(params, act, xs, lb, ub)
    ts = [Jet.const(pts[:, i], 1, 1, n) for i in range(d - 1)] + [Jet.var(0, pts[:, -1], 1, 1)]
    return u, xs[:-1], forward(params, act, ts, lb, ub).diff(0).value


def ev(t, u, xs, par):
    n = t[0]
    if len(t) == 1:
        if n in par:
            return Jet.const(par[n], u.dims, u.deg, len(u.c))
        return xs[int(n[1:]) - 1] if n[0] == "x" else u
    if n in ORDER:
        f = ev(t[1], u, xs, par)
        if n == "lap":
            return sum((f.diff(i).diff(i) for i in range(1, f.dims)), f.diff(0).diff(0))
        for _ in range(ORDER[n]):
            f = f.diff(int(t[2][0][1:]) - 1)
        return f
    a = [ev(c, u, xs, par) for c in t[1:]]
    if n == "div":
        if np.any(np.abs(a[1].value) < 1e-4):
            raise Skip
        return a[0] / a[1]
    if n in ("n2", "n3"):
        if np.any(np.abs(a[0].value) > 1e5):
            raise Skip
        return a[0] * a[0] if n == "n2" else a[0] * a[0] * a[0]
    return a[0] + a[1] if n == "add" else a[0] - a[1] if n == "sub" else a[0] * a[1]


def bound(t, u, xs, par):
    """A majorant of everything added up on the way to the value (for rounding in single precision): absolute Taylor coefficients throughout."""
    def ab(j):
        return Jet(j.dims, j.deg, np.abs(j.c))
    n = t[0]
    if len(t) == 1:
        return ab(ev(t, u, xs, par))
    if n in ORDER:
        f = bound(t[1], u, xs, par)
        if n == "lap":
            return sum((f.diff(i).diff(i) for i in range(1, f.dims)), f.diff(0).diff(0))
        for _ in range(ORDER[n]):
            f = f.diff(int(t[2][0][1:]) - 1)
        return f
    a = [bound(c, u, xs, par) for c in t[1:]]
    if n == "div":
        return a[0] * ab(ev(t[2], u, xs, par).inverse())
    if n in ("n2", "n3"):
        return a[0] * a[0] if n == "n2" else a[0] * a[0] * a[0]
    return a[0] + a[1] if n in ("add", "sub") else a[0] * a[1]


def sizes(terms, params, act, pts, lb, ub, par):
    u, xs, _ = space_jet(params, act, pts, lb, ub, max([order(t) for t in terms] + [0]))
    return [float(np.max(bound(t, u, xs, par).value)) for t in terms]


def term_values(terms, params, act, pts, lb, ub, par, eps=1e-12):
    """Columns of term values and u_t at the points, exactly; and their sensitivity to rounding."""
    out = []
    for k in range(4):
        r = np.random.RandomState(k)
        p = pts * (1 + eps * r.uniform(-1, 1, pts.shape)) if k else pts
        q = [(W * (1 + eps * r.uniform(-1, 1, W.shape)), b * (1 + eps * r.uniform(-1, 1, b.shape))) for W, b in params] if k else params
        u, xs, ut = space_jet(q, act, p, lb, ub, max([order(t) for t in terms] + [0]))
        out.append([ut, u.value] + [ev(t, u, xs, par).value for t in terms])
    v = out[0]
    if not all(np.all(np.isfinite(a)) and np.all(np.abs(a) < 1e9) for a in v):
        raise Skip
    spread = [max(float(np.max(np.abs(o[i] - v[i]))) for o in out[1:]) for i in range(len(v))]
    return v[0], v[1], v[2:], spread


# ---------------------------------------------------------------- product side
@st.composite
def nets(draw, dim=None):
    dim = draw(st.sampled_from([1, 1, 2, 3])) if dim is None else dim
    return {"dim": dim, "layers": draw(st.integers(1, 3)), "hidden": draw(st.integers(1, 4)), "act": draw(st.sampled_from(["tanh", "tanh", "sin", "Softplus", "other"])),
            "seed": draw(G.seeds), "big": draw(st.sampled_from([1.0, 1.0, 2.0])), "lb": [draw(st.integers(-3, 1)) for _ in range(dim + 1)], "len": [draw(st.sampled_from([0.5, 1, 2, 4])) for _ in range(dim + 1)]}


@st.composite
def eqs(draw, dim):
    fs = draw(st.permutations(FUNS))[:draw(st.integers(3, 11))]
    if "add" not in fs and draw(st.booleans()):
        fs.append("add")
    return {"fs": fs, "params": draw(st.permutations(["nu", "kappa", "mu2"]))[:draw(st.integers(0, 2))], "pv": [draw(st.sampled_from([2.0, -0.5, 0.25, 1.0, 0.0])) for _ in range(2)],
            "nums": draw(st.lists(st.integers(0, 9999), min_size=2, max_size=16)), "w": draw(st.lists(st.sampled_from([1.0, -1.0, 0.5, -2.25, 3.0, 0.01]), min_size=16, max_size=16)),
            "const": draw(st.booleans())}


@st.composite
def cases(draw, **k):
    n = draw(nets(**k))
    return {"net": n, "eq": draw(eqs(n["dim"])), "n": draw(st.integers(1, 6)), "m": draw(st.integers(1, 6)), "pts": draw(G.seeds)}


def bounds(c):
    lb = np.array(c["lb"], float)
    return lb, lb + np.array(c["len"], float)


ACT = {"tanh": "tanh", "sin": "sin", "Softplus": "softplus", "other": "tanh"}


def model(c, path="out/run.csv", **k):
    """A PINN_model with random double-precision weights."""
    import torch
    from kd.model.discover.pinn import PINN_model
    conf = {"number_layer": c["layers"], "input_dim": c["dim"] + 1, "n_hidden": c["hidden"], "out_dim": 1, "activation": c["act"], "coef_pde": 1, "noise": 0, "data_ratio": 1, "coll_data": 1,
            "data_type": "1D_1U", "lr": 1e-3, "pinn_epoch": 1, "duration": 5, **k}
    with quiet():
        m = PINN_model(path, conf, None, torch.device("cpu"))
    m.nn.double()
    r = np.random.RandomState(c["seed"])
    with torch.no_grad():
        for p in m.nn.parameters():
            p.copy_(torch.from_numpy(np.atleast_1d(np.round(r.normal(0, c["big"], tuple(p.shape)) * (0.7 if p.ndim > 1 else 0.5), 4))))
    lb, ub = bounds(c)
    m.lb, m.ub = torch.from_numpy(lb), torch.from_numpy(ub)
    return m


def points(c, n, seed):
    """Points inside the domain, exactly representable in single precision."""
    lb, ub = bounds(c)
    return (lb + (ub - lb) * np.random.RandomState(seed).uniform(0.02, 0.98, (n, len(lb)))).astype(np.float32).astype(float)


def columns(pts):
    import torch
    cols = [torch.from_numpy(np.ascontiguousarray(pts[:, i:i + 1])).requires_grad_(True) for i in range(pts.shape[1])]
    return cols[:-1], cols[-1]


def program(e, dim, torch_names=True, const=False, n_data=None):
    """(program, term trees); parameters are constant fields held for `n_data` points."""
    import torch
    from kd.model.discover.functions import add_torch_tokens, create_tokens
    from kd.model.discover.library import Library
    from kd.model.discover.program import Program, from_tokens
    names = [f"x{i + 1}" for i in range(dim)] + ["u1"] + e["params"] + e["fs"]
    toks = R.decode(e["nums"], names, max_len=24, leaf=[i for i, n in enumerate(names) if n == "u1" or n in e["params"]])
    t = R.tree([names[i] for i in toks])
    if order(t) > (6 if dim < 3 else 5):
        raise Skip
    fs = [f + "_t" for f in e["fs"]] if torch_names else list(e["fs"])
    lib = Library(create_tokens(n_input_var=dim, function_set=fs, protected=False, n_state_var=1, task_type="pde", n_param_var=len(e["params"]), param_names=list(e["params"]) or None))
    lib.add_torch_tokens(add_torch_tokens(fs, protected=False))
    par = dict(zip(e["params"], e["pv"]))
    for k in lib.tokens:
        if k.param_var is not None and n_data:
            k._param_data_ref = torch.full((n_data, 1), par[k.name], dtype=torch.float64)
    R.set_program(lib, task_type="pde_pinn", max_depth=20, cut_ratio=0.02, spatial_error=False, noise_level=0, add_const=const, eq_num=1)
    Program.set_execute(False, True)
    p = from_tokens(np.array(toks, dtype=np.int32))
    p.cached_terms = None
    return p, t, par, lib


def expected(terms, w, const, params, act, pts, lb, ub, par):
    ut, u, cols, spread = term_values(terms, params, act, pts, lb, ub, par)
    rhs = sum((c * k for c, k in zip(cols, w)), np.zeros(len(pts))) + (w[len(cols)] if const else 0.0)
    size = max([1e-3, np.max(np.abs(ut))] + [np.max(np.abs(c * k)) for c, k in zip(cols, w)])
    tol = 1e-9 * size + 1e4 * (spread[0] + sum(s * abs(k) for s, k in zip(spread[2:], w)))
    return ut - rhs, u, ut, cols, tol, spread


def interesting(t, cols, ctx):
    f = set(R.prefix(t))
    ctx.nontrivial(bool(f & set(ORDER) or f & {"mul", "n2", "n3", "div"}) and any(np.any(c != 0) for c in cols))
    ctx.label("derivative", bool(f & set(ORDER))); ctx.label("nested derivative", order(t) > max([ORDER.get(n, 0) for n in f]))
    ctx.label("sub", "sub" in f); ctx.label("lap", "lap" in f); ctx.label("division", "div" in f)


# ---------------------------------------------------------------- facets
@facet(cases(), quick=250, thorough=9000, shards=3)
def residual(case, ctx):
    """pinn_loss is the mean squared residual; predictions are the network on normalised coordinates."""
    import torch
    from kd.model.discover.loss import pinn_loss
    c, e = case["net"], case["eq"]
    m = model(c)
    p, t, par, lib = program(e, c["dim"], const=e["const"], n_data=case["m"])
    terms = [x for _, x in R.split(t)]
    k = len(terms) + (1 if e["const"] else 0)
    w = [float(v) for v in (e["w"] * 2)[:k]]
    if len(w) < k:
        raise Skip
    p.w = w
    lb, ub = bounds(c)
    pts = points(c, case["n"], case["pts"])
    want, u, ut, cols, tol, spread = expected(terms, w, e["const"], net_params(m.nn), ACT[c["act"]], pts, lb, ub, par)
    x, tt = columns(pts)
    xt = torch.cat([*x, tt], axis=1)
    for name, got in (("predict", m.predict(xt)), ("evaluate", m.evaluate([*x, tt])), ("net_u", m.net_u(xt))):
        close(got.detach().numpy(), u.reshape(-1, 1), f"{name} of the network", rtol=1e-9, atol=1e-9 + 1e4 * spread[1])
    before = [q.detach().clone() for q in m.nn.parameters()]
    with quiet():
        loss = pinn_loss(m, p, x, tt, w)
    eq(p.w, w, "coefficients after the loss")
    ref = float(np.mean(want ** 2))
    close(float(loss.detach()), ref, f"physics loss of u_t = {p.str_expression} at {len(pts)} points", rtol=1e-8, atol=3 * tol * (np.max(np.abs(want)) + tol))
    with quiet():
        res = p.STRidge.calculate_RHS([m.net_u(xt)], x, torch.zeros_like(tt), w)
    close(-res.detach().numpy().reshape(-1) * np.ones(len(pts)), ut - want, "right-hand side of the equation at the points", rtol=1e-8, atol=3 * tol)
    with quiet():
        again = pinn_loss(m, p, x, tt, w)
    eq(float(again.detach()), float(loss.detach()), "the same loss a second time")
    check(all(torch.equal(a, b) for a, b in zip(before, m.nn.parameters())), "computing the loss changed the network")
    interesting(t, cols, ctx)
    ctx.label("constant term", e["const"]); ctx.label("parameter", bool(par) and any(n in par for n in R.prefix(t))); ctx.label("other number of points", case["n"] != case["m"])


@facet(cases(), quick=120, thorough=4000, shards=2)
def switched(case, ctx):
    """A program over array operators, switched to the differentiable ones, has the same meaning."""
    import torch
    from kd.model.discover.execute import python_execute_torch
    from kd.model.discover.loss import pinn_loss
    c, e = case["net"], case["eq"]
    m = model(c)
    p, t, par, lib = program(e, c["dim"], torch_names=False, n_data=case["n"])
    terms = [x for _, x in R.split(t)]
    w = [float(v) for v in (e["w"] * 2)[:len(terms)]]
    p.w = w
    toks, names = p.tokens.tolist(), [k.name for k in p.traversal]
    with quiet():
        p.switch_tokens()
    eq(p.tokens.tolist(), toks, "tokens after the switch")
    base = [k.name[:-2] if k.name.endswith("_t") else k.name for k in p.traversal]
    eq(base, names, "expression after the switch")
    lb, ub = bounds(c)
    pts = points(c, case["n"], case["pts"])
    want, u, ut, cols, tol, spread = expected(terms, w, False, net_params(m.nn), ACT[c["act"]], pts, lb, ub, par)
    x, tt = columns(pts)
    with quiet():
        loss = pinn_loss(m, p, x, tt, w)
    close(float(loss.detach()), float(np.mean(want ** 2)), f"physics loss of the switched equation u_t = {p.str_expression}", rtol=1e-8, atol=3 * tol * (np.max(np.abs(want)) + tol))
    with quiet():
        p.switch_tokens()
        again = pinn_loss(m, p, x, tt, w)
        whole = python_execute_torch(p.traversal, [m.net_u(torch.cat([*x, tt], axis=1))], x)
    eq(float(again.detach()), float(loss.detach()), "loss after switching twice")
    if whole is not None:
        one = term_values([t], net_params(m.nn), ACT[c["act"]], pts, lb, ub, par)
        v = whole.detach().numpy().reshape(-1) * np.ones(len(pts))
        close(v, one[2][0], "value of the whole switched expression", rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(cols))) + 1e4 * one[3][2] + 3 * tol)
    interesting(t, cols, ctx)


@facet(st.tuples(G.seeds, st.integers(1, 3), st.lists(st.sampled_from(["constant", "constant", "noise", "one", "ramp"]), min_size=1, max_size=3), st.sampled_from([1.0, 1e-3, 1e-9, 1e-12, 1e6]), st.integers(2, 9)),
       quick=120, thorough=2000)
def parameters(case, ctx):
    """Parameters keep their value on the network's points whatever their magnitude; parameters that vary are refused, not flattened."""
    import torch
    from kd.model.discover.program import Program  # noqa: F401
    from kd.model.discover.task.pde.pde_pinn import PDEPINNTask
    seed, d, kinds, scale, n = case
    r = np.random.RandomState(seed)
    names = ["nu", "kap", "mu2"][:len(kinds)]
    raw = []
    for k in kinds:
        a = np.full((3, 4), scale * r.uniform(0.3, 2) * r.choice([-1, 1]))
        if k == "noise":
            a *= r.uniform(0.2, 2, a.shape)
        elif k == "one":
            a.flat[r.randint(a.size)] *= 1.5
        elif k == "ramp":
            a += scale * np.arange(4)
        raw.append(a)
    keep = [a.copy() for a in raw]
    with quiet():
        task = PDEPINNTask(["add", "mul", "diff"], "custom", metric="pde_reward", use_torch=True, n_input_var=d, max_depth=20, n_param_var=len(raw), param_names=names)
        task.load_data({"param_data": raw})
    task.u = [torch.zeros((n, 1), dtype=torch.float64)]
    bad = [k for k, v in zip(names, kinds) if v != "constant"]
    if bad:
        raises(NotImplementedError, task._refresh_param_refs, f"varying parameters {bad} (size {scale})")
    else:
        task._refresh_param_refs()
        toks = {k.name: k for k in task.library.tokens if k.param_var is not None}
        for k, a in zip(names, keep):
            v = toks[k]._param_data_ref
            eq(tuple(v.shape), (n, 1), f"points of parameter {k}")
            close(v.numpy(), np.full((n, 1), a.flat[0]), f"value of parameter {k}", rtol=1e-12)
    for k, a, b in zip(names, raw, keep):
        check(np.array_equal(a, b), f"parameter data {k} was modified")
    ctx.label("refused" if bad else "accepted"); ctx.nontrivial(len(raw) > 1)


@facet(st.tuples(cases(), st.floats(0.0, 0.3)), quick=120, thorough=4000, shards=2)
def metadata(case, ctx):
    """Data generated from the network: values, time derivatives, points, and the equations evaluated and fitted on them."""
    import torch
    from kd.model.discover.program import Program, from_tokens
    from kd.model.discover.task.pde.pde_pinn import PDEPINNTask
    (case, cut) = case
    c, e = case["net"], case["eq"]
    d = c["dim"]
    m = model(c)
    n = 6 + 2 * case["n"]
    pts = points(c, n, case["pts"])
    m.x_f, m.t_f = columns(pts)
    names = [f"x{i + 1}" for i in range(d)] + ["u1"] + e["params"] + e["fs"]
    toks = R.decode(e["nums"], names, max_len=20, leaf=[i for i, k in enumerate(names) if k == "u1" or k in e["params"]])
    t = R.tree([names[i] for i in toks])
    if order(t) > 4:
        raise Skip
    with quiet():
        task = PDEPINNTask([f + "_t" for f in e["fs"]], "custom", metric="pde_reward", cut_ratio=cut, use_torch=True, n_input_var=d, add_const=e["const"], spatial_error=False, max_depth=20,
                           n_param_var=len(e["params"]), param_names=list(e["params"]) or None)
        par = dict(zip(e["params"], e["pv"]))
        task.load_data({"param_data": [np.full((4, 3), v) for v in e["pv"][:len(par)]]} if par else {})
        R.set_program(task.library, task_type="pde_pinn")
        Program.set_task(task)
        Program.set_execute(False, True)
        Program.reset_task(m, "AD" if d == 1 else "multi_AD")
    # the points: collocation points strictly inside the space quantiles, inside the time quantiles
    keep = np.ones(n, bool)
    for i in range(d):
        keep &= (pts[:, i] > np.quantile(pts[:, i], cut)) & (pts[:, i] < np.quantile(pts[:, i], 1 - cut))
    keep &= (pts[:, -1] >= np.quantile(pts[:, -1], cut)) & (pts[:, -1] <= np.quantile(pts[:, -1], 1 - cut))
    got = np.concatenate([a.detach().numpy() for a in task.x] + [task.t.detach().numpy()], axis=1)
    close(got, pts[keep], "collocation points kept", rtol=1e-6, atol=1e-7)
    if not keep.any():
        ctx.label("no points left")
        return
    terms = [x for _, x in R.split(t)]
    lb, ub = bounds(c)
    # coordinates, and with them derivatives, are single precision here
    ut, u, cols, spread = term_values(terms, net_params(m.nn), ACT[c["act"]], got.astype(float), lb, ub, par, eps=1e-6)
    size = [np.max(np.abs(ut)), np.max(np.abs(u))] + sizes(terms, net_params(m.nn), ACT[c["act"]], got.astype(float), lb, ub, par)
    slack = [20 * v + 1e-5 * max(1e-2, a) for v, a in zip(spread, size)]
    close(task.u[0].detach().numpy().reshape(-1), u, "network values on the points", rtol=1e-6, atol=slack[1])
    close(np.asarray(task.ut).reshape(-1), ut, "time derivative on the points", rtol=1e-6, atol=slack[0])
    with quiet():
        p = from_tokens(np.array(toks, dtype=np.int32))
        r, w, y_hat, theta = task.reward_function(p)
    if p.invalid:
        ctx.label(f"invalid: {str(p.error_type)[:12]}")
        interesting(t, cols, ctx)
        return
    w = np.asarray(w, float).reshape(-1).tolist()
    want = np.stack(cols + ([np.ones(len(ut))] if len(w) == len(cols) + 1 else []), axis=1)
    eq(len(w), want.shape[1], "number of coefficients")
    theta = np.asarray(theta, float).reshape(want.shape)
    for k, a in enumerate(cols):
        close(theta[:, k], a, f"values of the term {R.text(terms[k])} on the points", rtol=1e-5, atol=slack[2 + k])
    close(np.asarray(y_hat).reshape(-1), theta @ np.array(w), "fitted right-hand side", rtol=1e-4, atol=1e-5 * (1e-3 + np.max(np.abs(want)) * np.max(np.abs(w))))
    # the same equation as a residual on all collocation points
    from kd.model.discover.loss import pinn_loss
    res, _, _, cols2, tol, _ = expected(terms, w, len(w) > len(cols), net_params(m.nn), ACT[c["act"]], pts, lb, ub, par)
    with quiet():
        loss = pinn_loss(m, p, m.x_f, m.t_f, w)
    close(float(loss.detach()), float(np.mean(res ** 2)), f"physics loss of the fitted equation u_t = {p.str_expression}", rtol=1e-6, atol=1e-9 + 3 * tol * (np.max(np.abs(res)) + tol))
    interesting(t, cols, ctx)
    ctx.label("fitted"); ctx.label("with parameters", bool(par))


@facet(st.tuples(cases(dim=None), st.booleans(), st.sampled_from([0.1, 1.0, 3.0])), quick=60, thorough=1500, shards=2, case_s=120)
def training(case, ctx):
    """One gradient step of the physics-informed training descends data misfit + coef * mean squared residual."""
    import torch
    case, local, coef = case
    c, e = case["net"], case["eq"]
    c = {**c, "hidden": min(c["hidden"], 3), "layers": min(c["layers"], 2)}
    m = model(c)
    p, t, par, lib = program(e, c["dim"], n_data=case["m"])
    if order(t) > 4:
        raise Skip
    terms = [x for _, x in R.split(t)]
    w = p.w = [float(v) for v in (e["w"] * 2)[:len(terms)]]
    lb, ub = bounds(c)
    data, colloc = points(c, case["n"] + 1, case["pts"]), points(c, case["m"], case["pts"] + 1)
    target = np.random.RandomState(case["pts"]).standard_normal((len(data), 1))
    m.x, m.t = columns(data)
    m.x_f, m.t_f = columns(colloc)
    m.u_train = torch.from_numpy(target)
    act = ACT[c["act"]]
    p0 = net_params(m.nn)

    def objective(params):
        res, u, _, cols, tol, spread = expected(terms, w, False, params, act, np.vstack([colloc, data]), lb, ub, par)
        k = len(colloc)
        mse = float(np.mean((u[k:] - target[:, 0]) ** 2))
        return mse + coef * (float(np.mean(res[:k] ** 2)) + (float(np.mean(res[k:] ** 2)) if local else 0.0)), cols

    f0, cols = objective(p0)
    if not f0 < 1e6:
        raise Skip
    lr = 1.0
    m.optimizer = torch.optim.SGD(m.nn.parameters(), lr=lr)
    before = [a.detach().clone().numpy() for a in m.nn.parameters()]
    with quiet():
        m.train_pinn([p], count=1, coef=coef, local_sample=local)
    m.close()
    step = [(a - b.detach().numpy()).ravel() / lr for a, b in zip(before, m.nn.parameters())]
    flat = []
    for i, (W, b) in enumerate(p0):
        for j, A in enumerate((W, b)):
            g = np.zeros(A.size)
            for k in range(A.size):
                est = []
                for h in (1e-3, 5e-4):
                    v = []
                    for s in (1, -1):
                        q = [(x.copy(), y.copy()) for x, y in p0]
                        q[i][j].flat[k] += s * h
                        v.append(objective(q)[0])
                    est.append((v[0] - v[1]) / (2 * h))
                g[k] = (4 * est[1] - est[0]) / 3
                if abs(est[1] - est[0]) > 1e-2 * (abs(g[k]) + 1e-3 * f0):
                    raise Skip
            flat.append(g)
    size = max(max(np.max(np.abs(g)) for g in flat), 1e-6)
    for k, (a, b) in enumerate(zip(step, flat)):
        close(a, b, f"gradient step on parameter {k} for u_t = {p.str_expression}", rtol=1e-3, atol=1e-4 * size + 1e-7 * f0)
    interesting(t, cols, ctx)
    ctx.label("local", local); ctx.label("parameters", bool(par))


@facet(st.fixed_dictionaries({"dim": st.sampled_from([1, 1, 2]), "n": st.integers(5, 7), "seed": st.integers(0, 999), "data": G.seeds, "rs": st.integers(0, 99), "local": st.booleans(),
                              "params": st.booleans(), "const": st.booleans(), "amp": st.sampled_from([1.0, 1.0, 1.0, 1e5])}), quick=10, thorough=150, shards=4, case_s=200)
def whole_run(case, ctx):
    """After training, the data of the last search are those of the network returned to the caller, and the reported equation is fitted on them."""
    import torch
    from kd.dataset import PDEDataset
    from kd.model.discover.program import Program
    from kd.model.kd_discover import KD_Discover_SPR
    n, dim = case["n"], case["dim"]
    axes = [np.linspace(0.5, 2, n)] * dim + [np.linspace(0, 1, n)]
    u = G.smooth(axes, case["data"]) * case["amp"]
    par = {"nu": np.full(u.shape, 1.5)} if case["params"] else None
    if dim == 1:
        ds = PDEDataset("ds", x=axes[0], t=axes[1], usol=u, param_fields=par)
    else:
        names = ["x", "y"][:dim] + ["t"]
        ds = PDEDataset("ds", fields_data={"u": u}, coords_1d=dict(zip(names, axes)), axis_order=names, target_field="u", lhs_axis="t", param_fields=par)
    conf = {"training": {"verbose": False, "debug": 0, "n_samples": 10, "batch_size": 10, "early_stopping": False, "stability_selection": False}, "controller": {"max_length": 20, "num_units": 8, "attention": False},
            "pinn": {"number_layer": 2, "n_hidden": 4, "pinn_epoch": 4, "duration": 3, "coll_data": 20, "iter_num": 1 + case["seed"] % 2, "local_sample": case["local"]},
            "task": {"add_const": case["const"]}, "prior": {"length": {"min_": 3, "max_": 20, "on": True}}}
    m = KD_Discover_SPR(out_path="run/r.csv", config_out=conf, n_iterations=1, n_samples_per_batch=10, seed=case["seed"])
    with quiet():
        m.import_dataset(ds, sample_ratio=0.5, colloc_num=15, random_state=case["rs"])
    setup = m.setup

    def quick_setup():
        setup()
        m.denoise_pinn.pretrain_epoch = 5
    m.setup = quick_setup
    with quiet():
        try:
            res = m.train(n_epochs=1, verbose=False)
        except (ValueError, TypeError, IndexError, AttributeError) as x:
            if "NoneType" in str(x) or "zero-size" in str(x):
                ctx.label("nothing found")
                return
            raise
    net, task = m.denoise_pinn, Program.task
    pts = np.concatenate([a.detach().numpy() for a in task.x] + [task.t.detach().numpy()], axis=1).astype(float)
    lb, ub = net.lb.numpy().astype(float), net.ub.numpy().astype(float)
    close(lb, [a[0] for a in axes], "lower bounds of the network", rtol=1e-6, atol=1e-6)
    close(ub, [a[-1] for a in axes], "upper bounds of the network", rtol=1e-6, atol=1e-6)
    xt = torch.from_numpy(pts).float()
    close(task.u[0].detach().numpy(), net.predict(xt).detach().numpy(), "data of the last search against the prediction of the returned network", rtol=1e-5, atol=1e-5)
    if case["amp"] != 1:                       # losses of 1e10: nothing fits, but the training completes
        ctx.label("large fields")
        return
    p = res["program"]
    names = [k.name[:-2] if k.name.endswith("_t") and k.name not in (par or {}) else k.name for k in p.traversal]
    t = R.tree(names)
    terms = [x for _, x in R.split(t)]
    try:
        if order(t) > 5:
            raise Skip
        ut, uu, cols, spread = term_values(terms, net_params(net.nn), "tanh", pts, lb, ub, {"nu": 1.5}, eps=1e-5)
    except Skip:
        ctx.label("value not comparable")
        return
    close(task.u[0].detach().numpy().reshape(-1), uu, "network values", rtol=1e-4, atol=1e-4 * max(1, np.max(np.abs(uu))))
    close(np.asarray(task.ut).reshape(-1), ut, "time derivative of the network", rtol=1e-3, atol=1e-3 * max(1e-2, np.max(np.abs(ut))))
    # observations: every sampled value belongs to its point
    X = np.concatenate([a.detach().numpy() for a in net.x] + [net.t.detach().numpy()], axis=1).astype(float)
    lookup = {tuple(np.round(np.array([axes[k][i[k]] for k in range(dim + 1)]), 4)): u[i] for i in np.ndindex(*u.shape)}
    for row, v in zip(X, net.u_train.numpy().reshape(-1)):
        close(v, lookup[tuple(np.round(row, 4))], f"observation at {row}", rtol=1e-4, atol=1e-5)
    if p.invalid:
        ctx.label("invalid best")
        return
    w = np.asarray(p.w, float).reshape(-1)
    want = np.stack(cols + ([np.ones(len(ut))] if len(w) == len(cols) + 1 else []), axis=1)
    eq(len(w), want.shape[1], "number of coefficients")
    theta = np.asarray(p.Theta, float).reshape(want.shape)
    size = sizes(terms, net_params(net.nn), "tanh", pts, lb, ub, {"nu": 1.5})
    if all(v < 1e-2 * (1e-2 + np.max(np.abs(a))) for v, a in zip(spread[2:], cols)):
        for k, a in enumerate(cols):
            close(theta[:, k], a, f"values of the term {R.text(terms[k])} of the reported equation", rtol=1e-3, atol=20 * spread[2 + k] + 1e-4 * max(1e-2, size[k]))
        ctx.label("terms compared")
    ctx.nontrivial()


@facet(cases(), quick=60, thorough=1500)
def fixed_coefficients(case, ctx):
    """With the constant optimiser that keeps the expression as written, the residual uses the expression as written."""
    import torch
    from kd.model.discover.loss import pinn_loss
    from kd.model.discover.program import Program, from_tokens
    c, e = case["net"], case["eq"]
    m = model(c)
    p, t, par, lib = program(e, c["dim"], n_data=case["n"])
    if order(t) > 4:
        raise Skip
    lb, ub = bounds(c)
    pts = points(c, case["n"], case["pts"])
    x, tt = columns(pts)
    Program.set_const_optimizer("scipy")
    try:
        with quiet():
            p = from_tokens(p.tokens.astype(np.int32), skip_cache=True)
            y, theta, w = p.execute([m.net_u(torch.cat([*x, tt], axis=1))], x, np.zeros((len(pts), 1)))
    finally:
        Program.set_const_optimizer("dummy")
    if p.invalid:
        ctx.label(f"invalid: {str(p.error_type)[:12]}")
        return
    ut, u, cols, spread = term_values([t], net_params(m.nn), ACT[c["act"]], pts, lb, ub, par)
    close(np.asarray(y).reshape(-1), cols[0], "value of the expression", rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(cols[0]))) + 1e4 * spread[2])
    with quiet():
        loss = pinn_loss(m, p, x, tt, list(w))
    res = ut - cols[0]
    tol = 1e-8 * (1 + np.max(np.abs(cols[0]))) + 1e4 * (spread[2] + spread[0])
    close(float(loss.detach()), float(np.mean(res ** 2)), f"physics loss of u_t = {R.text(t)} with the coefficients {w}", rtol=1e-7, atol=3 * tol * (np.max(np.abs(res)) + tol))
    interesting(t, cols, ctx)
