"""C18: Discover rewards are the documented function of the fitted equation."""
import triton._C.libtriton  # noqa: F401
import numpy as np
from hypothesis import strategies as st

from vlib import discref as R, gens as G
from vlib.core import Frozen, check, close, eq, facet
from vlib.sgaref import quiet

TECHNIQUE = ("property-based testing: random libraries, grids, candidate equations, left-hand sides and metric settings; reward, coefficients and report "
             "are compared with a least-squares fit and metric computed by an independent evaluator, and with the rewards of reordered, re-signed and "
             "extended versions of the same equation (metamorphic relations)")
RULE = "non-trivial: a valid candidate with at least two terms whose reference fit is well conditioned (pde), or a valid formula with a function token (regression)"


def fld(kind, seed, axes, shape):
    r = np.random.RandomState(seed)
    if kind == "smooth":
        return G.smooth(axes, seed)
    if kind == "int":
        return r.randint(-3, 4, shape).astype(float)
    if kind == "positive":
        return r.uniform(0.5, 2, shape)
    return r.standard_normal(shape)


@st.composite
def tasks(draw, terms=(1, 5)):
    d = draw(st.sampled_from([1, 1, 2, 3]))
    s = {"pde": True, "dim": d, "nu": 1, "params": draw(st.permutations(["nu", "alpha"]))[:draw(st.sampled_from([0, 0, 1, 2]))],
         "functions": ["add", "sub", "mul"] + draw(st.permutations(["div", "n2", "n3", "sin", "exp", "neg", "log", "sqrt", "tanh"]))[:draw(st.integers(0, 3))]
         + draw(st.permutations(R.diffs_of(d)))[:draw(st.integers(0, 2))], "protected": draw(st.sampled_from([False, False, True]))}
    sizes = [draw(st.integers(4, 8)) for _ in range(d)]
    return {"s": s, "sizes": sizes, "nt": draw(st.integers(3, 7)), "terms": draw(st.lists(st.lists(st.integers(0, 9999), min_size=1, max_size=7), min_size=terms[0], max_size=terms[1])),
            "kind": draw(st.sampled_from(["smooth", "normal", "normal", "int", "positive"])), "seed": draw(G.seeds),
            "ut": draw(st.sampled_from(["random", "exact", "noisy", "noisy", "big", "tiny"])),
            "metric": draw(st.sampled_from(["pde_reward", "pde_reward", "pde_reward", "inv_nrmse", "correlation", "R2"])),
            "c": draw(st.sampled_from([0.0, 0.01, 0.01, 0.05, 0.1])), "const": draw(st.sampled_from([False, False, True])),
            "spatial": draw(st.sampled_from([False, False, False, False, True])), "depth": draw(st.sampled_from([5, 4, 4, 4, 4, 4, 3, 1])),
            "noise": draw(st.sampled_from([0, 0, 0, 0.1])), "cut": draw(st.sampled_from([0.03, 0.1, 0.2])),
            "shape": draw(st.lists(st.integers(0, 9999), min_size=6, max_size=6)), "test": draw(st.sampled_from([False, False, False, True]))}


def setup(c, terms):
    """(task, reference fields, data dict, names)."""
    from kd.model.discover.task.task import set_task
    from kd.model.discover.program import Program
    s, d = c["s"], c["s"]["dim"]
    r = np.random.RandomState(c["seed"])
    x = [np.arange(n) * 0.5 + round(r.uniform(-1, 1), 2) for n in c["sizes"]]
    tt = np.arange(c["nt"]) * 0.25
    axes = [x[0], tt] if d == 1 else [tt] + x
    shape = tuple(len(a) for a in axes)
    u = fld(c["kind"], c["seed"], axes, shape)
    params = {n: fld(c["kind"], c["seed"] + 50 + k, axes, shape) for k, n in enumerate(s["params"])}
    F = R.Fields(d, x, [u], params, s["protected"])
    cols = []
    for t in terms:
        F.trouble = False
        v, sp, tr = R.evaluate(F, t)
        # derivatives of coordinates alone have their own discretisation (see C17): no precise reference
        cols.append((v, sp + np.inf if coordinate_derivative(t) else sp, tr))
    good = [np.broadcast_to(v, shape) for v, _, tr in cols if not tr and np.shape(v) == shape]
    w0 = [r.choice([-1, 1]) * r.uniform(0.5, 2) for _ in good]
    ut = sum((w * v for w, v in zip(w0, good)), np.zeros(shape))
    if c["ut"] == "noisy":
        ut = (ut if np.abs(ut).max() < 1e100 else 0) + r.standard_normal(shape) * (0.1 * min(np.std(ut), 1e6) + 0.01)
    elif c["ut"] != "exact" or not np.any(ut) or np.abs(ut).max() > 1e100:
        ut = r.standard_normal(shape) * {"big": 300.0, "tiny": 1e-3}.get(c["ut"], 1.0)
    data = {"u": u, "X": [v.reshape(-1, 1) for v in x], "ut": ut, "n_input_dim": d, "sym_true": ""}
    if s["params"]:
        data.update(param_data=[params[n] for n in s["params"]], n_param_var=len(s["params"]), param_names=list(s["params"]))
    if c["test"] and not c["noise"]:
        data.update(u_test=[u], ut_test=ut.reshape(-1, 1))
    Program.clear_cache()
    Program.set_n_objects(1)
    Program.set_default_terms([])
    Program.set_complexity("length")
    Program.set_const_optimizer("dummy")
    task = set_task(dict(task_type="pde", function_set=list(s["functions"]), dataset="x", metric=c["metric"], metric_params=[c["c"]], threshold=1e-6,
                         data_noise_level=c["noise"], cut_ratio=c["cut"], add_const=c["const"], spatial_error=c["spatial"], max_depth=c["depth"],
                         protected=s["protected"]), data)
    task = Program.task
    names = [t.name for t in task.library.tokens]
    eq(names, R.names_of(s), "token names of the task")
    return task, F, data, names, cols, shape


def coordinate_derivative(t):
    return (t[0] in R.DIFFS | {"lap", "lap_3"} and all(len(n) > 1 or n[0][0] == "x" for n in walk(t[1]))) or any(coordinate_derivative(k) for k in t[1:])


def walk(t):
    yield t
    for k in t[1:]:
        yield from walk(k)


def parts(c):
    names = R.names_of(c["s"])
    body = [n for n in names if n not in R.ADDITIVE]
    leaf = [i for i, n in enumerate(body) if n == "u1" or n in c["s"]["params"]]
    out = []
    for k, nums in enumerate(c["terms"]):
        toks = R.decode(nums, body, max_len=14, leaf=leaf)
        if not any(body[i] == "u1" for i in toks) and (c["seed"] + k) % 6:
            toks = [body.index("mul"), body.index("u1")] + toks
        if k % 3 and len(toks) == 1:
            toks = [body.index("mul"), body.index("u1")] * k + toks
        df = [n for n in body if n in R.DIFFS]
        if df and c["s"]["params"] and (c["seed"] + 3 * k) % 8 == 0:       # a derivative of a parameter alone
            toks = [body.index(n) for n in (df[0], c["s"]["params"][0], f"x{1 + k % c['s']['dim']}")]
        out.append(R.tree([body[i] for i in toks]))
    return out


def join(terms, shape):
    """An additive expression whose leaves are `terms` in order, with a shape and signs taken from the numbers."""
    if len(terms) == 1:
        return terms[0]
    v = shape[len(terms) % len(shape)] + 7 * len(terms)
    k = 1 + v % (len(terms) - 1)
    return ("sub" if v % 3 == 0 else "add", join(terms[:k], shape[1:] + shape[:1]), join(terms[k:], shape[2:] + shape[:2]))


def make(names, t):
    from kd.model.discover.program import from_tokens
    return from_tokens(np.array([names.index(n) for n in R.prefix(t)], dtype=np.int32))


def trim(v, c):
    if not c["noise"]:
        return v
    return v[tuple(slice(int(np.floor(c["cut"] * n)), int(np.ceil((1 - c["cut"]) * n))) for n in v.shape)]


def rules(c, t, terms):
    """Structural reasons that make the candidate invalid."""
    out = []
    names = R.prefix(t)
    if c["spatial"] and len({sum(f"x{i + 1}" == n for n in names) for i in range(c["s"]["dim"])}) > 1:
        out.append("spatial")
    for w in terms:
        p = R.prefix(w)
        if int(np.ceil(np.log2(len(p)))) > c["depth"]:
            out.append("depth")
        if any("diff" in n.lower() for n in p) and "u1" not in p:
            out.append("derivative without field")
    return out


def reference(c, cols, shape, ut):
    """(weights, prediction, precise) of the least-squares fit, or None when a column is unusable."""
    if any(tr or np.shape(v) != shape for v, _, tr in cols):
        return None
    A = np.stack([trim(v, c).reshape(-1) for v, _, _ in cols], 1)
    if c["const"]:
        A = np.concatenate([A, np.ones((len(A), 1))], 1)
    y = trim(ut, c).reshape(-1)
    n = np.linalg.norm(A, axis=0)
    if not np.all(n > 0) or not np.all(np.isfinite(n)):
        return None
    sv = np.linalg.svd(A / n, compute_uv=False)
    cond = sv[0] / sv[-1] if len(A) >= A.shape[1] and sv[-1] > 0 else np.inf
    noise = max(float(np.max(sp) / (np.max(np.abs(v)) + 1e-300)) for v, sp, _ in cols)
    z = np.linalg.lstsq(A / n, y, rcond=None)[0]
    w = z / n
    if c["const"] and abs(w[-1]) < 5e-5:
        A2, n2 = A[:, :-1], n[:-1]
        w = np.linalg.lstsq(A2 / n2, y, rcond=None)[0] / n2
        return w, A2 @ w, cond * max(noise, 1e-12) < 1e-6 and np.ptp(n) / n.min() < 1e6 and abs(z[-1] / n[-1]) < 4e-5, y
    if c["const"] and abs(w[-1]) < 6e-5:
        return w, A @ w, False, y
    return w, A @ w, cond * max(noise, 1e-12) < 1e-6 and np.ptp(n) / n.min() < 1e6, y


def metric(c, y, y_hat, n):
    mse = np.mean((y - y_hat) ** 2)
    acc = 1 / (1 + np.sqrt(mse / np.var(y)))
    if c["metric"] == "pde_reward":
        return (1 - c["c"] * n) * acc
    if c["metric"] == "inv_nrmse":
        return acc
    if c["metric"] == "correlation":
        return float(np.corrcoef(y, y_hat)[0, 1])
    return 1 - mse / np.var(y)


def outcome(p):
    with quiet():
        r = p.r_ridge
    return r, p.w, p.y_hat_rhs, p.Theta


@facet(tasks(), quick=500, thorough=14000, shards=2)
def rewards(case, ctx):
    """Reward, coefficients, prediction and report of one candidate."""
    c = case
    terms = parts(c)
    task, F, data, names, cols, shape = setup(c, terms)
    t = join(terms, c["shape"])
    p = make(names, t)
    fr = Frozen(data=data)
    r, w, y_hat, theta = outcome(p)
    fr.verify("the reward")
    what = f"{R.text(t)} [{c['metric']} c={c['c']} const={c['const']} noise={c['noise']}]"
    broken = rules(c, t, terms)
    ref = reference(c, cols, shape, data["ut"])
    ctx.label("invalid", bool(p.invalid)); ctx.label(c["metric"]); ctx.label("noise", bool(c["noise"])); ctx.label("const", c["const"])
    if p.invalid:
        eq(float(r), 0.0, f"{what}: reward of an invalid candidate")
        eq([float(v) for v in w], [0.0], f"{what}: coefficients of an invalid candidate")
        check(y_hat is None and theta is None, f"{what}: an invalid candidate has a prediction")
        with quiet():
            ev = p.evaluate
        eq(bool(ev["success"]), False, f"{what}: success of an invalid candidate")
        check(ev["nmse_test"] is None, f"{what}: error of an invalid candidate")
        fieldless = any("u1" not in R.prefix(q) for q in terms)
        if not broken and not fieldless and ref is not None and ref[2]:
            small = np.abs(ref[0][:len(terms)])
            check(small.min() < 6e-5 or np.abs(ref[0]).max() > 0.9e4, f"{what}: rejected ({p.error_type}) although coefficients are {ref[0]}", sig="rejected")
        for b in broken:
            ctx.label(b)
        return
    check(not broken, f"{what}: valid although {broken}", sig="rule")
    if c["metric"] == "correlation" and np.ptp(y_hat) <= 1e-12 * np.abs(y_hat).max():
        ctx.label("correlation with a constant is undefined")
        return
    check(np.isfinite(r), f"{what}: reward {r!r}")
    n = len(w)
    check(all(5e-5 <= abs(v) <= 1e4 for v in w[:len(terms)]) or (c["const"] and n == len(terms)), f"{what}: coefficients {w}")
    y = trim(data["ut"], c).reshape(-1)
    y_hat = np.asarray(y_hat, float).reshape(-1)
    theta = np.asarray(theta, float)
    eq(theta.shape, (len(y), n), f"{what}: shape of the term matrix")
    close(y_hat, theta @ np.array(w), rtol=1e-9, atol=1e-9 * (1 + np.abs(y_hat).max()), what=f"{what}: prediction is not terms * coefficients")
    # the fit is optimal and the reward is the metric of it
    g = theta.T @ (y - y_hat)
    scale = np.linalg.norm(theta, axis=0) * (np.linalg.norm(y) + 1e-300)
    full = np.linalg.matrix_rank(theta / np.maximum(np.linalg.norm(theta, axis=0), 1e-300)) == n and np.linalg.cond(theta) < 1e8
    if full:
        check(np.all(np.abs(g) <= 1e-6 * scale), f"{what}: residual is not orthogonal to the terms ({g / scale})")
    want = metric(c, y, y_hat, n)
    close(float(r), float(want), rtol=1e-9, atol=1e-9, what=f"{what}: reward")
    if c["metric"] in ("pde_reward", "inv_nrmse"):
        check(r <= 1 + 1e-12 and (r >= 0 or c["c"] * n > 1), f"{what}: reward {r}")
    else:
        check(r <= 1 + 1e-9, f"{what}: reward {r}")
    if ref is not None and ref[2]:
        eq(n, len(ref[0]), f"{what}: number of coefficients")
        close(np.array(w), ref[0], rtol=1e-4, atol=1e-6 * np.abs(ref[0]).max(), what=f"{what}: coefficients")
        close(float(r), metric(c, ref[3], ref[1], n), rtol=1e-5, atol=1e-5, what=f"{what}: reward of the reference fit")
    with quiet():
        ev = p.evaluate
    mse = float(np.mean((y - y_hat) ** 2))
    close(float(ev["nmse_test"]), mse, rtol=1e-9, atol=1e-18 + 1e-12 * np.var(y), what=f"{what}: reported error")
    eq(bool(ev["success"]), bool(ev["nmse_test"] < 1e-6), f"{what}: success flag")
    if c["test"] and not c["noise"]:
        close(np.array(ev["w_test"], float), np.array(w), rtol=1e-9, atol=0, what=f"{what}: coefficients on the test data (same data)")
    ctx.nontrivial(len(terms) > 1 and ref is not None and bool(ref[2]))
    ctx.label("well conditioned", ref is not None and bool(ref[2])); ctx.label(f"{c['s']['dim']}-D")


@facet(st.tuples(tasks((2, 6)), st.lists(st.integers(0, 9999), min_size=6, max_size=6), st.lists(st.integers(0, 9999), min_size=6, max_size=6)), quick=250, thorough=7000, shards=1)
def order(case, ctx):
    """Reordering, regrouping and re-signing the terms changes neither the reward nor the coefficients (up to order and sign)."""
    c, perm, shape2 = case
    c = {**c, "spatial": False, "depth": 4, "test": False}
    terms = parts(c)
    task, F, data, names, cols, shape = setup(c, terms)
    t1 = join(terms, c["shape"])
    ix = sorted(range(len(terms)), key=lambda k: (perm[k % 6] + 13 * k) % 97)
    t2 = join([terms[k] for k in ix], shape2)
    p1, p2 = make(names, t1), make(names, t2)
    r1, w1, *_ = outcome(p1)
    r2, w2, *_ = outcome(p2)
    ref = reference(c, cols, shape, data["ut"])
    what = f"{R.text(t1)} and {R.text(t2)}"
    ok = ref is not None and ref[2] and all(6e-5 < abs(v) < 0.9e4 for v in ref[0])
    if ok:
        eq(bool(p1.invalid), bool(p2.invalid), f"validity of {what}")
        if c["metric"] != "correlation":
            close(float(r1), float(r2), rtol=1e-6, atol=1e-7, what=f"rewards of {what}")
        if not p1.invalid:
            close(np.array(w2)[:len(ix)], np.array(w1)[ix], rtol=1e-4, atol=1e-6 * np.abs(w1).max(), what=f"coefficients of {what}")
    elif not p1.invalid and not p2.invalid and abs(r1 - r2) > 1e-4:
        # rank-deficient fits still have a unique prediction
        n = np.linalg.norm(p1.Theta, axis=0)
        check(np.linalg.cond(p1.Theta / n) > 1e7, f"rewards of {what}: {r1} and {r2}")
    ctx.nontrivial(bool(ok) and ix != sorted(ix) and not p1.invalid)


@facet(st.tuples(tasks((1, 4)), st.lists(st.integers(0, 9999), min_size=1, max_size=7), st.booleans()), quick=250, thorough=7000, shards=1)
def length_penalty(case, ctx):
    """Adding a term (a duplicate or another) improves the reward only as far as it reduces the error."""
    c, extra, dup = case
    c = {**c, "spatial": False, "depth": 4, "test": False, "metric": "pde_reward", "const": False, "c": c["c"] or 0.01}
    base = parts(c)
    more = base[extra[0] % len(base)] if dup else parts({**c, "terms": [extra]})[0]
    task, F, data, names, cols, shape = setup(c, base)
    p1, p2 = make(names, join(base, c["shape"])), make(names, join(base + [more], c["shape"]))
    r1, w1, y1, _ = outcome(p1)
    r2, w2, y2, _ = outcome(p2)
    if p1.invalid or p2.invalid or c["c"] * len(w2) >= 1:
        ctx.label("invalid")
        return
    y = trim(data["ut"], c).reshape(-1, 1)
    e1, e2 = np.mean((y1 - y) ** 2), np.mean((y2 - y) ** 2)
    eq(len(w2), len(w1) + 1, "number of coefficients after adding a term")
    what = f"{R.text(join(base, c['shape']))} and one more term {R.text(more)}"
    floor = 1e-12 * np.var(y)
    if e2 >= e1 * (1 - 1e-12):
        a2 = 1 / (1 + np.sqrt(e2 / np.var(y)))
        slack = 1e-5 if max(e1, e2) < floor else 1e-12
        check(r2 <= r1 * (1 - c["c"] * len(w2)) / (1 - c["c"] * len(w1)) + slack, f"{what}: reward rose from {r1} to {r2} although the error went from {e1} to {e2} (accuracy {a2})")
    if np.linalg.cond(p2.Theta) < 1e7:
        check(e2 <= e1 * (1 + 1e-9) + floor, f"{what}: the error rose from {e1} to {e2}")
    ctx.nontrivial(len(w1) >= 1 and (dup or e2 < e1))
    ctx.label("duplicate", dup)


@st.composite
def tables(draw):
    s = draw(R.lib_specs(pde=False))
    if draw(st.booleans()) and "const" not in s["functions"]:
        s["functions"] = s["functions"] + ["const"]
    return {"s": s, "nums": draw(st.lists(st.integers(0, 9999), min_size=2, max_size=16)), "rows": draw(st.integers(2, 12)), "seed": draw(G.seeds),
            "y": draw(st.sampled_from(["random", "exact", "near", "constant", "big"])), "pars": draw(st.sampled_from([0.0, 0.0, 0.01, 0.1, 0.3])),
            "opt": draw(st.sampled_from(["dummy", "scipy"]))}


@facet(tables(), quick=300, thorough=9000, shards=2)
def regression(case, ctx):
    """Direct symbolic regression: reward, parsimony penalty and report."""
    from kd.model.discover.program import Program, from_tokens
    from kd.model.discover.task.task import set_task
    c, s = case, case["s"]
    names = R.names_of(s)
    toks = R.decode(c["nums"], names, max_len=20)
    t = R.tree([names[i] for i in toks])
    r = np.random.RandomState(c["seed"])
    X = r.uniform(0.2, 2, (c["rows"], s["dim"])) * r.choice([-1, 1, 1], (c["rows"], s["dim"]))
    nc = sum(n == "const" for n in R.prefix(t))
    F = R.Fields(1, [X[:, i] for i in range(s["dim"])], [], protected=s["protected"], consts=[1.0] * nc)
    v, spread, trouble = R.evaluate(F, t)
    v = np.broadcast_to(v, (c["rows"], 1)).copy()
    y = r.standard_normal((c["rows"], 1))
    if c["y"] in ("exact", "near") and not trouble and np.abs(v).max() < 1e6:
        y = v + (0 if c["y"] == "exact" else 0.1 * y)
    elif c["y"] == "constant":
        y = np.full_like(y, 1.5)
    elif c["y"] == "big":
        y = y * 1e4
    Program.clear_cache()
    Program.set_n_objects(1)
    Program.set_complexity("length")
    Program.set_const_optimizer(c["opt"])
    data = {"X": [X[:, i] for i in range(s["dim"])], "y": y.ravel(), "n_input_var": s["dim"]}
    fr = Frozen(data=data)
    set_task(dict(task_type="regression", function_set=list(s["functions"]), dataset="x", protected=s["protected"], parsimony_coeff=c["pars"], threshold=1e-9), data)
    p = from_tokens(np.array(toks, dtype=np.int32))
    rew, w, y_hat, _ = outcome(p)
    with quiet():
        ev = p.evaluate
    fr.verify("the reward")
    what = f"{R.text(t)} [parsimony {c['pars']} {c['opt']}]"
    ctx.label("invalid", bool(p.invalid)); ctx.label(c["y"])
    if p.invalid or y_hat is None:
        eq(float(rew), 0.0, f"{what}: reward of an invalid formula")
        eq([float(q) for q in w], [0.0], f"{what}: coefficients of an invalid formula")
        eq([ev["mse"], ev["nmse_test"], bool(ev["success"])], [None, None, False], f"{what}: report of an invalid formula")
        check(trouble or nc, f"{what}: rejected ({p.error_type})")
        return
    consts = p.get_constants()
    eq(len(consts), nc, "number of constants")
    F = R.Fields(1, [X[:, i] for i in range(s["dim"])], [], protected=s["protected"], consts=list(consts))
    v2, sp2, tr2 = R.evaluate(F, t)
    R.agree(y_hat, np.broadcast_to(v2, (c["rows"], 1)), np.broadcast_to(sp2, (c["rows"], 1)), f"{what}: prediction")
    mse = float(np.mean((y - y_hat) ** 2))
    want = 1 / (1 + np.sqrt(mse / max(np.var(y), 1e-12))) * max(0.0, 1 - c["pars"] * len(toks))
    close(float(rew), want, rtol=1e-9, atol=1e-12, what=f"{what}: reward")
    check(0 <= rew <= 1, f"{what}: reward {rew}")
    close(float(ev["mse"]), mse, rtol=1e-9, atol=1e-300, what=f"{what}: reported error")
    close(float(ev["nmse_test"]), mse, rtol=1e-9, atol=1e-300, what=f"{what}: reported error")
    eq(bool(ev["success"]), ev["mse"] < 1e-9, f"{what}: success flag")
    if nc and not trouble and c["opt"] == "scipy":
        m1 = float(np.mean((y - v) ** 2))
        check(mse <= m1 * (1 + 1e-6) + 1e-12, f"{what}: optimised constants {consts} have error {mse}, all-ones has {m1}", sig="optimiser")
        ctx.label("optimised", mse < m1 * (1 - 1e-6))
    ctx.nontrivial(len(toks) > 1)


@facet(st.tuples(st.sampled_from(["pde_reward", "inv_nrmse", "correlation", "R2"]), st.sampled_from([0.0, 0.01, 0.1]), G.seeds, st.integers(2, 30), st.integers(1, 9),
                 st.sampled_from([0.0, 1e-6, 0.1, 1.0, 30.0])), quick=200, thorough=3000, shards=1)
def metrics(case, ctx):
    """The metric itself: documented value; monotone in the error and in the number of terms."""
    from kd.model.discover.task.pde.pde import make_pde_metric
    from kd.model.discover.task.regression import make_regression_metric
    name, c, seed, m, n, noise = case
    r = np.random.RandomState(seed)
    y = r.standard_normal((m, 1))
    e = r.standard_normal((m, 1))
    f, bad, top = make_pde_metric(name, c)
    cfg = {"metric": name, "c": c}
    v = float(f(y, y + noise * e, n))
    close(v, float(metric(cfg, y.ravel(), (y + noise * e).ravel(), n)), rtol=1e-9, atol=1e-9, what=f"{name}({c}) with error {noise}")
    eq([float(bad), float(top)], [0.0, 1.0], f"{name}: invalid and best reward")
    check(v <= top + 1e-9, f"{name}: {v}")
    if name in ("pde_reward", "inv_nrmse"):
        worse = float(f(y, y + 2 * (noise + 0.01) * e, n))
        check(worse < v, f"{name}: doubling the error raised the reward from {v} to {worse}")
        longer = float(f(y, y + noise * e, n + 1))
        check(longer < v if name == "pde_reward" and c > 0 else longer == v, f"{name}: one more term with the same error: {v} -> {longer}")
    g, bad, top = make_regression_metric("inv_nrmse", c)
    eq([bad, top], [0.0, 1.0], "regression metric bounds")
    close(float(g(y, y + noise * e, n)), metric({"metric": "inv_nrmse"}, y.ravel(), (y + noise * e).ravel(), n) * max(0, 1 - c * n), rtol=1e-9, atol=1e-12, what="regression metric")
    ctx.nontrivial(noise > 0)
