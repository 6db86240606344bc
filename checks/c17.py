"""C17: executing a Discover program gives the mathematical value of its expression."""
import triton._C.libtriton  # noqa: F401
import numpy as np
from hypothesis import strategies as st

from vlib import discref as R, gens as G
from vlib.core import Frozen, check, eq, facet
from vlib.sgaref import quiet

TECHNIQUE = ("property-based testing against an independent evaluator: random token libraries, expressions, grids (one to three space dimensions, equal and "
             "different axis lengths), parameter fields, constants and data with zeros, negatives and huge values; plus random histories of numpy and "
             "differentiable executions in which every repetition must agree")
RULE = "non-trivial: the expression has a function token and a finite, data-dependent value"


def data_1(kind, seed, shape):
    r = np.random.RandomState(seed)
    if kind == "zeros":
        return np.where(r.uniform(size=shape) < 0.3, 0.0, r.standard_normal(shape))
    if kind == "int":
        return r.randint(-3, 4, shape).astype(float)
    if kind == "huge":
        return r.standard_normal(shape) * 10.0 ** r.choice([0, 3, 30, 120, 250], size=shape)
    if kind == "tiny":
        return r.standard_normal(shape) * 10.0 ** r.choice([0, -3, -30, -150], size=shape)
    if kind in ("hole", "infinite"):                       # one unusable sample somewhere
        v = r.standard_normal(shape)
        v.flat[r.randint(v.size)] = np.nan if kind == "hole" else np.inf
        return v
    if kind == "large":
        return r.standard_normal(shape) * 200
    return r.standard_normal(shape)


KINDS = st.sampled_from(["normal", "normal", "zeros", "int", "huge", "tiny", "large"])


@st.composite
def tables(draw):
    s = draw(R.lib_specs(pde=False))
    if draw(st.booleans()):
        s["functions"] = s["functions"] + draw(st.lists(st.sampled_from(["2.0", "0.5", "-1.25", "0.1"]), max_size=2, unique=True))
        if "const" in s["functions"]:
            s["functions"].remove("const")
    return {"s": s, "nums": draw(st.lists(st.integers(0, 9999), min_size=2, max_size=22)), "rows": draw(st.integers(1, 6)),
            "kind": draw(KINDS), "seed": draw(G.seeds), "as": draw(st.sampled_from(["columns", "matrix"]))}


def program(s, toks, lib):
    from kd.model.discover.program import from_tokens
    return from_tokens(np.array(toks, dtype=np.int32))


def verdict(got, invalid, F, t, what, ctx):
    """Agreement of one execution with the reference."""
    want, spread, trouble = R.evaluate(F, t)
    if got is None or not np.all(np.isfinite(got)):
        check(bool(invalid), f"{what}: the result {got!r} is not finite but not flagged invalid")
    if not trouble:
        check(not invalid, f"{what}: flagged invalid although no operation failed")
    if not invalid:
        check(np.all(np.isfinite(np.asarray(want))) or not np.any(np.isfinite(spread)) or trouble, f"{what}: reference is not finite")
        frac = R.agree(got, want, spread, what)
        ctx.label("compared mostly", frac > 0.5)
        ctx.nontrivial(len(t) > 1 and np.ptp(np.asarray(want, float)) > 0 and frac > 0.5)
    ctx.label("invalid", bool(invalid))


@facet(tables(), quick=500, thorough=15000, shards=2)
def tabular(case, ctx):
    """Regression mode: columns of a table."""
    s = case["s"]
    lib = R.library(s)
    R.set_program(lib, task_type="regression")
    names = R.names_of(s)
    toks = R.decode(case["nums"], names)
    t = R.tree([names[i] for i in toks])
    p = program(s, toks, lib)
    r = np.random.RandomState(case["seed"])
    consts = [float(v) for v in r.uniform(-3, 3, len(p.const_pos))]
    if consts:
        p.set_constants(consts)
        eq(p.get_constants(), consts, "constants")
    X = data_1(case["kind"], case["seed"], (case["rows"], s["dim"]))
    arg = [X[:, i:i + 1].copy() for i in range(s["dim"])] if case["as"] == "columns" else X.copy()
    fr = Frozen(x=arg)
    with quiet():
        y, _, w = p.execute_direct(arg)
        inv = p.invalid
        y2, _, _ = p.execute_direct(arg)
    fr.verify("execution")
    what = f"{R.text(t)} ({'protected' if s['protected'] else 'plain'})"
    eq(w, [1.0], "weights of a regression program")
    eq(p.invalid, inv, f"{what}: validity on repetition")
    if y is None:
        check(y2 is None, "second execution gives a value")
    else:
        eq(y.shape, (case["rows"], 1), f"{what}: shape of the prediction")
        check(np.array_equal(y, y2, equal_nan=True), f"{what}: second execution differs")
    F = R.Fields(1, [X[:, i] for i in range(s["dim"])], [], protected=s["protected"], consts=consts)
    verdict(y, inv, F, t, what, ctx)
    ctx.label(case["kind"]); ctx.label("protected", s["protected"]); ctx.label("const", "const" in [names[i] for i in toks])


@st.composite
def grids(draw):
    s = draw(R.lib_specs(pde=True))
    d = s["dim"]
    if d >= 2 and draw(st.booleans()):
        n = draw(st.integers(4, 6))
        sizes = [n] * d
    else:
        sizes = [draw(st.integers(4, 7)) for _ in range(d)]
    if draw(st.sampled_from([True, False, False])):         # nested derivatives
        s["functions"] = draw(st.permutations(R.diffs_of(d)))[:2] + draw(st.permutations(["mul", "add", "n2", "sub"]))[:draw(st.integers(0, 2))]
    return {"s": s, "sizes": sizes, "nt": draw(st.integers(2, 6)), "nums": draw(st.lists(st.integers(0, 9999), min_size=2, max_size=16)),
            "deep": draw(st.sampled_from([0, 0, 0, 2, 4, 6])), "kind": draw(st.sampled_from(["smooth", "smooth", "normal", "normal", "zeros", "int", "large", "huge", "hole", "infinite"])), "seed": draw(G.seeds), "col": draw(st.booleans()),
            "h": [draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, -0.5, -1.0])) for _ in range(d)]}


def grid_data(c):
    s = c["s"]
    d = s["dim"]
    r = np.random.RandomState(c["seed"])
    x = [round(r.uniform(-2, 2), 2) + h * np.arange(n) for h, n in zip(c["h"], c["sizes"])]
    tt = np.arange(c["nt"]) * 0.5
    shape = (c["sizes"][0], c["nt"]) if d == 1 else (c["nt"], *c["sizes"])
    axes = [x[0], tt] if d == 1 else [tt] + x

    def field(k):
        if c["kind"] == "smooth":
            return G.smooth(axes, c["seed"] + k)
        return data_1(c["kind"], c["seed"] + k, shape)
    u = [field(k) for k in range(s["nu"])]
    params = {n: field(100 + k) for k, n in enumerate(s["params"])}
    return x, u, params


def bind(lib, params):
    for tok in lib.tokens:
        if tok.param_var is not None:
            tok._param_data_ref = params[tok.name]


@facet(grids(), quick=500, thorough=15000, shards=3)
def fields(case, ctx):
    """Field mode in one to three space dimensions: the raw execution of a sequence."""
    s = case["s"]
    from kd.model.discover.program import Program
    lib = R.library(s)
    R.set_program(lib, task_type="pde")
    names = R.names_of(s)
    us = [i for i, n in enumerate(names) if n[0] == "u" and n[1:].isdigit()]
    toks = R.decode(case["nums"], names, max_len=20)
    two = [i for i, n in enumerate(names) if n in R.BIN]
    one = [i for i, n in enumerate(names) if n in ("neg", "sin", "cos", "tanh", "n2")]
    df = [i for i, n in enumerate(names) if n in R.DIFFS]
    for k in range(case["deep"]):           # nested operators with derivatives along different axes on the way down
        if two and (k % 3 or not one):
            toks = [two[k % len(two)]] + ([df[k % len(df)], us[0], k % s["dim"]] if df and k % 2 else [us[0]]) + toks
        elif one:
            toks = [one[k % len(one)]] + toks
    t = R.tree([names[i] for i in toks])
    x, u, params = grid_data(case)
    bind(lib, params)
    X = [c.reshape(-1, 1) if case["col"] or s["dim"] > 1 else c.reshape(-1, 1) for c in x]
    fr = Frozen(x=X, u=u, params=params)
    trav = [lib.tokens[i] for i in toks]
    with quiet():
        y, inv, node, kind = Program.execute_function(trav, u, X)
        y2, inv2, _, _ = Program.execute_function(trav, u, X)
    fr.verify(f"execution of {R.text(t)}")
    eq(bool(inv), bool(inv2), "validity on repetition")
    if y is None:
        check(y2 is None, "second execution gives a value")
    else:
        check(np.array_equal(np.asarray(y), np.asarray(y2), equal_nan=True), "second execution differs")
    what = f"{R.text(t)} on a {case['sizes']} grid"
    if s["dim"] > 1 and any(uses_bad_derivative(n) for n in walk(t)):
        ctx.label("derivative across missing axis")
        return
    if s["dim"] == 1 and any(n[0] in R.DIFFS | {"lap"} and not has(n[1], "u", s) for n in walk(t)):
        ctx.label("coordinate derivative")
    F = R.Fields(s["dim"], x, u, params, s["protected"])
    verdict(y, inv, F, t, what, ctx)
    ctx.label(f"{s['dim']}-D"); ctx.label("square", len(set(case["sizes"])) == 1 and s["dim"] > 1)
    ctx.label("derivative", any(n[0] in R.DIFFS for n in walk(t))); ctx.label("parameter", any(n[0] in params for n in walk(t)))


def walk(t):
    yield t
    for c in t[1:]:
        yield from walk(c)


def has(t, kind, s=None):
    return any(len(n) == 1 and n[0][0] == "u" and n[0][1:].isdigit() or (s and n[0] in s["params"]) for n in walk(t))


def uses_bad_derivative(n):
    """In two and three dimensions only field-valued operands are differentiated (an operand of coordinates alone has no full grid);
    a coordinate-only operand is checked by `coordinate_derivatives`."""
    return n[0] in R.DIFFS | {"lap", "lap_3"} and not any(len(k) == 1 and not k[0][0] == "x" for k in walk(n[1]))


@facet(grids(), quick=250, thorough=6000, shards=1)
def terms(case, ctx):
    """The term columns handed to the regression are the values of the split terms, on the whole grid, in order."""
    s = case["s"]
    s = {**s, "functions": list(dict.fromkeys(["add", "sub"] + s["functions"]))}
    lib = R.library(s)
    R.set_program(lib, task_type="pde", max_depth=9, spatial_error=False)
    names = R.names_of(s)
    toks = R.decode(case["nums"], names, max_len=24, root=[names.index("add"), names.index("sub")])
    t = R.tree([names[i] for i in toks])
    x, u, params = grid_data(case)
    bind(lib, params)
    X = [c.reshape(-1, 1) for c in x]
    from kd.model.discover.program import Program
    p = program(s, toks, lib)
    fr = Frozen(x=X, u=u, params=params)
    with quiet():
        res = p.STRidge.evaluate_terms(u, X, execute_function=Program.execute_function)
    fr.verify("term evaluation")
    want = [w for _, w in R.split(t)]
    if any(uses_bad_derivative(n) for n in walk(t)):
        ctx.label("derivative across missing axis")
        return
    bad = []
    for w in want:
        F = R.Fields(s["dim"], x, u, params, s["protected"])
        v, spread, trouble = R.evaluate(F, w)
        has_u = any("u" in n[0] for n in walk(w))
        bad.append((v, spread, trouble, has_u))
    if isinstance(res, tuple):
        check(res[2] is True, "no columns but not flagged invalid")
        reason = any(tr or not hu or np.asarray(v).shape != u[0].shape for v, _, tr, hu in bad)
        check(reason or any(n[0] in R.DIFFS | {"lap", "lap_3"} for n in walk(t)), f"{R.text(t)} rejected ({res[3:5]})")
        ctx.label("invalid")
        return
    eq(len(res), len(want), "number of columns")
    for c, w, (v, spread, tr, hu) in zip(res, want, bad):
        eq(np.asarray(c).shape, (u[0].size,), f"shape of the column of {R.text(w)}")
        R.agree(c, np.broadcast_to(v, u[0].shape).reshape(-1), np.broadcast_to(spread, u[0].shape).reshape(-1), f"column of {R.text(w)}")
    ctx.nontrivial(len(want) > 1 and not any(tr for _, _, tr, _ in bad))
    ctx.label(f"{s['dim']}-D")


@facet(st.tuples(st.integers(1, 3), st.lists(st.integers(4, 8), min_size=3, max_size=3), st.sampled_from([1, 2]),
                 st.lists(st.integers(-3, 3), min_size=1, max_size=3), st.sampled_from([0.25, 0.5, 1.0])), quick=120, thorough=1500, shards=1)
def coordinate_derivatives(case, ctx):
    """A derivative of a polynomial of the coordinate alone is that polynomial's derivative (away from the ends of the grid)."""
    d, sizes, order, poly, h = case
    fn = {1: ["diff", "diff2"], 2: ["Diff", "Diff2"], 3: ["Diff_3", "Diff2_3"]}[d][order - 1]
    s = {"pde": True, "dim": d, "nu": 1, "params": [], "functions": ["add", "mul", "n2", fn], "protected": False}
    lib = R.library(s)
    R.set_program(lib, task_type="pde")
    sizes = sizes[:d]
    x = [1.0 + 0.5 * i + h * np.arange(n) for i, n in enumerate(sizes)]
    shape = (sizes[0], 3) if d == 1 else (3, *sizes)
    u = [np.random.RandomState(d).standard_normal(shape)]
    from kd.model.discover.program import Program
    for i in range(d):
        xi = f"x{i + 1}"
        # x, x^2 and x*x + x differentiated along their own axis, as a factor of u
        for toks, want in ((["mul", "u1", fn, xi, xi], [1.0, 0.0]), (["mul", "u1", fn, "n2", xi, xi], [2, 2.0]),
                           (["mul", "u1", fn, "add", "mul", xi, xi, xi, xi], [None, 2.0])):
            with quiet():
                y, inv, *_ = Program.execute_function([lib[n] for n in toks], u, [c.reshape(-1, 1) for c in x])
            ax = 0 if d == 1 else i + 1
            sh = [1] * u[0].ndim
            sh[ax] = -1
            g = x[i].reshape(sh)
            w = want[order - 1]
            if order == 1:
                w = {1.0: 1.0 + 0 * g, 2: 2 * g, None: 2 * g + 1}[w]
            inner = tuple(slice(2, -2) if k == ax else slice(None) for k in range(u[0].ndim))
            check(y is not None and not inv, f"{','.join(toks)} in {d}-D is invalid")
            full = np.broadcast_to(u[0] * w, u[0].shape)
            check(np.allclose(np.broadcast_to(y, u[0].shape)[inner], full[inner], rtol=1e-9, atol=1e-9),
                  f"{','.join(toks)} in {d}-D: {np.broadcast_to(y, u[0].shape)[inner].ravel()[:4]}, expected {full[inner].ravel()[:4]}", sig="coordinate-derivative")
    ctx.nontrivial(True)
    ctx.label(f"{d}-D order {order}")


@facet(st.tuples(grids(), st.lists(st.tuples(st.sampled_from(["np", "np", "torch_bad", "torch_ok", "np_bad", "direct"]), st.integers(0, 5)), min_size=2, max_size=8)),
       quick=150, thorough=3000, shards=1)
def histories(case, ctx):
    """No execution changes what another one returns, whatever ran before."""
    import torch
    from kd.model.discover.functions import function_map
    from kd.model.discover.program import Program
    from kd.model.discover.stridge import unsafe_execute_torch
    c, ops = case
    s = {**c["s"], "functions": list(dict.fromkeys(c["s"]["functions"] + ["mul", "log", "div"])), "protected": False}
    lib = R.library(s)
    R.set_program(lib, task_type="pde")
    names = R.names_of(s)
    x, u, params = grid_data(c)
    bind(lib, params)
    X = [v.reshape(-1, 1) for v in x]
    exprs = [R.decode(c["nums"][k:] + [k], names, max_len=12) for k in range(6)]
    first = {}
    for kind, k in ops:
        with quiet():
            if kind in ("np", "direct"):
                y, inv, *_ = Program.execute_function([lib.tokens[i] for i in exprs[k]], u, X)
                now = (None if y is None else np.array(y, copy=True), bool(inv))
                if k in first:
                    a, b = first[k], now
                    what = f"{','.join(names[i] for i in exprs[k])} after {ops}"
                    eq(b[1], a[1], f"validity of {what}")
                    check((a[0] is None) == (b[0] is None) and (a[0] is None or np.array_equal(a[0], b[0], equal_nan=True)), f"value of {what} changed")
                first.setdefault(k, now)
            elif kind == "np_bad":
                Program.execute_function([lib["log"], lib["mul"], lib["u1"], lib["u1"]], [np.zeros_like(v) for v in u], X)
            else:
                uu = torch.ones((4, 1), requires_grad=True)
                tok = function_map["diff_t"]
                good = [function_map["mul_t"], lib["u1"], lib["u1"]]
                unsafe_execute_torch([tok, lib["u1"], lib["x1"]] if kind == "torch_bad" else good, uu, [torch.ones((4, 1), requires_grad=True)])
    again = {}
    for k in first:
        with quiet():
            y, inv, *_ = Program.execute_function([lib.tokens[i] for i in exprs[k]], u, X)
        again[k] = bool(inv)
        eq(again[k], first[k][1], f"validity of {','.join(names[i] for i in exprs[k])} at the end of {ops}")
    ctx.nontrivial(len(first) > 0 and any(k.startswith("torch") or k == "np_bad" for k, _ in ops))
