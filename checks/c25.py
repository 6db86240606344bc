"""C25: a Discover run is determined by its data, options and seed."""
import triton._C.libtriton  # noqa: F401
import json
import os
import random
import subprocess
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import gens as G
from vlib.core import check, eq, facet
from vlib.sgaref import quiet

TECHNIQUE = ("property-based testing (metamorphic): the same search is run from different process histories (other models before it, other random draws, other processes and hash seeds) "
             "and the complete reports are compared bit for bit")
RULE = "non-trivial: at least one run reported an equation and something random happened between the compared runs"


@st.composite
def grid_runs(draw):
    dim = draw(st.sampled_from([1, 1, 2, 3]))
    return {"kind": "grid", "dim": dim, "n": draw(st.integers(5, 8)), "seed": draw(st.integers(0, 10**6)), "data": draw(G.seeds), "epochs": draw(st.integers(1, 3)), "batch": draw(st.sampled_from([10, 30])),
            "params": draw(st.booleans()), "cell": draw(st.sampled_from(["lstm", "gru"])), "attention": draw(st.booleans()), "memory": draw(st.booleans()), "pqt": draw(st.booleans()),
            "init": draw(st.sampled_from(["zeros", "var_scale"])), "operators": draw(st.booleans())}


def dataset(c):
    from kd.dataset import PDEDataset
    r = np.random.RandomState(c["data"])
    n, dim = c["n"], c["dim"]
    axes = [np.linspace(0.5, 2, n)] * dim + [np.linspace(0, 1, n)]
    u = G.smooth(axes, c["data"]) + 0.01 * r.standard_normal([n] * (dim + 1))
    par = {"nu": r.uniform(0.5, 2, u.shape)} if c.get("params") else None
    if dim == 1:
        return PDEDataset("ds", x=axes[0], t=axes[1], usol=u, param_fields=par)
    names = ["x", "y", "z"][:dim] + ["t"]
    return PDEDataset("ds", fields_data={"u": u}, coords_1d=dict(zip(names, axes)), axis_order=names, target_field="u", lhs_axis="t", param_fields=par)


def table_data(c):
    r = np.random.RandomState(c["data"])
    X = r.uniform(0.3, 2, (15, c["dim"]))
    return X, X[:, 0] ** 2 + r.standard_normal(15) * 0.1


def build(c, extra=None):
    """A model with its data imported."""
    from kd.model.kd_discover import KD_Discover, KD_Discover_SPR
    from kd.model.kd_discover_regression import KD_Discover_Regression
    conf = {"training": {"verbose": False, "debug": 0, "n_samples": 10 * c["batch"], "batch_size": c["batch"], "early_stopping": False, "stability_selection": c.get("stability", False)},
            "controller": {"max_length": 20, "num_units": 8, "cell": c.get("cell", "lstm"), "initializer": c.get("init", "zeros"), "attention": c.get("attention", False), "pqt": c.get("pqt", True)}}
    conf["prior"] = {"length": {"min_": 3, "max_": 20, "on": True}}
    if c.get("memory"):
        conf["training"].update(use_memory=True, memory_capacity=50)
    conf.update(extra or {})
    kw = dict(n_iterations=c["epochs"], n_samples_per_batch=c["batch"], seed=c["seed"])
    if c["kind"] == "table":
        conf["training"]["const_optimizer"] = "scipy"
        conf["task"] = {"function_set": ["add", "mul", "sub", "sin", "const"]}
        return KD_Discover_Regression(out_path=None, config_out=conf, **kw), table_data(c)
    ds = dataset(c)
    if c["kind"] == "sparse":
        conf["pinn"] = {"number_layer": 2, "n_hidden": 6, "pinn_epoch": 3, "duration": 3, "coll_data": 20, "iter_num": 1, "local_sample": c["local"]}
        m = KD_Discover_SPR(out_path=c.get("out", "run"), config_out=conf, **kw)
        with quiet():
            m.import_dataset(ds, sample_ratio=0.5, colloc_num=15, random_state=c["rs"])
        m.denoise_pinn.pretrain_epoch = 3
        return m, None
    if c.get("operators"):
        kw.update(binary_operators=["add", "mul"], unary_operators=["n2"])
    m = KD_Discover(out_path=None, config_out=conf, **kw)
    with quiet():
        m.import_dataset(ds)
    return m, None


def report(m, data, c):
    """Everything a run tells the user."""
    with quiet():
        try:
            if data is not None:
                res = m.fit(*data)
                p = res["program"]
                out = {k: res[k] for k in ("expression", "expression_named", "constants", "reward", "mse")}
            else:
                res = m.train(n_epochs=c["epochs"], verbose=False)
                p = res["program"]
                out = {"expression": str(res["expression"]), "r": float(res["r"])}
        except (ValueError, TypeError, IndexError) as e:
            return {"failed": f"{type(e).__name__}: {e}"}
        out["text"] = p.str_expression
        out["w"] = np.asarray(p.w if p.w is not None else []).ravel().tolist()
        s = m.searcher
        out["rewards"] = [np.asarray(x).tolist() for x in getattr(s, "r_train", [])]
        out["history"] = [np.asarray(x).tolist() for x in getattr(s, "r_history", [])]
        out["evaluations"] = int(getattr(s, "nevals", 0))
    return json.loads(json.dumps(out, default=str))


def disturb(how, c):
    """Work between two runs."""
    if how == "draws":
        k = c["data"] % 97 + 1
        np.random.rand(k); random.random()
        import torch
        torch.rand(k)
    elif how == "reseed":
        import torch
        np.random.seed(c["data"] % 1000); random.seed(5); torch.manual_seed(c["data"] % 77)
    elif how == "other":
        o = {"kind": "table" if c["data"] % 2 else "grid", "dim": 1 + c["data"] % 2, "n": 6, "seed": 3, "data": 11, "epochs": 1, "batch": 10}
        m, d = build(o)
        report(m, d, o)
    elif how == "built only":
        build({"kind": "grid", "dim": 2, "n": 5, "seed": 1, "data": 5, "epochs": 1, "batch": 10})


def compare(c, ctx, hows, what):
    m, d = build(c)
    first = report(m, d, c)
    texts = str(first)
    for k, how in enumerate(hows):
        disturb(how, c)
        other = {**c, "out": f"run{k}"}
        m2, d2 = build(other)
        second = report(m2, d2, other)
        for key in sorted(set(first) | set(second)):
            eq(second.get(key), first.get(key), f"{what}: {key} of the same run after {how!r}")
        eq(str(first), texts, f"{what}: the earlier report changed")
        ctx.label(how)
    ctx.label("failed", "failed" in first); ctx.label(f"{c['dim']}-D {c['kind']}")
    ctx.nontrivial("failed" not in first)


HOW = st.lists(st.sampled_from(["draws", "reseed", "other", "built only", "nothing"]), min_size=1, max_size=2)


@facet(st.tuples(grid_runs(), HOW), quick=56, thorough=900, shards=4, case_s=150)
def grid(case, ctx):
    """Searches on a grid: same report whatever ran before."""
    c, hows = case
    compare(c, ctx, hows, f"{c['dim']}-D search with seed {c['seed']}")


@facet(st.tuples(st.fixed_dictionaries({"kind": st.just("table"), "dim": st.integers(1, 3), "seed": st.integers(0, 10**6), "data": G.seeds, "epochs": st.integers(1, 2), "batch": st.sampled_from([10, 20]),
                                        "init": st.sampled_from(["zeros", "var_scale"])}), HOW), quick=24, thorough=400, shards=2, case_s=150)
def table(case, ctx):
    """Symbolic regression: same report whatever ran before."""
    c, hows = case
    compare(c, ctx, hows, f"regression with seed {c['seed']}")


@facet(st.tuples(st.fixed_dictionaries({"kind": st.just("sparse"), "dim": st.sampled_from([1, 1, 2]), "n": st.integers(5, 6), "seed": st.integers(0, 10**6), "data": G.seeds, "epochs": st.just(1), "batch": st.just(10),
                                        "rs": st.integers(0, 999), "local": st.booleans(), "stability": st.sampled_from([False, 3])}), st.lists(st.sampled_from(["draws", "reseed", "other"]), min_size=1, max_size=1)),
       quick=8, thorough=120, shards=2, case_s=200)
def sparse(case, ctx):
    """Physics-informed searches: same report whatever ran before."""
    c, hows = case
    compare(c, ctx, hows, f"physics-informed search with seed {c['seed']}")


@facet(grid_runs(), quick=16, thorough=300, shards=2, case_s=150)
def unsupported(case, ctx):
    """The genetic refinement option is ignored with a warning and leaves the run unchanged."""
    c = case
    m, d = build(c)
    first = report(m, d, c)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        m2, _ = build(c, {"gp_agg": {"run_gp_agg": True, "gp": {"p_mutate": 0.5}, "STRidge": {}}})
    check(any("run_gp_agg" in str(x.message) for x in w), "no warning about the ignored option")
    second = report(m2, None, c)
    eq(second, first, "run with the ignored option")
    ctx.nontrivial("failed" not in first)


CHILD = "import sys, json\nsys.path[:0] = json.loads(sys.argv[1])\nimport triton._C.libtriton\nfrom checks import c25\nc = json.loads(sys.argv[2])\nm, d = c25.build(c)\nprint('REPORT', json.dumps(c25.report(m, d, c)))\n"


@facet(st.tuples(st.one_of(grid_runs(), st.fixed_dictionaries({"kind": st.just("table"), "dim": st.integers(1, 3), "seed": st.integers(0, 10**6), "data": G.seeds, "epochs": st.integers(1, 2),
                                                               "batch": st.sampled_from([10, 20])})), st.integers(1, 999)), quick=4, thorough=40, shards=4, case_s=300)
def processes(case, ctx):
    """The same run in another process with another hash seed."""
    c, h = case
    m, d = build(c)
    here = report(m, d, c)
    env = {**os.environ, "PYTHONHASHSEED": str(h), "PYTHONDONTWRITEBYTECODE": "1"}
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, json.dumps([p for p in sys.path if p]), json.dumps(c)], capture_output=True, text=True, env=env, timeout=280)
    lines = [x for x in r.stdout.splitlines() if x.startswith("REPORT ")]
    check(lines, f"the run failed in another process: {r.stderr[-800:]}")
    there = json.loads(lines[-1][7:])
    for k in sorted(set(here) | set(there)):
        eq(there.get(k), here.get(k), f"{k} of the same run in another process")
    ctx.nontrivial("failed" not in here)


def randomness(state=None):
    """Read, or put back, the state of the random generators."""
    import torch
    if state is None:
        return np.random.get_state(), random.getstate(), torch.get_rng_state()
    np.random.set_state(state[0]); random.setstate(state[1]); torch.set_rng_state(state[2])


def session(c, ops, hows):
    """Work with one model step by step; between the steps, perhaps, with other models."""
    m, _ = build(c)
    out = []
    with quiet() as q:
        for k, op in enumerate(ops):
            if hows[k] != "nothing":
                state = randomness()
                disturb(hows[k], {**c, "data": c["data"] + k})
                randomness(state)
            try:
                if op == "step":
                    r = m.train_one_step(epoch=k + 1, verbose=False)
                    out.append(None if r is None else [str(r["expression"]), float(r["r"]), np.asarray(r["program"].w).ravel().tolist()])
                elif op == "train":
                    r = m.train(n_epochs=c["epochs"], verbose=False)
                    out.append([str(r["expression"]), float(r["r"]), np.asarray(r["program"].w).ravel().tolist()])
                else:
                    m.print_pq()
                    out.append("printed")
            except (ValueError, TypeError, IndexError) as e:
                out.append(f"{type(e).__name__}: {e}")
    return json.loads(json.dumps(out, default=str)), m


@facet(st.tuples(grid_runs(), st.lists(st.tuples(st.sampled_from(["step", "train", "step", "queue"]), st.sampled_from(["nothing", "other", "other", "built only", "draws"])), min_size=1, max_size=3)),
       quick=24, thorough=400, shards=4, case_s=200)
def interleaved(case, ctx):
    """Several models in one process: each searches on its own data, however their calls are interleaved."""
    c, plan = case
    ops = [p[0] for p in plan]
    hows = [p[1] for p in plan]
    alone, m = session(c, ops, ["nothing"] * len(ops))
    mixed, m2 = session(c, ops, hows)
    for k, (a, b) in enumerate(zip(alone, mixed)):
        eq(b, a, f"{c['dim']}-D search with seed {c['seed']}: result of call {k + 1} ({ops[k]}) with {hows[k]!r} before it")
    for name in ("r_train", "r_history"):
        eq([np.asarray(x).tolist() for x in getattr(m2.searcher, name)], [np.asarray(x).tolist() for x in getattr(m.searcher, name)], f"searcher.{name} after interleaved calls")
    ctx.label("all failed", not any(isinstance(x, list) for x in alone)); ctx.label("queue", "queue" in ops)
    for h in hows:
        ctx.label(h)
    ctx.nontrivial(any(isinstance(x, list) for x in alone) and any(h in ("other", "built only") for h in hows))


@st.composite
def reuses(draw):
    if draw(st.integers(0, 2)) == 0:
        c = draw(st.fixed_dictionaries({"kind": st.just("table"), "dim": st.integers(1, 3), "seed": st.integers(0, 10**6), "data": G.seeds, "epochs": st.integers(1, 2), "batch": st.sampled_from([10, 20]), "init": st.sampled_from(["zeros", "var_scale"])}))
    else:
        c = draw(grid_runs())
        if draw(st.booleans()):
            c["epochs"], c["batch"] = draw(st.integers(1, 2)), 60      # many candidates: the same ones come up on both datasets
    before = [{"dim": c["dim"] if draw(st.integers(0, 3)) else draw(st.integers(1, 3)), "data": draw(G.seeds), "n": draw(st.integers(5, 8)), "params": draw(st.booleans()), "use": draw(st.sampled_from(["train", "train", "step", "import"]))}
              for _ in range(draw(st.integers(1, 2)))]
    return c, before


@facet(reuses(), quick=32, thorough=600, shards=4, case_s=200)
def reused(case, ctx):
    """A model object that worked on other data before gives on this data what a fresh one gives."""
    c, before = case
    m, d = build(c)
    fresh = report(m, d, c)
    b0 = {**c, **before[0]}
    m, _ = build(b0)
    for k, b in enumerate(before):
        b = {**c, **b}
        with quiet():
            try:
                if c["kind"] == "table":
                    if b["use"] != "import":
                        m.fit(*table_data(b))
                    continue
                if k:
                    m.import_dataset(dataset(b))
                if b["use"] == "train":
                    m.train(n_epochs=b["epochs"], verbose=False)
                elif b["use"] == "step":
                    m.train_one_step(epoch=1, verbose=False)
            except (ValueError, TypeError, IndexError) as e:
                ctx.label(f"{b['use']} failed")
    d = table_data(c) if c["kind"] == "table" else None
    if d is None:
        with quiet():
            m.import_dataset(dataset(c))
    again = report(m, d, c)
    for key in sorted(set(fresh) | set(again)):
        eq(again.get(key), fresh.get(key), f"{c['dim']}-D {c['kind']} with seed {c['seed']}: {key} of a model that worked on {before} before")
    ctx.label(c["kind"]); ctx.label("another dimension", any(b["dim"] != c["dim"] for b in before)); ctx.label("failed", "failed" in fresh)
    ctx.nontrivial("failed" not in fresh and any(b["use"] != "import" for b in before))
