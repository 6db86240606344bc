"""C24: data handed to the reinforcement-learning search keep values, axes and settings aligned."""
import triton._C.libtriton  # noqa: F401
import copy
import itertools
import os

import numpy as np
from hypothesis import strategies as st

from vlib import discref as R, gens as G
from vlib.core import Frozen, arr_eq, check, eq, facet, raises
from vlib.sgaref import quiet

TECHNIQUE = ("property-based testing: generated datasets (any axis order, dimension, fields, parameters) through the data adapters and the model's import, compared point by point with the dataset; "
             "stateful histories of imports on one model object compared with a fresh object")
RULE = "non-trivial: distinct axis lengths and an axis order with the time axis not already first (grids), or a second accepted import (histories)"


def slope(u, dt):
    """Second-order difference quotient along the first axis: centred inside, three-point at both ends."""
    out = np.empty_like(u)
    out[1:-1] = (u[2:] - u[:-2]) / (2 * dt)
    out[0] = (-1.5 * u[0] + 2 * u[1] - 0.5 * u[2]) / dt
    out[-1] = (1.5 * u[-1] - 2 * u[-2] + 0.5 * u[-3]) / dt
    return out


@st.composite
def grids(draw, bad=True):
    from_axes = draw(st.sampled_from(([1, 5] if bad else []) + [2, 2, 2, 3, 3, 3, 3, 4, 4, 4]))
    s = draw(G.nd_spec(from_axes, from_axes, 4, 6 if from_axes > 3 else 9))
    s["legacy"] = from_axes == 2 and draw(st.integers(0, 3)) > 0
    if s["legacy"]:
        s["lhs"] = s["order"][1]
    k = s["order"].index(s["lhs"])
    s["shape"][k] = draw(st.integers(3, 7))
    if not bad or draw(st.integers(0, 7)):
        s["ckind"][k] = draw(st.sampled_from(["uniform", "int"]))
    if bad and not draw(st.integers(0, 9)):
        s["shape"][draw(st.integers(0, from_axes - 1))] = draw(st.integers(1, 3))
    s["nan"] = draw(st.sampled_from([0] * 14 + [1])) if bad else 0
    s["tscale"] = draw(st.sampled_from([1.0, 1.0, 1e-4, 1e-3, 100.0, 1e-12]))
    s["xscale"] = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-9, 1e4]))
    s["dup"] = draw(st.sampled_from([-1] * 24 + [0, 1, 2])) if bad else -1
    s["want"] = draw(st.sampled_from([None] * 4 + [0] * 4 + [1])) if bad else None      # requested dimension: right or off by one
    return s


def build(s):
    """The dataset, its axes in layout (lhs, space...), and the field with that layout."""
    from kd.dataset import PDEDataset
    cd, f, p = G.nd_arrays(s)
    if s["tscale"] != 1:
        cd[s["lhs"]] = cd[s["lhs"]] * s["tscale"]
    if s["xscale"] != 1:
        cd = {a: c if a == s["lhs"] else c * s["xscale"] for a, c in cd.items()}
    if s["dup"] >= 0:
        a = s["order"][s["dup"] % len(s["order"])]
        if len(cd[a]) > 1:
            cd[a] = cd[a].astype(float)
            cd[a][1] = cd[a][0]
    if s["nan"]:
        f[s["target"]] = f[s["target"]].astype(float)
        f[s["target"]].flat[s["seed"] % f[s["target"]].size] = [np.nan, np.inf][s["seed"] % 2]
    if s["legacy"]:
        x, t = [cd[a].astype(float) for a in s["order"]]
        u = f[s["target"]]
        ds = PDEDataset(s.get("name", "ds"), x=x, t=t, usol=u, param_fields=p or None)
        return ds, [t, x], np.asarray(u, float).T, {n: np.asarray(a, float).T for n, a in p.items()}
    ds = PDEDataset(s.get("name", "ds"), fields_data=f, coords_1d=cd, axis_order=s["order"], target_field=s["target"], lhs_axis=s["lhs"], param_fields=p or None)
    lay = [s["lhs"]] + [a for a in s["order"] if a != s["lhs"]]
    perm = [s["order"].index(a) for a in lay]
    return ds, [cd[a].astype(float) for a in lay], np.transpose(np.asarray(f[s["target"]], float), perm), {n: np.transpose(np.asarray(a, float), perm) for n, a in p.items()}


def acceptable(s, axes, u):
    """Whether the documentation lets the regular search use this grid."""
    t, sp = axes[0], axes[1:]
    if not np.isfinite(u).all() or len(t) < 3:
        return False
    dt = np.diff(t)
    if dt[0] == 0 or np.abs(dt - dt[0]).max() > 1e-4 * abs(dt[0]):
        return False
    if s["legacy"]:
        return True
    return 2 <= len(sp) <= 3 and all(len(a) >= 4 and (np.diff(a) != 0).all() for a in sp)


def prepared(d, s, axes, u, pars, what):
    nsp = len(axes) - 1
    first = (lambda a: np.asarray(a).T) if s["legacy"] else np.asarray        # the one-dimensional search keeps space first
    arr_eq(first(d["u"]), u, f"{what}: field values at their coordinates")
    want = slope(u, axes[0][1] - axes[0][0])
    got = first(d["ut"])
    eq(got.shape, want.shape, f"{what}: shape of the time derivative")
    check(np.allclose(got, want, rtol=1e-9, atol=1e-9 * (np.abs(u).max() + 1e-300) / (axes[0][1] - axes[0][0])), f"{what}: the left-hand side is not the derivative along {s['lhs']} at the same points")
    eq(len(d["X"]), nsp, f"{what}: number of coordinate axes")
    for k, a in enumerate(axes[1:]):
        arr_eq(np.asarray(d["X"][k]), a.reshape(-1, 1), f"{what}: coordinates {k}")
    eq(int(d["n_input_dim"]), nsp, f"{what}: dimension")
    eq(list(d.get("param_names") or []), list(pars), f"{what}: parameter names")
    eq(int(d.get("n_param_var", 0)), len(pars), f"{what}: number of parameters")
    for n, a in zip(pars, d.get("param_data") or []):
        arr_eq(first(a), pars[n], f"{what}: parameter {n}")


@facet(grids(), quick=2400, thorough=40000, shards=3)
def regular_grid(case, ctx):
    """The regular-grid adapter: every value, derivative and parameter at its own coordinates, for every axis order."""
    from kd.model.discover.adapter import DiscoverRegularAdapter
    s = case
    ds, axes, u, pars = build(s)
    what = f"{'x,t' if s['legacy'] else s['order']} lhs {s['lhs']} shape {s['shape']}"
    nsp = len(axes) - 1
    kw = {} if s["want"] is None else {"n_input_dim": nsp + s["want"]}
    ok = acceptable(s, axes, u) and kw.get("n_input_dim", nsp) == nsp
    fr = Frozen(ds=ds)
    ctx.label("refused", not ok); ctx.label(f"{nsp}-D{' legacy' if s['legacy'] else ''}")
    if not ok:
        raises(ValueError, lambda: DiscoverRegularAdapter(ds, **kw), what=f"{what}: unsupported grid")
        return
    a = DiscoverRegularAdapter(ds, **kw)
    d = a.get_data()
    prepared(d, s, axes, u, pars, what)
    fr.verify("preparing the data")
    if not s["legacy"]:
        # the same physical data stored in another axis order
        r = np.random.RandomState(s["seed"])
        sp = [x for x in s["order"] if x != s["lhs"]]
        other = list(sp)
        other.insert(int(r.randint(0, len(sp) + 1)), s["lhs"])
        perm = [s["order"].index(x) for x in other]
        from kd.dataset import PDEDataset
        ds2 = PDEDataset("ds", fields_data={n: np.transpose(v, perm) for n, v in ds.fields_data.items()}, coords_1d=ds.coords_1d, axis_order=other, target_field=s["target"], lhs_axis=s["lhs"],
                         param_fields={n: np.transpose(v, perm) for n, v in ds.param_fields.items()} or None)
        d2 = DiscoverRegularAdapter(ds2).get_data()
        for k in ("u", "ut"):
            arr_eq(np.asarray(d2[k]), np.asarray(d[k]), f"{what} stored as {other}: {k}")
        for n, (p, q) in zip(pars, zip(d.get("param_data") or [], d2.get("param_data") or [])):
            arr_eq(np.asarray(q), np.asarray(p), f"{what} stored as {other}: parameter {n}")
    ctx.nontrivial(len(set(u.shape)) == u.ndim and (s["legacy"] or s["order"][0] != s["lhs"]))


NAMES = ["ds", "ds", "heat", "a b", "custom"]


@st.composite
def model_grids(draw, sparse=False):
    s = draw(grids(bad=False))
    s["name"] = draw(st.sampled_from(NAMES))
    s["bad"] = draw(st.sampled_from([False] * 6 + [True]))
    return s


@st.composite
def histories(draw):
    return {"imports": [draw(model_grids()) for _ in range(draw(st.integers(1, 4)))], "functions": draw(st.sampled_from(["default", "default", "operators", "config"])),
            "seed": draw(st.integers(0, 50)), "train": draw(st.sampled_from([False, False, False, True])), "out": draw(st.sampled_from([None, "out", "a/b/"])), "sparse": draw(st.booleans()),
            "dsname": draw(st.sampled_from([None, None, "given"]))}


DIFF = {1: ["diff", "diff2", "diff3"], 2: ["Diff", "Diff2", "lap"], 3: ["Diff_3", "Diff2_3", "lap_3"]}
DIFF_T = {1: ["diff_t", "diff2_t", "diff3_t"], 2: ["lap_t"], 3: ["lap_t"]}


def model(c):
    from kd.model.kd_discover import KD_Discover, KD_Discover_SPR
    conf = {"training": {"verbose": False, "debug": 0, "n_samples": 40, "batch_size": 20, "early_stopping": False}}
    if c["sparse"]:
        conf["pinn"] = {"number_layer": 2, "n_hidden": 4}
    suffix = "_t" if c["sparse"] else ""
    kw = {}
    if c["functions"] == "operators":
        kw = {"binary_operators": ["add" + suffix, "mul" + suffix], "unary_operators": ["n2" + suffix]}
    elif c["functions"] == "config":
        conf["task"] = {"function_set": [f + suffix for f in ["add", "mul", "diff", "diff2", "n3"]]}
    out = c["out"] or ("log" if c["sparse"] else None)
    m = (KD_Discover_SPR if c["sparse"] else KD_Discover)(n_iterations=2, n_samples_per_batch=20, out_path=out, seed=c["seed"], config_out=conf, **kw)
    return m, out, conf


def expected_functions(c, nsp):
    suffix = "_t" if c["sparse"] else ""
    if c["functions"] == "operators":
        return {"add" + suffix, "mul" + suffix, "n2" + suffix}
    base = {"default": (["add", "mul", "div", "n2", "n3"] + (["sub"] if c["sparse"] else [])), "config": ["add", "mul", "n3"]}[c["functions"]]
    d = (DIFF_T if c["sparse"] else DIFF)[nsp]
    if c["functions"] == "config" and nsp == 1:
        d = d[:2]
    return {f + suffix for f in base} | set(d)


def state(m, sparse):
    """What an import set up, in comparable form."""
    from kd.model.discover.program import Program
    t = Program.task
    out = {"dataset": m.dataset, "out": m.out_path, "tokens": list(Program.library.names), "input tokens": [int(k) for k in Program.library.input_tokens],
           "task": {k: v for k, v in m.config_task.items() if not callable(v)}, "functions": list(m.config_task["function_set"]),
           "library size": int(m.controller.n_choices) if hasattr(m.controller, "n_choices") else None}
    if sparse:
        out["pinn"] = {k: v for k, v in m.config_pinn.items()}
        out["net"] = [list(p.shape) for p in m.denoise_pinn.nn.parameters()]
        out["bounds"] = [m.denoise_pinn.lb.tolist(), m.denoise_pinn.ub.tolist()]
        out["inputs"] = [a.detach().numpy().tolist() for a in m.denoise_pinn.x] + [m.denoise_pinn.t.detach().numpy().tolist(), m.denoise_pinn.u_train.tolist()]
    else:
        out["u"] = [np.asarray(a).tolist() for a in t.u]
        out["ut"] = np.asarray(t.ut).tolist()
        out["X"] = [np.asarray(a).tolist() for a in t.x]
    out["params"] = [(tok.name, None if getattr(tok, "_param_data_ref", None) is None else np.asarray(tok._param_data_ref).tolist()) for tok in Program.library.tokens if tok.param_var is not None]
    return out


def do_import(m, s, ds, c):
    with quiet():
        if c["sparse"]:
            np.random.seed(3)
            m.import_dataset(ds, sample_ratio=0.6, colloc_num=5, random_state=4, dataset_name=c["dsname"])
        else:
            m.import_dataset(ds, dataset_name=c["dsname"])


@facet(histories(), quick=150, thorough=2500, shards=4, case_s=150)
def reuse(case, ctx):
    """One model object used for several datasets: after every import it is as a fresh object with that dataset, also after refused ones."""
    from kd.model.discover.program import Program
    c = case
    m, out, conf = model(c)
    given = copy.deepcopy(conf)
    last, accepted = None, 0
    for s in c["imports"]:
        s = dict(s)
        if s["bad"]:
            s["nan"], s["seed"] = 1, s["seed"] | 1
        ds, axes, u, pars = build(s)
        nsp = len(axes) - 1
        what = f"import {accepted + 1} of a {nsp}-D dataset ({c['functions']}{', sparse' if c['sparse'] else ''})"
        ok = (acceptable(s, axes, u) if not c["sparse"] else (np.isfinite(u).all() or s["legacy"])) and nsp >= 1
        if c["sparse"] and (s["bad"] and s["legacy"] or nsp == 1 and not s["legacy"] or u.size < 8):
            continue                            # behaviour of these is not specified for the sparse search
        fr = Frozen(ds=ds)
        if not ok:
            raises(ValueError, lambda: do_import(m, s, ds, c), what=f"{what}: unsupported dataset")
            if last is not None:
                eq(state(m, c["sparse"]), last[0], f"{what}: state after a refused dataset")
                check(m.dataset_ is last[1], f"{what}: a refused dataset replaced the accepted one")
            continue
        do_import(m, s, ds, c)
        fr.verify("import")
        accepted += 1
        mine = state(m, c["sparse"])
        check(m.dataset_ is ds, f"{what}: dataset kept")
        name = c["dsname"] or s["name"]
        eq(m.dataset, name, f"{what}: dataset name")
        eq(m.out_path, None if out is None else os.path.join(out, f"discover_{name}_{c['seed']}.csv"), f"{what}: result path")
        eq(set(m.config_task["function_set"]), expected_functions(c, nsp), f"{what}: operators offered to the search")
        eq(set(mine["tokens"]), expected_functions(c, nsp) | {"u1"} | {f"x{k + 1}" for k in range(nsp)} | set(pars), f"{what}: symbols of the search")
        eq([n for n, _ in mine["params"]], list(pars), f"{what}: parameter symbols")
        if c["sparse"]:
            eq(m.config_pinn["input_dim"], nsp + 1, f"{what}: network inputs")
            eq(mine["net"][0][1], nsp + 1, f"{what}: first layer of the network")
            eq(m.config_pinn["generation_type"], "AD" if nsp == 1 else "multi_AD", f"{what}: how the network makes its grid")
            lay = axes[1:] + axes[:1]
            arr_eq(np.array(mine["bounds"]).astype(np.float32), np.array([[a.min() for a in lay], [a.max() for a in lay]]).astype(np.float32), f"{what}: bounds")
        else:
            d = m.data_class.get_data()
            prepared(d, s, axes, u, pars, what)
            first = u.T if s["legacy"] else u
            arr_eq(np.array(mine["u"][0]), first, f"{what}: field of the search")
            arr_eq(np.array(mine["ut"]), np.asarray(d["ut"]).reshape(-1, 1), f"{what}: left-hand side of the search")
            for (n, ref), k in zip(mine["params"], pars):
                arr_eq(np.array(ref), pars[k].T if s["legacy"] else pars[k], f"{what}: values behind parameter symbol {n}")
            meaning(c, mine, nsp, u, axes, s, what)
        last = (mine, ds, s)
    eq(conf, given, "the configuration passed by the caller")
    if last is None:
        return
    fresh, _, _ = model(c)
    ds, _, _, _ = build({**last[2], "nan": 0})
    res = []
    if c["train"] and not c["sparse"]:
        res.append(run(m))
    do_import(fresh, last[2], ds, c)
    again = state(fresh, c["sparse"])
    for k in again:
        eq(last[0][k], again[k], f"after {accepted} imports {k} differs from a fresh object's")
    if res:
        do_import(m, last[2], ds, c)
        res.append(run(m))                      # third way: the same object, importing the same data once more
        do_import(fresh, last[2], ds, c)
        res.append(run(fresh))
        eq(res[0], res[2], "search result of a reused object against a fresh one")
        eq(res[1], res[2], "search result after importing the same data again")
        ctx.label("trained")
    ctx.nontrivial(accepted > 1); ctx.label(f"{accepted} imports"); ctx.label("sparse", c["sparse"])


def run(m):
    with quiet():
        r = m.train(n_epochs=2, verbose=False)
    return None if r is None else [str(r.get("expression")), float(r["r"])]


def meaning(c, mine, nsp, u, axes, s, what):
    """Symbols in the new search mean the imported data: a first derivative along each axis, compared with a quadratic-exact difference."""
    from kd.model.discover.program import Program
    ops = expected_functions(c, nsp)
    first = {1: "diff", 2: "Diff", 3: "Diff_3"}[nsp]
    if first not in ops or any(len(a) < 6 for a in axes[1:]):
        return
    names = mine["tokens"]
    field = u.T if s["legacy"] else u
    for k in range(nsp):
        a = axes[1 + k]
        if np.abs(np.diff(a) - (a[1] - a[0])).max() > 1e-4 * abs(a[1] - a[0]):
            continue
        toks = [Program.library.tokens[names.index(n)] for n in (first, "u1", f"x{k + 1}")]
        v, bad, *_ = Program.execute_function(toks, [field], [x.reshape(-1, 1) for x in axes[1:]])
        check(not bad, f"{what}: derivative along axis {k + 1} is invalid")
        ax = 0 if s["legacy"] else k + 1
        w = np.moveaxis(np.asarray(v), ax, 0)
        f = np.moveaxis(field, ax, 0)
        mid = (f[2:] - f[:-2]) / (a[2] - a[0])
        check(np.allclose(w[1:-1], mid, rtol=1e-6, atol=1e-8 * np.abs(mid).max() + 1e-12), f"{what}: symbol x{k + 1} is not axis {k + 1} of the data")
