"""C04: fitting, evaluating and plotting never modify the caller's data."""
import triton._C.libtriton  # noqa: F401
import contextlib
import io
import os
import sys
import types

import numpy as np
from hypothesis import strategies as st

from vlib import gens as G
from vlib import sgaref as R
from vlib.core import Frozen, Skip, check, eq, facet
from vlib.plots import recording
from vlib.sgaref import quiet

TECHNIQUE = ("property-based testing (stateful): random sequences of preparations, fits, evaluations, queries and plots of several models over one dataset, with a byte-wise comparison of everything "
             "the caller owns after every step; plus generated calls of the numerical building blocks with the same invariant")
RULE = "non-trivial: at least one operation completed on data of two or more points"

NUMS = ["smooth", "normal", "zeros", "int", "float32", "positive"]


# ---------------------------------------------------------------- what the caller owns

def layout(a, how):
    """The same values in another memory layout."""
    if how == "F":
        return np.asfortranarray(a)
    if how == "view":
        big = np.zeros([2 * n for n in a.shape], dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return np.ascontiguousarray(a)


class Owned:
    """A dataset together with everything the caller passed to its constructor."""

    def __init__(self, c):
        from kd.dataset import PDEDataset
        axes = {a: np.linspace(0.0 if c["zero"] else 0.5, 2, n) if a != "t" else np.linspace(0, 1, n) for a, n in zip(c["order"], c["shape"])}
        if c["column"]:
            axes = {a: v.reshape(-1, 1) if c["legacy"] else v for a, v in axes.items()}
        mk = lambda i: (G.smooth([np.ravel(v) for v in axes.values()], c["seed"] + i) if c["kind"] == "smooth" else G.values(tuple(c["shape"]), c["seed"] + i, c["kind"]))
        self.raw = {"coords": axes, "fields": {"u": layout(mk(0), c["layout"])}, "params": {n: layout(np.full(c["shape"], 1.5 + i) if c["flat"] else 0.5 + np.abs(np.asarray(mk(7 + i), float)), c["layout"]) for i, n in enumerate(c["params"])}}
        if c["second"]:
            self.raw["fields"]["v"] = layout(mk(3), c["layout"])
        self.order = list(c["order"])
        par = self.raw["params"] or None
        if c["legacy"]:
            self.ds = PDEDataset("made_up", x=axes["x"], t=axes["t"], usol=self.raw["fields"]["u"], param_fields=par)
        else:
            self.ds = PDEDataset("made_up", fields_data=self.raw["fields"], coords_1d=axes, axis_order=self.order, target_field="u", lhs_axis="t", param_fields=par)
        self.c = c
        self.frozen = Frozen(arguments=self.raw, order=self.order, dataset={k: v for k, v in vars(self.ds).items()})
        self.names = list(vars(self.ds))

    def verify(self, what):
        now = vars(self.ds)
        for k in self.names:
            check(k in now, f"{what}: the dataset lost {k}")
        self.frozen.objs["dataset"] = {k: now[k] for k in self.names}      # what was there at first; a cache added later is not data
        self.frozen.verify(what)


@st.composite
def datasets(draw):
    legacy = draw(st.booleans())
    if legacy:
        order = ["x", "t"]
    else:
        order = draw(st.sampled_from([["x", "t"], ["x", "t"], ["t", "x"], ["x", "y", "t"], ["t", "y", "x"], ["x", "y", "z", "t"]]))
    lo, hi = {2: (6, 9), 3: (5, 6), 4: (5, 5)}[len(order)]
    return {"legacy": legacy, "order": order, "shape": [draw(st.integers(lo, hi)) for _ in order], "kind": draw(st.sampled_from(NUMS)), "seed": draw(G.seeds), "layout": draw(st.sampled_from(["C", "C", "F", "view"])),
            "params": draw(st.sampled_from([[], [], ["nu"], ["nu", "kappa"]])), "flat": draw(st.booleans()), "second": draw(st.booleans()) and not legacy, "zero": draw(st.booleans()), "column": draw(st.booleans())}


# ---------------------------------------------------------------- operations on one dataset

def discover_conf(k):
    return {"training": {"verbose": False, "debug": 0, "n_samples": 20, "batch_size": 10, "early_stopping": False, "stability_selection": False},
            "controller": {"max_length": 20, "num_units": 8, "attention": False}, "prior": {"length": {"min_": 3, "max_": 20, "on": True}},
            "pinn": {"number_layer": 2, "n_hidden": 4, "pinn_epoch": 3, "duration": 3, "coll_data": 10, "iter_num": 1, "local_sample": bool(k % 2)}}


FITS = ["sga", "sga", "sga_cut", "sga_nn", "dlga", "dlga_sample", "dlga_base", "discover", "discover", "discover_ops", "spr", "spr_spline"]
QUERIES = ["mesh", "mesh_bounds", "get_data", "sample", "sample_spline", "get_boundaries", "get_domain", "get_derivative", "get_range", "get_size", "repr", "get_datapoint", "plot_solution"]
PLOTS = ["plot_training_curve", "plot_validation_curve", "plot_search_evolution", "plot_optimization", "plot_time_slices", "render_equation", "plot_residuals", "plot_field_comparison", "plot_derivative_relationships", "plot_parity"]
# an operation that a model or a dataset of this kind does not offer may refuse - but must still leave the data alone
REFUSED = (ValueError, TypeError, IndexError, AttributeError, KeyError, RuntimeError, NotImplementedError, np.linalg.LinAlgError, ZeroDivisionError, FloatingPointError, SystemExit)


def run_fit(op, o, k, opts):
    """(model, confs): a tiny fit."""
    ds = o.ds
    if op.startswith("sga"):
        from kd.model.kd_sga import KD_SGA
        kw = dict(sga_run=1 + k % 2, num=2 + k % 3, depth=2 + k % 3, width=2 + k % 3, seed=k)
        if op == "sga_cut":
            kw.update(delete_edges=True)
        if op == "sga_nn":
            kw.update(**{"use_autograd": True} if k % 3 else {"use_metadata": True}, max_epoch=3)
        return KD_SGA(**kw).fit_dataset(ds)
    if op.startswith("dlga"):
        import torch
        from kd.model.dlga import DLGA
        from kd.model.kd_dlga import KD_DLGA
        torch.manual_seed(k)
        if op == "dlga_base":
            m = DLGA(0.1, 2, max_iter=3)
        else:
            opts["operators"] = ["u", "u_x", "u_xx"]
            opts["frozen"] = Frozen(operators=opts["operators"])
            m = KD_DLGA(operators=opts["operators"], epi=0.1, input_dim=2, verbose=False, max_iter=3)
        m.pop_size, m.n_generations = 3, 1
        opts["model"] = m
        if op == "dlga_base":
            X, y = opts["X"], opts["y"] = ds.mesh(), np.array(o.raw["fields"]["u"], float).reshape(-1, 1)
            opts["frozen"] = Frozen(X=X, y=y)
            m.fit(X, y)
        elif op == "dlga_sample":
            m.fit_dataset(ds, sample=max(20, ds.usol.size // 2))
        else:
            m.fit_dataset(ds, Xy_from="mesh")
        return m
    from kd.model.kd_discover import KD_Discover, KD_Discover_SPR
    opts["conf"] = conf = discover_conf(k)
    opts["binary"], opts["unary"] = (["add", "mul"], ["n2", "diff" if len(o.order) == 2 else "n3"]) if op == "discover_ops" else ([], [])
    opts["frozen"] = Frozen(conf=conf, binary=opts["binary"], unary=opts["unary"])
    if op.startswith("discover"):
        m = KD_Discover(out_path=None, config_out=conf, n_iterations=1, n_samples_per_batch=10, seed=k, binary_operators=opts["binary"], unary_operators=opts["unary"])
        opts["model"] = m
        m.fit_dataset(ds, n_epochs=1, verbose=False)
        return m
    m = KD_Discover_SPR(out_path="run/r.csv", config_out=conf, n_iterations=1, n_samples_per_batch=10, seed=k)
    opts["model"] = m
    extra = {"spline_sample": True} if op == "spr_spline" else {}
    m.import_dataset(ds, sample_ratio=0.5, colloc_num=12, random_state=k, noise_level=0.0 if k % 2 else 0.1, **extra)
    setup = m.setup

    def quick_setup():
        setup()
        m.denoise_pinn.pretrain_epoch = 3
    m.setup = quick_setup
    m.denoise_pinn.pretrain_epoch = 3
    m.train(n_epochs=1, verbose=False)
    return m


def run_query(op, ds, k):
    import matplotlib
    matplotlib.use("Agg", force=True)
    if op == "sample":
        return ds.sample(n_samples=[3, 0.5, 1.0][k % 3])
    if op == "sample_spline":
        return ds.sample(n_samples=[9, 0.5][k % 2], method="spline")
    if op == "get_derivative":
        return [ds.get_derivative(a) for a in ("x", "t")]
    if op == "get_range":
        return ds.get_range((0.4, 1.5), (0.1, 0.9))
    if op == "get_datapoint":
        return ds.get_datapoint(1, 2)
    if op == "repr":
        return repr(ds), str(ds)
    return getattr(ds, op)()


def run_plot(op, model, o, opts):
    from kd.viz import api
    kw = {"output_dir": os.path.abspath("viz"), "show_info": False}
    if op in ("plot_time_slices", "plot_field_comparison"):
        u = np.asarray(o.raw["fields"]["u"], float)
        opts.update(x=np.ravel(o.raw["coords"]["x"]).copy(), t=np.ravel(o.raw["coords"]["t"]).copy(), true=u.copy(), pred=u + 0.1, times=np.array([0.0, 0.5, 0.6]))
        opts["frozen"] = Frozen(**{n: opts[n] for n in ("x", "t", "true", "pred", "times")})
        kw.update(x_coords=opts["x"], t_coords=opts["t"], true_field=opts["true"], predicted_field=opts["pred"])
        if op == "plot_time_slices":
            kw["slice_times"] = opts["times"]
    if op == "plot_residuals":
        u = np.asarray(o.raw["fields"]["u"], float)
        opts.update(a=u.copy(), p=u * 1.1 + 0.2, co=np.stack(np.meshgrid(*[np.ravel(v) for v in o.raw["coords"].values()], indexing="ij"), -1).reshape(-1, u.ndim))
        opts["frozen"] = Frozen(a=opts["a"], p=opts["p"], co=opts["co"])
        kw.update(actual=opts["a"], predicted=opts["p"], coordinates=opts["co"])
    return getattr(api, op)(model, **kw)


steps = st.lists(st.one_of(st.sampled_from(FITS).map(lambda x: ["fit", x]), st.sampled_from(FITS).map(lambda x: ["fit", x]), st.sampled_from(QUERIES).map(lambda x: ["query", x]), st.sampled_from(PLOTS).map(lambda x: ["plot", x])), min_size=2, max_size=7)


@facet(st.fixed_dictionaries({"data": datasets(), "steps": steps, "k": st.integers(0, 1000)}), quick=160, thorough=3000, shards=6, case_s=150)
def histories(case, ctx):
    """One dataset, many models: nothing the caller owns changes at any step."""
    o = Owned(case["data"])
    o.verify("construction")
    model, done = None, 0
    for i, (what, op) in enumerate(case["steps"]):
        if what == "plot" and model is None:
            continue
        if what == "fit" and op.startswith("dlga") and len(case["data"]["order"]) != 2:
            continue
        opts = {}
        label = f"step {i}: {op}"
        done_before = done
        try:
            with quiet(), np.errstate(all="ignore"), recording() if what == "plot" else contextlib.nullcontext():
                if what == "fit":
                    model = run_fit(op, o, case["k"] + i, opts)
                elif what == "query":
                    run_query(op, o.ds, case["k"])
                else:
                    run_plot(op, model, o, opts)
            done += 1
        except REFUSED as x:
            model = opts.get("model", model)
            ctx.label(f"refused {op}")
            ctx.note(f"refused {op} {type(x).__name__}: {str(x)[:150]}")
        o.verify(label)
        if "frozen" in opts:
            opts["frozen"].verify(label)
        if done > done_before:
            ctx.label(op)
    ctx.nontrivial(done > 0)
    ctx.label("legacy" if case["data"]["legacy"] else f"{len(case['data']['order'])}-D"); ctx.label(case["data"]["kind"]); ctx.label(case["data"]["layout"])


# ---------------------------------------------------------------- imports

adapters = st.fixed_dictionaries({"what": st.sampled_from(["sparse", "sparse", "sparse", "regular", "sga"]), "amount": st.sampled_from([None, 0.1, 0.5, 1.0, "all", "few"]), "noise": st.sampled_from([0.0, 0.1, 2.0]),
                                  "spline": st.sampled_from([False, False, False, False, True]), "colloc": st.sampled_from([None, 7]), "split": st.sampled_from([None, 0.5, 1.0]), "cut": st.sampled_from([None, None, 0.1]), "k": st.integers(0, 99)})


@facet(st.fixed_dictionaries({"data": datasets(), "steps": st.lists(adapters, min_size=1, max_size=6)}), quick=150, thorough=5000, shards=2)
def imports(case, ctx):
    """The same dataset is prepared for different models again and again, with every amount of samples and noise: it stays as it was, and the earlier preparations keep their values."""
    from kd.model.discover.adapter import DiscoverRegularAdapter, DiscoverSparseAdapter
    from kd.model.sga.adapter import SGADataAdapter
    o = Owned(case["data"])
    n, done, earlier = int(np.prod(case["data"]["shape"])), 0, []
    for i, c in enumerate(case["steps"]):
        try:
            with quiet(), np.errstate(all="ignore"):
                if c["what"] == "regular":
                    got = DiscoverRegularAdapter(o.ds).get_data()
                elif c["what"] == "sga":
                    got = SGADataAdapter(o.ds).to_solver_kwargs()
                else:
                    kw = {"sample": n if c["amount"] == "all" else 5} if isinstance(c["amount"], str) else {} if c["amount"] is None else {"sample_ratio": c["amount"]}
                    got = DiscoverSparseAdapter(o.ds, noise_level=c["noise"], spline_sample=c["spline"], colloc_num=c["colloc"], data_ratio=c["split"], cut_quantile=c["cut"], random_state=c["k"], **kw).get_data()
            done += 1; ctx.label(c["what"]); ctx.label("every point with noise", c["what"] == "sparse" and c["amount"] in (1.0, "all") and c["noise"] > 0)
            earlier.append((f"what step {i} prepared", Frozen(**{k: v for k, v in got.items() if isinstance(v, (np.ndarray, list, tuple, dict))})))
        except REFUSED as x:
            ctx.label(f"refused {c['what']}"); ctx.note(f"refused {c['what']} {type(x).__name__}: {str(x)[:150]}")
        o.verify(f"step {i}: {c}")
        for what, f in earlier:
            f.verify(f"{what}, after step {i}")
    ctx.nontrivial(done > 1)


# ---------------------------------------------------------------- raw arrays

class StandIn(types.ModuleType):
    """A stand-in for the symbolic-regression backend that reads its inputs only."""

    def __init__(self):
        super().__init__("pysr")

        class PySRRegressor:
            def __init__(self, **kw):
                self.kw = kw

            def fit(self, X, y, **k):
                self.m = float(np.mean(np.asarray(y, float)))
                return self

            def predict(self, X, *a, **k):
                return np.full(len(X), self.m)

            def get_best(self):
                return {"equation": "x0"}

            def sympy(self):
                import sympy
                return sympy.Symbol("x0")
        self.PySRRegressor = PySRRegressor


@st.composite
def tables(draw):
    return {"n": draw(st.integers(8, 30)), "d": draw(st.integers(1, 3)), "seed": draw(G.seeds), "kind": draw(st.sampled_from(["normal", "zeros", "int", "float32", "positive", "small"])), "layout": draw(st.sampled_from(["C", "F", "view"])),
            "col": draw(st.booleans()), "op": draw(st.sampled_from(["dlga", "dlga_base", "regression", "pysr", "sparse", "frame"])), "k": draw(st.integers(0, 99)), "listed": draw(st.booleans())}


@facet(tables(), quick=120, thorough=3000, shards=3, case_s=120)
def arrays(case, ctx):
    """Estimators and handlers given raw arrays, tables and option containers."""
    c = case
    d = 2 if c["op"].startswith("dlga") or c["op"] == "sparse" else c["d"]
    X = layout(G.values((c["n"], d), c["seed"], c["kind"]), c["layout"])
    y = layout(G.values((c["n"], 1) if c["col"] or c["op"] in ("dlga", "dlga_base", "sparse") else (c["n"],), c["seed"] + 1, c["kind"]), c["layout"])
    Z = layout(G.values((5, d), c["seed"] + 2, c["kind"]), c["layout"])
    names = [f"q{i}" for i in range(d)]
    fz = Frozen(X=X, y=y, Z=Z, names=names)
    with quiet(), np.errstate(all="ignore"):
        if c["op"].startswith("dlga"):
            import torch
            from kd.model.dlga import DLGA
            from kd.model.kd_dlga import KD_DLGA
            torch.manual_seed(c["k"])
            ops = ["u", "u_x", "u_t"]
            m = KD_DLGA(operators=ops, epi=0.1, input_dim=2, verbose=False, max_iter=3) if c["op"] == "dlga" else DLGA(0.1, 2, max_iter=3)
            m.pop_size, m.n_generations = 4, 2
            try:
                m.fit(X, y)
            except REFUSED as x:
                ctx.label(f"refused dlga {type(x).__name__}")
            eq(ops, ["u", "u_x", "u_t"], "operators given to KD_DLGA")
            fz.verify("fit")
            if c["op"] == "dlga" and hasattr(m, "Net"):
                m.predict(Z)
            if hasattr(m, "best_epoch"):
                m.generate_meta_data(Z)
        elif c["op"] == "regression":
            from kd.model.kd_discover_regression import KD_Discover_Regression
            conf = discover_conf(c["k"])
            conf["training"]["const_optimizer"] = "scipy"
            conf["task"] = {"function_set": ["add", "mul", "sub", "sin", "div", "n2", "const"]}
            b, u = (["add", "mul", "div"], ["n2", "exp"]) if c["listed"] else ([], [])
            fo = Frozen(conf=conf, b=b, u=u)
            m = KD_Discover_Regression(out_path=None, config_out=conf, n_iterations=1, n_samples_per_batch=10, seed=c["k"], binary_operators=b, unary_operators=u)
            fo.verify("construction")
            try:
                m.fit(X, y, names)
                fz.verify("fit"); fo.verify("fit")
                m.predict(Z)
            except REFUSED as x:
                ctx.label(f"refused regression {type(x).__name__}")
            fo.verify("fit and predict")
        elif c["op"] == "pysr":
            from kd.model import kd_pysr
            had = sys.modules.get("pysr")
            sys.modules["pysr"] = StandIn()
            saved = {k: v for k, v in vars(kd_pysr).items() if k.startswith("_") and not k.startswith("__")}
            try:
                b, u = ["+", "*"], ["sin"]
                fo = Frozen(b=b, u=u)
                m = kd_pysr.KD_PySR(binary_operators=b, unary_operators=u)
                try:
                    m.fit(X, y)
                    m.predict(Z)
                except REFUSED as x:
                    ctx.label(f"refused pysr {type(x).__name__}")
                fo.verify("fit and predict")
            finally:
                vars(kd_pysr).update(saved)
                sys.modules.pop("pysr", None)
                if had is not None:
                    sys.modules["pysr"] = had
        elif c["op"] == "sparse":
            from kd.data import SparseData
            lb, ub = X.min(0).astype(float), X.max(0).astype(float) + 1
            fo = Frozen(lb=lb, ub=ub)
            h = SparseData(X, y)
            h.colloc_num = 10
            try:
                h.process_data((lb, ub))
                h.get_data()
            except REFUSED as x:
                ctx.label(f"refused sparse {type(x).__name__}")
            fo.verify("sparse data")
        else:
            import pandas as pd
            from kd.data import BaseDataHandler

            class Handler(BaseDataHandler):
                def process_data(self):
                    pass
            V = np.array(X, float)
            V[c["k"] % c["n"], 0] = np.nan
            V[-1] = V[0]
            f = pd.DataFrame(V, columns=names)
            before = f.copy(deep=True)
            h = Handler(f)
            h.load_data(); h.clean_data(); h.process_data(); h.get_data()
            check(f.shape == before.shape and f.equals(before) and list(f.columns) == list(before.columns), "the table given to a data handler changed")
    fz.verify(c["op"])
    ctx.nontrivial(True); ctx.label(c["op"]); ctx.label(c["kind"])


# ---------------------------------------------------------------- numerical building blocks

def sga_blocks(r, v, ctx):
    from kd.model.sga.sgapde import PDE_find as P
    from kd.model.sga.sgapde.config import SolverConfig
    n, d = 12, 3
    a = dict(R=v((n, d)) + 0.01, Ut=v((n, 1)), w0=np.zeros(1), up=v((5, 4)), down=v((5, 4)), u2=v((7, 6)), u1=v((8,)), co={"x": np.linspace(0, 1, 7), "t": np.linspace(2, 3, 6)})
    yield a
    P.Train(a["R"], a["Ut"], 0.0, 1.0, maxit=3); yield "Train"
    P.Train(a["R"], a["Ut"], 0.1, 0.5, maxit=3, normalize=0); yield "Train without normalization"
    P.Train(a["R"], a["Ut"], 0.1, 0.5, maxit=2, sparse="Lasso"); yield "Train Lasso"
    for nz in (0, 1, 2):
        P.STRidge(a["R"], a["Ut"], 0.1 * (nz % 2), 4, 0.3, normalize=nz); yield f"STRidge normalize={nz}"
        P.Lasso(a["R"], a["Ut"], 0.1, w=a["w0"], maxit=3, normalize=nz); yield f"Lasso normalize={nz}"
    P.FiniteDiff(a["u1"], 0.1); P.FiniteDiff2(a["u1"], 0.1); yield "FiniteDiff"
    for nm in ("x", "t"):
        P.Diff(a["u2"], 0.1, nm); P.Diff2(a["u2"], 0.1, nm); yield f"Diff {nm}"
    SolverConfig.divide(a["up"], a["down"]); yield "divide"
    from kd.model.sga.sgapde import metann
    metann.prepare_training_data(a["co"], a["u2"]); yield "prepare_training_data"
    metann.prepare_training_data(a["co"], a["u2"], normalize=False); yield "prepare_training_data without normalization"
    metann.train_metanet(a["co"], a["u2"], hidden_dim=3, max_epoch=2, normalize=False); yield "train_metanet"


def fd_blocks(r, v, ctx):
    from kd.model.discover.task.pde import utils_fd as F
    from kd.model.discover.task.pde import utils_v1 as F1
    from kd.utils import utils_fd as U
    a = dict(u1=v((9,)), u2=v((8, 7)), u3=v((7, 6, 6)), x=np.linspace(0, 1, 8), xc=np.linspace(0, 1, 8).reshape(-1, 1), t=np.linspace(0, 1, 9), u4=v((6, 6, 6, 5)), c6=np.linspace(0, 1, 6), c7=np.linspace(0, 1, 7))
    yield a
    for M in (F, F1):
        M.FiniteDiff(a["u1"], 0.1); M.FiniteDiff2(a["u1"], 0.1); yield f"{M.__name__} FiniteDiff"
        for x in (a["x"], a["xc"]):
            for f in (M.Diff, M.Diff2, M.Diff3, M.Diff4):
                f(a["u2"], x, 1, "x"); yield f"{M.__name__}.{f.__name__}"
        for f in (M.Diff_2, M.Diff2_2):
            for k in (1, 2):
                f(a["u3"], a["c7"] if k == 1 else a["c6"], k); yield f"{M.__name__}.{f.__name__} {k}"
        for f in (M.Diff_3, M.Diff2_3):
            for k in (1, 2, 3):
                try:
                    f(a["u4"], a["c6"], k)
                except REFUSED as x:
                    ctx.label(f"refused {f.__name__} {type(x).__name__}")
                yield f"{M.__name__}.{f.__name__} {k}"
    for k in (1, 2, 3):
        try:
            U.FiniteDiff(a["u1"], 0.1, k)
        except REFUSED:
            pass
        yield f"shared FiniteDiff order {k}"
    from kd.utils.solver import FiniteDifferenceOperator as O
    for k in (1, 2, 3, 4):
        for arg in ("u1", "u2"):
            for dim in (0, 1, 2):
                try:
                    O(a[arg], 0.1, dim).compute(k)
                    O.diff(a[arg], 0.1, k)
                except REFUSED:
                    pass
        yield f"FiniteDifferenceOperator order {k}"


def find_blocks(r, v, ctx):
    from kd.model.discover.task.pde import pde_find as P
    from kd.model.discover.task.pde import utils_noise as N
    a = dict(f=v((12,)), x=np.linspace(0, 1, 12), u=v((14, 13)), data=v((10, 2)), der=v((10, 3)), desc=["", "u_x", "u_xx"], w=v((3, 1)), names=["u", "v"], Xd=v((14, 1)), Xc=np.linspace(0, 1, 14).reshape(-1, 1), xc=np.linspace(0, 1, 12).reshape(-1, 1), U=v((10, 3)) + np.linspace(0, 1, 10)[:, None], par=[np.array([1.0, 2.0, 3.0]), np.array([2.0, 2.0, 2.0])])
    yield a
    calls = [("TikhonovDiff", lambda: P.TikhonovDiff(a["f"], 0.1, 0.5, 1)), ("FiniteDiff 1", lambda: P.FiniteDiff(a["f"], 0.1, 1)), ("FiniteDiff 2", lambda: P.FiniteDiff(a["f"], 0.1, 2)), ("FiniteDiff 3", lambda: P.FiniteDiff(a["f"], 0.1, 3)),
             ("ConvSmoother", lambda: P.ConvSmoother(a["f"], 3, 2)), ("PolyDiff", lambda: P.PolyDiff(a["f"], a["x"], diff=2)), ("PolyDiffPoint", lambda: P.PolyDiffPoint(a["f"], a["x"], diff=2)),
             ("build_Theta", lambda: P.build_Theta(a["data"], a["der"], a["desc"], 2, data_description=a["names"])), ("build_linear_system FD", lambda: P.build_linear_system(a["u"], 0.1, 0.1, D=2, P=2, time_diff="FD", space_diff="FD")),
             ("build_linear_system poly", lambda: P.build_linear_system(a["u"], 0.1, 0.1, D=2, P=2, width_x=3, width_t=3, deg_x=3, deg_t=3)),
             ("normalize", lambda: N.normalize(a["U"], "min_max")), ("standardize", lambda: N.normalize(a["U"], "z")), ("unnormalize", lambda: N.unnormalize(a["U"], a["par"])),
             ("cut_bound", lambda: N.cut_bound(a["U"], 0.2)), ("cut_bound_quantile", lambda: N.cut_bound_quantile([a["Xc"], a["Xd"]], a["Xc"]))]
    for nm, f in calls:
        try:
            f()
        except REFUSED as x:
            ctx.label(f"refused {nm} {type(x).__name__}")
        yield nm


def token_blocks(r, v, ctx):
    from kd.model.discover import functions as Fn
    a = dict(p=v((6, 5)), q=v((6, 5)), z=v((6, 5)) * 1e-3, x=np.linspace(0, 1, 6).reshape(-1, 1))
    yield a
    for nm, tok in sorted(Fn.function_map.items()):
        if tok.function is None:
            continue
        for args in ((a["p"], a["q"]), (a["z"], a["z"]), (a["p"], a["x"])):
            try:
                tok.function(*args[:tok.arity])
            except Exception:
                ctx.label(f"token refused {nm}")
        yield f"operator {nm}"


def eq_blocks(r, v, ctx):
    from kd.model.eqgpt import read_dataset as D
    words = [["ut", "ux", "u"], ["utt", "uxx", "E"], ["ut", "ux", "u", "uxx"]][int(abs(v((1,))[0]) * 7) % 3]
    a = dict(w=list(words), many=[list(words), list(words[:2])], n=[3, 1, 4])
    yield a
    for nm, f in (("permutation", lambda: D.permutation(a["w"])), ("split_list", lambda: D.split_list(a["n"], 3)), ("expand", lambda: D.expand_to_wanted_size(a["w"], 9))):
        try:
            f()
        except REFUSED as x:
            ctx.label(f"refused {nm} {type(x).__name__}")
        yield nm


def viz_blocks(r, v, ctx):
    from kd.viz import _contracts as K
    u = (5, 4, 6)
    a = dict(a=v((20,)), p=v((20,)), co=v((20, 2)), x=np.sort(v((5,))), y=np.sort(v((4,))), t=np.linspace(0, 1, 6), true=v(u), pred=v(u), u2=v((5, 6)), q2=v((5, 6)), steps=[1, 2, 3], obj=[3.0, np.nan, 1.0], comp=[1, 2, 2], times=[0.1, 0.4], rew=[v((3,)), v((4,))])
    a["sp"] = [a["x"], a["y"]]
    yield a
    calls = [("ResidualPlotData", lambda: K.ResidualPlotData.from_actual_predicted(a["a"], a["p"], input_coordinates=a["co"])), ("ParityPlotData", lambda: K.ParityPlotData.from_actual_predicted(a["a"], a["p"])),
             ("OptimizationHistoryData", lambda: K.OptimizationHistoryData(a["steps"], a["obj"], complexity=a["comp"])),
             ("FieldComparisonData", lambda: K.FieldComparisonData(a["x"], a["t"], a["u2"], a["q2"])), ("slice", lambda: K.slice_3d_to_2d(K.FieldComparisonData(a["sp"], a["t"], a["true"], a["pred"]), 0, 1)),
             ("TimeSliceComparisonData", lambda: K.TimeSliceComparisonData(a["x"], a["t"], a["u2"], a["q2"], a["times"]))]
    for nm, f in calls:
        try:
            f()
        except REFUSED as x:
            ctx.label(f"refused {nm} {type(x).__name__}")
        yield nm


BLOCKS = {"sga": sga_blocks, "fd": fd_blocks, "find": find_blocks, "tokens": token_blocks, "eqgpt": eq_blocks, "viz": viz_blocks}


@facet(st.fixed_dictionaries({"block": st.sampled_from(sorted(BLOCKS)), "seed": G.seeds, "kind": st.sampled_from(["normal", "zeros", "int", "positive", "small"]), "layout": st.sampled_from(["C", "F", "view"])}), quick=400, thorough=10000, shards=2)
def blocks(case, ctx):
    """The numerical building blocks read their arguments and answer with new arrays."""
    n = [0]

    def v(shape):
        n[0] += 1
        return layout(np.asarray(G.values(shape, case["seed"] + n[0], case["kind"]), float), case["layout"])
    with quiet(), np.errstate(all="ignore"):
        g = BLOCKS[case["block"]](None, v, ctx)
        fz = Frozen(**next(g))
        for what in g:
            fz.verify(what)
    ctx.nontrivial(True); ctx.label(case["block"])


@facet(st.fixed_dictionaries({"p": R.problem(), "seed": st.integers(0, 10**6), "n": st.integers(1, 5), "nn": st.booleans()}), quick=150, thorough=4000, shards=2)
def sga_evaluation(case, ctx):
    """Scoring candidate equations leaves the prepared problem (and through it the dataset) as it was."""
    import random
    from kd.model.sga.sgapde.pde import PDE, evaluate_mse
    arr = R.arrays(case["p"])
    fz0 = Frozen(c=arr[0], f=arr[1], p=arr[2])
    with quiet(), np.errstate(all="ignore"):
        c = R.make_context(case["p"], arr)
        held = {k: x for k, x in vars(c).items() if isinstance(x, (np.ndarray, dict))}
        grid = lambda L: {str(i): x for i, row in enumerate(np.asarray(L, dtype=object)) for x in [row[-1]] if isinstance(x, np.ndarray)}
        tables = {k: grid(getattr(c, k)) for k in ("VARS", "den", "ALL") if hasattr(c, k)}
        fz = Frozen(u=c.u, ut=c.ut, **{f"t_{k}": x for k, x in tables.items()}, **{f"h_{k}": x for k, x in held.items() if isinstance(x, np.ndarray)})
        fz0.verify("preparation")
        np.random.seed(case["seed"] % 2**31); random.seed(case["seed"])
        for i in range(case["n"]):
            p = PDE(c, 4, 4, 0.5)
            p.w = evaluate_mse(p, c)[1]
            p.visualize()
            if np.ndim(p.w):                     # a candidate with a finite score
                p.concise_visualize(c)
            fz.verify(f"evaluation {i}"); fz0.verify(f"evaluation {i}")
            p.mutate(0.5)
            if p.elements:
                p.replace()
            evaluate_mse(p.elements[:2], c, True)
            p.visualize()
            fz.verify(f"mutated evaluation {i}"); fz0.verify(f"mutated evaluation {i}")
    ctx.nontrivial(True); ctx.label("legacy" if case["p"]["legacy"] else f"{len(case['p']['order'])}-D"); ctx.label(case["p"]["kind"])


@facet(st.fixed_dictionaries({"data": datasets(), "dna": st.lists(st.lists(st.integers(0, 9999), min_size=2, max_size=20), min_size=1, max_size=6), "k": st.integers(0, 99), "funs": st.booleans()}), quick=120, thorough=3000, shards=2, case_s=90)
def discover_evaluation(case, ctx):
    """Scoring Discover programs leaves the dataset and the prepared data as they were."""
    from kd.model.discover.program import Program, from_tokens
    from kd.model.kd_discover import KD_Discover
    from vlib import discref as DR
    o = Owned(case["data"])
    conf = discover_conf(case["k"])
    if case["funs"]:
        conf["task"] = {"function_set": ["add", "mul", "sub", "div", "n2", "n3", "exp", "sin"] + DR.diffs_of(len(o.order) - 1)}
    fo = Frozen(conf=conf)
    with quiet(), np.errstate(all="ignore"):
        m = KD_Discover(out_path=None, config_out=conf, n_iterations=1, n_samples_per_batch=10, seed=case["k"])
        try:
            m.import_dataset(o.ds)
        except REFUSED as x:
            ctx.label(f"refused {type(x).__name__}")
            o.verify("refused import")
            return
        o.verify("import"); fo.verify("import")
        task = Program.task
        fz = Frozen(**{f"task_{k}": v for k, v in vars(task).items() if isinstance(v, (np.ndarray, list))}, data={k: v for k, v in m.data_class.get_data().items() if isinstance(v, (np.ndarray, list))})
        names = [t.name for t in Program.library.tokens]
        done = 0
        for i, dna in enumerate(case["dna"]):
            try:
                toks = DR.decode(dna, names)
                p = from_tokens(np.array(toks, dtype=np.int32))
                p.r_ridge
                p.evaluate
                str(p.str_expression)
                done += 1
            except REFUSED as x:
                ctx.label(f"program refused {type(x).__name__}")
            o.verify(f"program {i}"); fz.verify(f"program {i}")
    ctx.nontrivial(done > 0); ctx.label("legacy" if case["data"]["legacy"] else f"{len(case['data']['order'])}-D")
