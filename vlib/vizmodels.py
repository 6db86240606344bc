"""Small model objects in the state a completed fit leaves behind, for the plotting facade."""
from types import SimpleNamespace

import numpy as np


def dlga(seed=0, generations=6, n=7, modules=2):
    from kd.model.kd_dlga import KD_DLGA
    r = np.random.default_rng(seed)
    m = object.__new__(KD_DLGA)
    d = m.__dict__
    d["train_loss_history"] = [float(v) for v in r.random(generations)]
    d["val_loss_history"] = [float(v) for v in r.random(max(1, generations // 2))]
    d["evolution_history"] = [dict(fitness=float(v), complexity=int(c), population_size=40, unique_modules=int(k), generation=i)
                              for i, (v, c, k) in enumerate(zip(1 + r.random(generations), r.integers(1, 5, generations), r.integers(1, 30, generations)))]
    ops = ["u", "u_x", "u_xx", "u_xxx"]
    d["user_operators"] = ops
    d["metadata"] = {k: r.normal(size=(n, 1)) for k in ops + ["u_t", "u_tt"]}
    d["Chrom"] = [[[int(g) for g in r.integers(0, 4, r.integers(1, 4))] for _ in range(modules)] for _ in range(4)]
    d["coef"] = [r.normal(size=(modules, 1)) for _ in range(2)]
    d["name"] = ["u_t", "u_tt"]
    return m


def sga(seed=0, shape=(5, 6), axes=("x", "t"), lhs="t", legacy=True, terms=True):
    from kd.model.kd_sga import KD_SGA
    from kd.model.sga.sgapde.equation import SGAEquationDetails, SGAEquationTerm
    r = np.random.default_rng(seed)
    c = SimpleNamespace(u=r.normal(size=shape), u_origin=r.normal(size=shape), ut=r.normal(size=shape), ut_origin=r.normal(size=shape),
                        right_side_full=r.normal(size=shape), right_side_full_origin=r.normal(size=shape))
    co = {a: np.cumsum(r.uniform(0.1, 1, n)) for a, n in zip(axes, shape)}
    if legacy:
        c.x, c.t = co[axes[0]], co[axes[1]]
    else:
        c.axis_order, c.coords_1d, c.lhs_axis = list(axes), co, lhs
    m = object.__new__(KD_SGA)
    m.context_ = c
    m.best_equation_details_ = SGAEquationDetails(lhs="u_t", terms=(SGAEquationTerm("u", "default", float(r.normal())),) if terms else (), predicted_rhs=r.normal(size=shape))
    m._co = co
    return m


def discover(seed=0, iterations=5, d=1):
    from kd.model.kd_discover import KD_Discover
    r = np.random.default_rng(seed)
    m = object.__new__(KD_Discover)
    m.searcher = SimpleNamespace(r_train=[r.random(int(r.integers(1, 6))) for _ in range(iterations)], r_history=[r.random(8) for _ in range(iterations)])
    return m
