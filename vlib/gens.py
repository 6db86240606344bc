"""Generators shared by the checks.  Cases carry sizes, kinds and an integer seed from
which array contents are computed, so they stay small and replay exactly."""
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2**31 - 1)
GEN_NAMES = ["x", "y", "z", "t", "tau", "r", "lat", "x1", "s"]
FIELD_NAMES = ["u", "v", "w", "p", "rho", "T", "u2", "h"]
PARAM_NAMES = ["nu", "kappa", "alpha", "beta", "k1"]


def coords(n, seed, kind="uniform"):
    """Strictly increasing coordinates."""
    r = np.random.RandomState(seed)
    lo = r.choice([0.0, 1.0, -1.0, -3.5, 10.0]) + round(r.uniform(-1, 1), 3)
    if kind == "uniform":
        return lo + r.choice([0.1, 0.25, 1.0, 0.03, 2.0]) * np.arange(n)
    if kind == "int":
        return np.arange(n) * int(r.randint(1, 4)) + int(r.randint(-5, 5))
    return lo + np.cumsum(r.uniform(0.05, 1.0, n))


def values(shape, seed, kind="normal"):
    r = np.random.RandomState(seed)
    if kind == "int":
        return r.randint(-9, 10, shape)
    if kind == "small":
        return r.standard_normal(shape) * 1e-6
    if kind == "big":
        return r.standard_normal(shape) * 1e5
    if kind == "zeros":
        return np.where(r.uniform(size=shape) < 0.3, 0.0, r.standard_normal(shape))
    if kind == "positive":
        return r.uniform(0.1, 3.0, shape)
    if kind == "complex":
        return r.standard_normal(shape) + 1j * r.standard_normal(shape)
    if kind == "float32":
        return r.standard_normal(shape).astype(np.float32)
    return r.standard_normal(shape)


def smooth(axes, seed, kind=0):
    """A smooth non-degenerate function sampled on the tensor grid of `axes` (list of 1-D arrays)."""
    r = np.random.RandomState(seed)
    g = np.meshgrid(*[np.asarray(a, float) for a in axes], indexing="ij")
    out = np.zeros(g[0].shape)
    for _ in range(3):
        ph = r.uniform(0, 6)
        for a, m in zip(axes, g):
            L = float(np.ptp(np.asarray(a, float))) or 1.0
            ph = ph + r.uniform(0.5, 2.5) * 2 * np.pi * (m - float(np.min(a))) / L * r.choice([0.5, 1.0])
        out += r.uniform(0.3, 1.0) * np.sin(ph)
    return out + r.uniform(-1, 1)


@st.composite
def nd_spec(draw, min_axes=1, max_axes=4, min_n=1, max_n=6, axes=None, fields=None, maxpar=2, need=()):
    names = draw(st.lists(st.sampled_from(axes or GEN_NAMES), min_size=max(1, min_axes - len(need)),
                          max_size=max_axes - len(need), unique=True)) if axes is None or len(axes) > 0 else []
    names = [a for a in names if a not in need] + list(need)
    order = draw(st.permutations(names))
    shape = [draw(st.integers(min_n, max_n)) for _ in order]
    fl = draw(st.lists(st.sampled_from(fields or FIELD_NAMES), min_size=1, max_size=3, unique=True))
    pl = draw(st.lists(st.sampled_from(PARAM_NAMES), max_size=maxpar, unique=True))
    return {"order": list(order), "shape": shape, "fields": fl, "params": pl,
            "target": draw(st.sampled_from(fl)), "lhs": draw(st.sampled_from(list(order))),
            "ckind": [draw(st.sampled_from(["uniform", "int", "irregular"])) for _ in order],
            "fkind": draw(st.sampled_from(["normal", "int", "zeros", "float32"])),
            "seed": draw(seeds)}


def nd_arrays(s):
    """(coords_1d, fields_data, param_fields) of an nd_spec."""
    c = {a: coords(n, s["seed"] + 17 * i, k) for i, (a, n, k) in enumerate(zip(s["order"], s["shape"], s["ckind"]))}
    f = {n: values(tuple(s["shape"]), s["seed"] + 101 * (i + 1), s["fkind"]) for i, n in enumerate(s["fields"])}
    p = {n: values(tuple(s["shape"]), s["seed"] + 1009 * (i + 1)) for i, n in enumerate(s["params"])}
    return c, f, p


def nd_dataset(s, arrays=None):
    from kd.dataset import PDEDataset
    c, f, p = arrays or nd_arrays(s)
    return PDEDataset("ds", fields_data=f, coords_1d=c, axis_order=s["order"], target_field=s["target"],
                      lhs_axis=s["lhs"], param_fields=p or None)
