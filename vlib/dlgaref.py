"""Reference model of the DLGA genome encoding and fitness (no code of kd involved)."""
import random

import numpy as np
from hypothesis import strategies as st

from vlib import gens as G

BASE = ["u", "ux", "uxx", "uxxx", "ut", "utt"]     # DLGA's own library (genomes only use the first four)
OPS = ["u", "u_x", "u_t", "u_xx", "u_xxx", "u_tt"]


@st.composite
def specs(draw, min_pop=2, max_pop=9, max_n=40):
    """A model: which class, which operators, its rates, and the data its library holds."""
    kd = draw(st.booleans())
    prob = st.sampled_from([0.0, 0.3, 0.6, 0.9, 1.0])
    return {"kd": kd, "ops": draw(st.permutations(OPS))[:draw(st.integers(1, 6))] if kd else None,
            "n": draw(st.integers(26, max_n)), "seed": draw(G.seeds), "data": draw(st.sampled_from(["normal", "normal", "small", "int"])),
            "pop": draw(st.integers(min_pop, max_pop)), "epi": draw(st.sampled_from([0.0, 0.001, 0.1, 1.0])),
            "maxlen": draw(st.integers(1, 5)), "rates": [draw(prob) for _ in range(5)],
            "exact": draw(st.sampled_from([None, "u_t", "u_tt", "near"]))}


def make(s, gens=0):
    import torch
    from kd.model.dlga import DLGA
    from kd.model.kd_dlga import KD_DLGA
    m = KD_DLGA(operators=list(s["ops"]), epi=s["epi"], input_dim=2, verbose=False) if s["kd"] else DLGA(epi=s["epi"], input_dim=2)
    m.max_length, m.pop_size, m.n_generations = s["maxlen"], s["pop"], gens
    m.partial_prob, m.genes_prob, m.mutate_rate, m.delete_rate, m.add_rate = s["rates"]
    cols, ut, utt = data(s)
    m.Theta = torch.from_numpy(cols.copy())
    m.u_t, m.u_tt = ut.copy(), utt.copy()
    return m


def data(s):
    """(library columns, u_t, u_tt) of the spec."""
    k = len(s["ops"]) if s["kd"] else 6
    r = np.random.RandomState(s["seed"])
    cols = r.standard_normal((s["n"], k))
    if s["data"] == "int":
        cols = r.randint(-3, 4, (s["n"], k)).astype(float)
    if s["data"] == "small":
        cols = cols * 0.1
    cols = cols.astype(np.float32)
    lin = cols.astype(float) @ r.uniform(-2, 2, (k, 1))
    ut = r.standard_normal((s["n"], 1)) if s["exact"] != "u_t" else lin + 1e-3 * r.standard_normal((s["n"], 1))
    utt = r.standard_normal((s["n"], 1)) * 1.5 if s["exact"] != "u_tt" else lin + 1e-3 * r.standard_normal((s["n"], 1))
    if s["exact"] == "near":
        utt = ut + 0.1 * r.standard_normal(ut.shape)
    return cols, ut.astype(np.float32), utt.astype(np.float32)


def n_ops(s):
    return len(s["ops"]) if s["kd"] else 4


def term_matrix(cols, genome):
    return np.hstack([np.prod(cols[:, mod].astype(float), axis=1, keepdims=True) for mod in genome])


def tls(lhs, G_):
    """Total least squares of lhs against the columns: (coef, condition flag, singular values)."""
    A = np.hstack([lhs.astype(float), G_])
    _, sv, vt = np.linalg.svd(A, full_matrices=False)
    w = vt[-1]
    return w, sv


def genomes(n_ops, max_terms=5, max_len=5, distinct=True):
    mod = st.lists(st.integers(0, n_ops - 1), min_size=1, max_size=max_len).map(sorted)
    return st.lists(mod, min_size=1, max_size=max_terms, unique_by=tuple if distinct else None)


def seed(n):
    random.seed(n)
    np.random.seed(n % 2**32)
