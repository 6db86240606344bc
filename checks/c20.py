"""C20: the search state (parent, sibling, ancestors, open slots) is that of the partial expression tree."""
import triton._C.libtriton  # noqa: F401
import numpy as np
from hypothesis import strategies as st

from vlib import discref as R, gens as G
from vlib.core import Frozen, Skip, arr_eq, check, close, eq, facet
from vlib.sgaref import quiet

TECHNIQUE = ("model-based property testing: batches of token sequences are grown token by token through the real state transition and compared at every step with an "
             "explicitly built partial tree; the vectorised helpers are compared with the same model for every position")
RULE = "non-trivial: some position of some sequence has a sibling and some position has two or more ancestors"


class Stub:
    """Stands in for the constraint set: no constraint; records what it is given."""

    def __init__(self, L):
        self.L, self.calls, self.priors = L, [], []

    def __call__(self, actions, parent, sibling, dangling):
        self.calls.append([np.array(v) for v in (actions, parent, sibling, dangling)])
        return np.zeros((actions.shape[0], self.L), dtype=np.float32)

    def initial_prior(self):
        return np.zeros(self.L, dtype=np.float32)


@st.composite
def batches(draw):
    s = draw(R.all_libs(need=("add",) if draw(st.booleans()) else ("sub", "sin")))
    return {"s": s, "rows": draw(st.lists(st.lists(st.integers(0, 9999), min_size=1, max_size=20), min_size=1, max_size=7)),
            "T": draw(st.integers(1, 18)), "typed": draw(st.booleans()), "deep": draw(st.sampled_from([0, 0, 3, 10]))}


def lib_of(s):
    lib = R.library(s)
    R.set_program(lib, task_type="pde" if s["pde"] else "regression")
    return lib


def sequences(c, names, ar):
    """Rows of exactly T tokens; complete expressions are followed by a further one (as padding is)."""
    rows = []
    for n in c["rows"]:
        row = []
        if c["deep"]:
            fun = [i for i, a in enumerate(ar) if a > 0]
            row = [fun[k % len(fun)] for k in n[:c["deep"]]]
        k = 0
        while len(row) < c["T"]:
            row += R.decode(n[k:], names, max_len=22, typed=c["typed"])
            k += 1
        rows.append(row[:c["T"]])
    return rows


def current(row, ar):
    """Partial tree of the expression that is being built (after a complete one a new one starts)."""
    P = R.Partial(row, ar)
    while P.first_complete is not None:
        row = row[P.first_complete:]
        P = R.Partial(row, ar)
    return P


def encoded(lib, P):
    return (lib.EMPTY_PARENT if P.parent is None else int(lib.parent_adjust[P.parent]), lib.EMPTY_SIBLING if P.sibling is None else P.sibling)


@facet(batches(), quick=700, thorough=25000, shards=2)
def helpers(case, ctx):
    """Vectorised parents / siblings / ancestors of every position of every row."""
    from kd.model.discover.dso.subroutines import ancestors, jit_parents_siblings_at_once, parents_siblings
    c = case
    lib = lib_of(c["s"])
    names, ar = R.names_of(c["s"]), [R.arity(n) for n in R.names_of(c["s"])]
    eq([list(lib.names), [int(a) for a in lib.arities]], [names, ar], "names and arities of the library")
    funs = [i for i, a in enumerate(ar) if a > 0]
    adjust = {f: k for k, f in enumerate(funs)}
    for f in funs:
        eq(int(lib.parent_adjust[f]), adjust[f], f"number of {names[f]} among the possible parents")
    rows = sequences(c, names, ar)
    A = np.array(rows, dtype=np.int32)
    Z = Frozen(actions=A)
    par1, sib1 = jit_parents_siblings_at_once(A, lib.arities, lib.parent_adjust)
    eq([list(par1.shape), list(sib1.shape)], [list(A.shape)] * 2, "shapes")
    rich = [False, False]
    for t in range(A.shape[1] + 1):
        if t:
            par, sib = parents_siblings(A[:, :t], arities=lib.arities, parent_adjust=lib.parent_adjust, empty_parent=lib.EMPTY_PARENT, empty_sibling=lib.EMPTY_SIBLING)
            groups = [funs, funs[:1], funs[1::2], [f for f in funs if R.base(names[f]) in R.DIFFS], funs[-1:]]
            masks = [(g, ancestors(A[:, :t], lib.arities, np.array(g, dtype=np.int32))) for g in groups if g]
        for r, row in enumerate(rows):
            P = current(row[:t], ar)
            what = f"after {','.join(names[i] for i in row[:t]) or 'nothing'} (row {r} of {len(rows)})"
            want = encoded(lib, P)
            rich[0] |= P.sibling is not None
            rich[1] |= len(P.open) > 1
            if t:
                eq((int(par[r]), int(sib[r])), want, f"parent and sibling {what}")
                if t == len(row) or R.Partial(row[:t], ar).first_complete is None:
                    Q = R.Partial(row[:t], ar)
                    if Q.first_complete is None:
                        for g, m in masks:
                            eq(bool(m[r]), bool(Q.ancestors & set(g)), f"an ancestor among {[names[i] for i in g]} {what}")
            if t < A.shape[1]:
                eq((int(par1[r, t]), int(sib1[r, t])), want, f"parent and sibling (all positions at once) {what}")
    Z.verify("token sequences")
    ctx.nontrivial(all(rich))
    ctx.label("rows", len(rows) > 1); ctx.label("completes", any(R.Partial(r, ar).first_complete for r in rows))


@st.composite
def histories(draw):
    c = draw(batches())
    c["reset"] = draw(st.booleans())
    c["kind"] = draw(st.sampled_from(["pde", "regression"]))
    return c


def task_of(c, lib):
    if c["kind"] == "pde":
        from kd.model.discover.task.pde.pde import PDETask as T
    else:
        from kd.model.discover.task.regression import RegressionTask as T
    task = T.__new__(T)
    task.library = lib
    return task


@facet(histories(), quick=500, thorough=15000, shards=1)
def transition(case, ctx):
    """get_next_obs over whole histories; earlier observations stay as they were; rows do not influence each other."""
    c = case
    lib = lib_of(c["s"])
    names, ar = R.names_of(c["s"]), [R.arity(n) for n in R.names_of(c["s"])]
    rows = sequences(c, names, ar)
    A = np.array(rows, dtype=np.int64 if c["reset"] else np.int32)
    task = task_of(c, lib)
    for again in range(1 + c["reset"]):
        stub = Stub(lib.L)
        obs0 = task.reset_task(stub)
        eq([float(v) for v in obs0], [float(lib.EMPTY_ACTION), float(lib.EMPTY_PARENT), float(lib.EMPTY_SIBLING), 1.0], "state of the empty tree")
        obs = np.tile(obs0, (len(rows), 1))
        seen, sib, deep = [], False, False
        for t in range(1, A.shape[1] + 1):
            keep = Frozen(actions=A)
            seen.append((obs, obs.copy()))
            obs, prior = task.get_next_obs(A[:, :t], obs)
            keep.verify("actions")
            eq([list(obs.shape), str(obs.dtype), list(np.shape(prior))], [[len(rows), 4], "float32", [len(rows), lib.L]], "shape of the observation")
            for r, row in enumerate(rows):
                P = R.Partial(row[:t], ar)
                Q = current(row[:t], ar)
                sib |= Q.sibling is not None
                deep |= len(Q.open) > 1
                what = f"state after {','.join(names[i] for i in row[:t])} (row {r} of {len(rows)})"
                want = [row[t - 1], *encoded(lib, Q), P.dangling]
                eq([int(v) for v in obs[r]], want, what)
                given = stub.calls[-1]
                eq([[int(v) for v in given[0][r]], int(given[1][r]), int(given[2][r]), int(given[3][r])], [row[:t], *want[1:]], f"{what}, as given to the constraints")
        for k, (o, copy) in enumerate(seen):
            arr_eq(o, copy, f"observation {k} after later steps")
    # a row alone gives the same as within the batch
    one = task.reset_task(Stub(lib.L)).reshape(1, -1)
    for t in range(1, A.shape[1] + 1):
        one, _ = task.get_next_obs(A[:1, :t], one)
    arr_eq(one[0], obs[0], "first row evaluated alone")
    ctx.nontrivial(sib and deep)
    ctx.label(c["kind"]); ctx.label("reset", c["reset"])


@st.composite
def encodings(draw):
    return {"s": draw(R.all_libs()), "obs": draw(st.lists(st.tuples(*[st.integers(0, 999)] * 4), min_size=1, max_size=12)), "steps": draw(st.booleans()),
            "which": draw(st.integers(1, 15)), "embedding": draw(st.booleans()), "size": draw(st.integers(1, 9)), "seed": draw(G.seeds),
            "tensor": draw(st.booleans())}


@facet(encodings(), quick=500, thorough=12000, shards=1)
def encoding(case, ctx):
    """The network input contains exactly the observed parts, one-hot or embedded, per row and position."""
    import torch
    from kd.model.discover.state_manager import make_state_manager
    c = case
    lib = lib_of(c["s"])
    on = [bool(c["which"] >> k & 1) for k in range(4)]
    cfg = {"type": "hierarchical", "observe_action": on[0], "observe_parent": on[1], "observe_sibling": on[2], "observe_dangling": on[3],
           "embedding": c["embedding"], "embedding_size": c["size"]}
    keep = dict(cfg)
    torch.manual_seed(c["seed"] % 2 ** 31)
    with quiet():
        sm = make_state_manager(cfg)
    eq(cfg, keep, "state manager settings after use")

    class Con:
        max_length = 9
    sm.setup_manager(Con())
    n = [lib.L + 1, lib.L + 1 - sum(R.arity(x) == 0 for x in lib.names), lib.L + 1]
    rows = np.array([[a % n[0], p % n[1], s % n[2], d % 40] for a, p, s, d in c["obs"]], dtype=np.float32)
    obs = rows.T[None] if c["steps"] else rows          # (1, 4, T) or (B, 4)
    Z = Frozen(obs=obs)
    out = sm.get_tensor_input(torch.tensor(obs) if c["tensor"] else obs)
    Z.verify("observation")
    out = np.asarray(out.detach(), dtype=float)
    tables = [getattr(sm, f"{k}_embeddings").detach().numpy() if c["embedding"] and on[i] else None for i, k in enumerate(("action", "parent", "sibling"))]
    want = []
    for row in rows:
        v = []
        for i in range(3):
            if on[i]:
                v += list(map(float, tables[i][int(row[i])])) if c["embedding"] else [float(j == int(row[i])) for j in range(n[i])]
        if on[3]:
            v.append(float(row[3]))
        want.append(v)
    eq(int(out.size), len(rows) * len(want[0]), "size of the network input")
    check(out.shape[-1] == len(want[0]), f"network input has {out.shape[-1]} features, expected {len(want[0])}")
    close(out.reshape(len(rows), -1), np.array(want), f"network input for observations {rows.tolist()}", rtol=1e-6, atol=1e-7)
    if c["embedding"]:
        for tb, size in zip(tables, n):
            if tb is not None:
                eq(list(tb.shape), [size, c["size"]], "embedding table")
                check(len({tuple(r) for r in tb.tolist()}) == size and np.all(np.abs(tb) <= 1), "embeddings of different tokens coincide or leave [-1, 1]")
    ctx.nontrivial(sum(on) > 1 and len(rows) > 1)
    ctx.label("embedding", c["embedding"]); ctx.label("dangling", on[3]); ctx.label("sequence", c["steps"])
