"""C21: search memory and best-of-run bookkeeping are exact."""
import triton._C.libtriton  # noqa: F401
import math
from fractions import Fraction
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from vlib import discref as R, gens as G
from vlib.core import Frozen, arr_eq, check, eq, facet
from vlib.sgaref import quiet

TECHNIQUE = ("stateful model-based testing: random histories of operations on the bounded memories against a set model; random batches of rewards through the risk-seeking "
             "filter and whole searches (scripted samples, known rewards) against a reference; definitions checked on random summaries")
NOTE = "searches in which no candidate at all has a finite reward are not checked (there is no best candidate to report)"
RULE = "non-trivial: the memory was full and an item was dropped (memories); some candidate is dropped and some is kept (filter); the best changes after the first iteration (search)"


def score(k):
    """A score with ties for different items."""
    return [0.0, 0.25, 0.5, 0.5, 0.75, 1.0, -1.0, 1e-9, 0.3, 0.30000001][k % 10]


ops = st.lists(st.one_of(st.tuples(st.just("push"), st.integers(0, 30)), st.tuples(st.just("push"), st.integers(0, 30)), st.tuples(st.just("push"), st.integers(0, 9)),
                         st.tuples(st.just("pop"), st.just(0)), st.tuples(st.sampled_from(["max", "min", "order", "sample", "len"]), st.integers(1, 4))), min_size=1, max_size=45)


@st.composite
def memories(draw):
    return {"cap": draw(st.sampled_from([1, 1, 2, 3, 5, 8, 100])), "ops": draw(ops), "tensor": draw(st.booleans()), "seed": draw(G.seeds), "perm": draw(st.integers(0, 9))}


@facet(memories(), quick=1500, thorough=50000, shards=2)
def priority(case, ctx):
    """UniquePriorityQueue = the best distinct items, whatever the order of pushes and pops."""
    import torch
    from kd.model.discover.dso.memory import make_queue
    c = case
    q = make_queue(priority=True, capacity=c["cap"], seed=c["seed"] % 2 ** 31)
    model, dropped, tops = {}, 0, set()
    popped = False
    for k, (op, v) in enumerate(c["ops"]):
        what = f"after {[o for o in c['ops'][:k + 1]]} with capacity {c['cap']}"
        if op == "push":
            s = score(v * (1 + c["perm"]) + v // 7)
            q.push(torch.tensor(s, dtype=torch.float64) if c["tensor"] else s, f"i{v}", {"n": v})
            tops.add((s, f"i{v}"))
            if f"i{v}" not in model:
                full = len(model) >= c["cap"]
                model[f"i{v}"] = s
                if full:
                    have = set(q)
                    gone = [i for i in model if i not in have]
                    check(len(gone) == 1 and model[gone[0]] == min(model.values()), f"{what}: dropped {gone}, scores {model}")
                    del model[gone[0]]
                    dropped += 1
        elif op == "pop":
            got = q.pop()
            popped = True
            if not model:
                eq(got, (), f"{what}: pop of an empty memory")
            else:
                check(got[1] in model and model[got[1]] == min(model.values()) and float(got[0]) == model[got[1]], f"{what}: popped {got[1]}, scores {model}")
                eq(got[2], {"n": int(got[1][1:])}, f"{what}: data of the popped item")
                del model[got[1]]
        elif op in ("max", "min"):
            got = q.get_max() if op == "max" else q.get_min()
            if not model:
                eq(got, (), f"{what}: {op} of an empty memory")
            else:
                best = max(model.values()) if op == "max" else min(model.values())
                check(got[1] in model and model[got[1]] == best and float(got[0]) == best, f"{what}: {op} is {got[1]}, scores {model}")
        elif op == "order":
            items = list(q.iter_in_order())
            eq([model.get(i) for i, _ in items], sorted(model.values(), reverse=True), f"{what}: scores in order")
            eq([e for _, e in items], [{"n": int(i[1:])} for i, _ in items], f"{what}: data in order")
        elif op == "sample" and model:
            got = q.random_sample(v)
            eq(len(got), v, f"{what}: sample size")
            for i, e in got:
                check(i in model and e == {"n": int(i[1:])}, f"{what}: sampled {i}")
        check(len(q) == len(model) <= c["cap"], f"{what}: {len(q)} items, expected {len(model)}")
        eq(sorted(q), sorted(model), f"{what}: items")
        eq(sorted(q.unique_items), sorted(model), f"{what}: known items")
        if not popped and len({i for _, i in tops}) == len(tops):
            best = sorted((s for s, _ in tops), reverse=True)[:c["cap"]]
            eq(sorted(model.values(), reverse=True), best, f"{what}: the best scores ever pushed")
    ctx.nontrivial(dropped > 0)
    ctx.label("dropped", dropped); ctx.label("popped", popped); ctx.label("tensor", c["tensor"])


@facet(memories(), quick=600, thorough=15000, shards=1)
def recent(case, ctx):
    """UniqueQueue = the most recently pushed distinct items."""
    from kd.model.discover.dso.memory import make_queue
    c = case
    q = make_queue(priority=False, capacity=c["cap"])
    model, dropped = [], 0
    for k, (op, v) in enumerate(c["ops"]):
        what = f"after {c['ops'][:k + 1]} with capacity {c['cap']}"
        if op == "push":
            q.push(0.5, f"i{v}", v)
            if f"i{v}" in model:
                model.remove(f"i{v}")
            elif len(model) >= c["cap"]:
                model.pop(0)
                dropped += 1
            model.append(f"i{v}")
        elif op == "pop":
            got = q.pop()
            if model:
                eq(got[1], model.pop(0), f"{what}: popped item")
            else:
                eq(got, (), f"{what}: pop of an empty memory")
        eq(list(q), model, f"{what}: items, oldest first")
    ctx.nontrivial(dropped > 0)


# ---------------------------------------------------------------- risk-seeking filter
rew = st.one_of(st.sampled_from([0.0, 0.5, 0.5, 1.0, 0.25, float("nan")]), st.floats(0, 1, width=32), st.floats(-2, 2, width=32), st.sampled_from([1e7, -1e7]))


@st.composite
def filters(draw):
    n = draw(st.integers(1, 14))
    return {"r": [None if v != v else v for v in draw(st.lists(rew, min_size=n, max_size=n))], "invalid": draw(st.lists(st.sampled_from([0, 0, 0, 1]), min_size=n, max_size=n)),
            "eps": draw(st.sampled_from([0.02, 0.05, 0.1, 0.2, 0.25, 0.5, 0.75, 1.0, 1 / 3])), "T": draw(st.integers(1, 5)), "inv0": draw(st.booleans())}


def threshold(r, eps):
    """The smallest reward in the best eps fraction (upper empirical quantile); two values when the rank is ambiguous in floating point."""
    s = sorted(r)
    pos = (len(s) - 1) * (1 - eps)
    return {s[min(len(s) - 1, max(0, math.ceil(pos + d)))] for d in (-1e-9, 0, 1e-9)}


@facet(filters(), quick=1500, thorough=50000, shards=1)
def risk(case, ctx):
    """Exactly the valid candidates at or above the quantile are kept, with their own data."""
    from kd.model.discover.searcher import quantile_select
    c = case
    n = len(c["r"])
    r = np.array([np.nan if v is None else v for v in c["r"]], dtype=float)
    if c["inv0"]:
        r[np.array(c["invalid"], dtype=bool)] = 0.0
    P = [SimpleNamespace(traversal=list(range(1 + k % 4)), str=f"p{k}", str_expression=f"e{k}", originally_on_policy=bool(k % 2), invalid=bool(c["invalid"][k])) for k in range(n)]
    rng = np.random.RandomState(n)
    A, O, Q = rng.randint(0, 9, (n, c["T"])), rng.rand(n, 4, c["T"]), rng.rand(n, c["T"], 3)
    Z = Frozen(actions=A, obs=O, priors=Q)
    with quiet():
        got = quantile_select(A, O, Q, list(P), r.copy(), c["eps"])
    Z.verify("sampled batch")
    clean = np.where(np.isnan(r), 0.0, r)
    options = []
    for q in threshold(clean, c["eps"]):
        keep = [k for k in range(n) if clean[k] >= q and not P[k].invalid]
        options.append((q, keep))
    what = f"rewards {clean.tolist()}, invalid {c['invalid']}, fraction {c['eps']}"
    good = [k for k in range(n) if clean[k] > 0 and not P[k].invalid]
    if got is None:
        check(any(not keep for _, keep in options) or not good, f"{what}: nothing kept, expected {options}")
        ctx.label("nothing kept")
        return
    progs, rr, rt, full, pt, prior, onp, obs, act, q = got
    ids = [int(p.str[1:]) for p in progs]
    check(any(ids == keep and q == o for o, keep in options), f"{what}: kept {ids} above {q}, expected {options}")
    eq([int(p.str[1:]) for p in pt], ids, f"{what}: training programs")
    clip = np.clip(clean[ids], -1e6, 1e6)
    arr_eq(rr, clip, f"{what}: kept rewards")
    arr_eq(rt, clip, f"{what}: training rewards")
    arr_eq(np.sort(full), np.sort(np.clip(clean[good], -1e6, 1e6)), f"{what}: rewards of all valid candidates")
    for name, a, b in (("actions", act, A), ("observations", obs, O), ("constraints", prior, Q)):
        arr_eq(a, b[ids], f"{what}: {name} of the kept candidates")
    eq([bool(v) for v in onp], [P[k].originally_on_policy for k in ids], f"{what}: origin of the kept candidates")
    ctx.nontrivial(0 < len(ids) < n)
    ctx.label("invalid at the top", len(ids) < sum(clean >= q)); ctx.label("nan", np.isnan(r).any()); ctx.label("ties", len(set(clean.tolist())) < n)


# ---------------------------------------------------------------- whole searches
@st.composite
def searches(draw):
    s = draw(R.lib_specs(pde=False, consts=False, need=("add", "sin")))
    pool = draw(st.lists(st.lists(st.integers(0, 9999), min_size=1, max_size=9), min_size=draw(st.sampled_from([1, 5, 8])), max_size=8))
    iters = draw(st.lists(st.lists(st.integers(0, 7), min_size=1, max_size=6), min_size=draw(st.sampled_from([1, 3, 5])), max_size=7))
    B = max(len(i) for i in iters)
    return {"s": s, "pool": pool, "r": draw(st.one_of(st.lists(st.integers(0, 6).map(lambda k: 0.75 + k * 4e-5), min_size=8, max_size=8), st.lists(st.one_of(st.floats(0, 1, width=32), st.sampled_from([0.0, 0.5, 0.9, None, -0.25])), min_size=8, max_size=8),
                             st.permutations([0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8]))),
            "invalid": draw(st.lists(st.sampled_from([0, 0, 0, 1]), min_size=8, max_size=8)), "iters": [[i[k % len(i)] for k in range(B)] for i in iters],
            "eps": draw(st.sampled_from([0.1, 0.2, 0.5, 1.0])), "k": draw(st.sampled_from([1, 2, 5, 10])), "gp": draw(st.lists(st.lists(st.integers(0, 7), max_size=2), max_size=6)),
            "rounds": draw(st.sampled_from([1, 1, 2])), "keep": draw(st.booleans()), "stability": draw(st.sampled_from([0, 0, 0, 2, 5]))}


class Task:
    stochastic, task_type = False, "regression"

    def __init__(self, lib):
        self.library, self.table, self.calls = lib, {}, []

    def reward_function(self, p):
        r, inv = self.table[tuple(int(t) for t in p.tokens)]
        p.invalid = inv
        self.calls.append(p)
        return r, [1.0], None, None

    def evaluate(self, p):
        return {"nmse_test": 1 - np.nan_to_num(self.table[tuple(int(t) for t in p.tokens)][0]), "success": False}

    def stability_test(self, p):
        r = np.nan_to_num(self.table[tuple(int(t) for t in p.tokens)][0])
        k = len(p.tokens)
        return np.array([abs(1.5 - r), 1.0 + k % 3]), np.array([1.0 + k % 2, 2.0 - r])


@facet(searches(), quick=600, thorough=16000, shards=2)
def runs(case, ctx):
    """Whole searches with scripted samples: best expression and score, memory, and what the policy is trained on."""
    import torch
    from kd.model.discover.program import Program, from_tokens
    from kd.model.discover.searcher import Searcher
    c = case
    lib = R.library(c["s"])
    R.set_program(lib)
    task = Task(lib)
    Program.set_task(task)
    names = lib.names
    T = 12
    seqs = []
    for nums in c["pool"]:
        seqs.append(R.decode(nums, names, max_len=T))
    for k, sq in enumerate(seqs):
        inv = bool(c["invalid"][k])
        r = 0.0 if inv else (np.nan if c["r"][k] is None else c["r"][k])
        task.table.setdefault(tuple(sq), (r, inv))
    value = lambda sq: task.table[tuple(sq)]
    pad = lambda sq: sq + [0] * (T - len(sq))
    script = [[seqs[i % len(seqs)] for i in it] for it in c["iters"]]
    if not any(np.isfinite(value(q)[0]) for rows in script for q in rows):
        return                          # no candidate has a score: there is no best one
    log = []

    class Con:
        pqt_k, pqt_batch_size, max_length = c["k"], 2, T

        def sample_episodes(self, n):
            rows = script[self.t % len(script)]
            self.t += 1
            eq(n, len(rows), "requested batch size")
            A = torch.tensor([pad(r) for r in rows])
            g = np.random.RandomState(self.t)
            self.obs, self.pri = torch.tensor(g.rand(n, 4, T), dtype=torch.float32), torch.tensor(g.rand(n, T, lib.L), dtype=torch.float32)
            return A, self.obs, self.pri, torch.ones(n), torch.ones(n, dtype=torch.bool)

        def train_step(self, b, batch, pqt):
            log.append((b, batch, pqt))

    con = Con()
    con.t = 0
    extra = [[seqs[i % len(seqs)] for i in g] for g in c["gp"]]

    class Agg:
        num = 7

        def __call__(self, p_train, length):
            ex = extra[(con.t - 1) % len(extra)]
            ex = [e for e in ex if not value(e)[1] and value(e)[0] == value(e)[0]]
            return ([from_tokens(np.array(e, dtype=np.int64)) for e in ex], np.array([pad(e) for e in ex]).reshape(len(ex), T), np.zeros((len(ex), 4, T), dtype=np.float32),
                    np.zeros((len(ex), T, lib.L), dtype=np.float32))

    se = Searcher(con, {"n_iterations": len(script), "n_samples_per_batch": len(script[0]), "stability_selection": c["stability"], "epsilon": c["eps"]},
                  gp_aggregator=Agg() if extra else None)
    track = []
    step = se.search_one_step

    def wrapped(epoch=0, verbose=False):
        out = step(epoch=epoch, verbose=verbose)
        track.append((float(se.r_best), se.best_p, out, [i for i, _ in se.pq.iter_in_order()], [float(e.rewards) for _, e in se.pq.iter_in_order()]))
        return out
    se.search_one_step = wrapped

    best, entries, improved = None, {}, 0
    for rnd in range(c["rounds"]):
        if rnd and not c["keep"] and len(se.pq) > 0:
            best, entries = None, {}
        track.clear(); log.clear()
        con.t = 0
        with quiet():
            result = se.search(n_epochs=len(script), verbose=bool(rnd % 2), keep_history=c["keep"])
        eq(len(track), len(script), "number of iterations")
        done = 0
        for t, rows in enumerate(script):
            r = [float(np.nan_to_num(value(q)[0])) for q in rows]
            opts = [[k for k in range(len(rows)) if r[k] >= th and not value(rows[k])[1]] for th in threshold(r, c["eps"])]
            if len({tuple(o) for o in opts}) > 1:
                return
            keep = opts[0]
            rb, bp, out, pq, pqr = track[t]
            what = f"iteration {t} of {[[','.join(names[i] for i in q) for q in rs] for rs in script]} with rewards { {','.join(names[i] for i in k): v for k, v in task.table.items()} }"
            before = best
            seen = [float(v) for v, q in zip(r, rows) if not value(q)[1] and v > 0]
            if keep and seen:
                ex = [e for e in extra[t % len(extra)] if not value(e)[1] and value(e)[0] == value(e)[0]] if extra else []
                kept = [rows[k] for k in keep] + ex
                kr = [float(np.nan_to_num(value(q)[0])) for q in kept]
                best = max([best if best is not None else -np.inf] + seen + kr)
                # the policy sees exactly the kept candidates
                b, batch, pqt = log[done]
                done += 1
                eq([[int(v) for v in row] for row in batch.actions], [pad(q) for q in kept], f"{what}: sequences the policy is trained on")
                eq([float(v) for v in batch.rewards], kr, f"{what}: rewards the policy is trained on")
                eq([int(v) for v in batch.lengths], [len(q) for q in kept], f"{what}: lengths the policy is trained on")
                check(abs(float(b) - min(threshold(r, c["eps"]))) < 1e-12, f"{what}: baseline {b}, expected {threshold(r, c['eps'])}")
                for q, v in zip(kept, kr):
                    entries.setdefault(np.array(q, dtype=np.int64).tobytes(), v)
                eq(max(kr), float(out["r"]), f"{what}: best reward of the iteration as reported")
                eq(out["expression"], out["program"].str_expression, f"{what}: expression of the iteration")
                improved += before is not None and best > before
            elif best is None:
                continue
            check(rb == best, f"{what}: best score so far {rb}, expected {best}")
            if not (c["stability"] and rnd and c["keep"]):      # a continued search starts from the expression the stability vote selected
                check(float(np.nan_to_num(bp.r_ridge)) == best, f"{what}: best expression so far has score {bp.r_ridge}, expected {best}")
            if c["keep"] or rnd == 0:
                top = sorted(entries.values(), reverse=True)[:c["k"]]
                if len(script) * 2 * len(script[0]) <= 60 and not any(len(e) for e in extra):
                    check(sorted(pqr, reverse=True) == pqr and len(pqr) <= c["k"] and len(set(pq)) == len(pq), f"{what}: memory {pqr}")
                    eq(pqr, top, f"{what}: rewards in the memory")
        if best is None:
            return
        bp = result["program"]
        if not c["stability"]:
            check(float(result["r"]) == best and float(np.nan_to_num(bp.r_ridge)) == best, f"reported score {result['r']}, best of the run {best}")
        else:
            check([int(t) for t in bp.tokens] in [list(np.frombuffer(p, dtype=np.int64)) for p in track[-1][3]], "the expression selected for stability is not in the memory")
            check(float(result["r"]) == float(bp.r_ridge), f"reported score {result['r']} is not that of the reported expression {bp.r_ridge}")
        check(bp is se.best_p and result["expression"] == bp.str_expression and result["traversal"] == repr(bp), "reported expression, traversal and program belong together")
    eq(len(task.calls), len({id(p) for p in task.calls}), "rewards are computed once per expression")
    ctx.nontrivial(improved > 0)
    ctx.label("gp", bool(extra)); ctx.label("stability", c["stability"]); ctx.label("two rounds", c["rounds"] == 2)


# ---------------------------------------------------------------- summaries
@facet(st.fixed_dictionaries({"n": st.integers(1, 12), "d": st.integers(1, 3), "v": st.lists(st.integers(0, 4), min_size=36, max_size=36), "f": st.booleans()}), quick=800, thorough=20000, shards=1)
def pareto(case, ctx):
    """The non-dominated points, by definition."""
    from kd.model.discover.utils import is_pareto_efficient
    c = case
    C = np.array(c["v"][:c["n"] * c["d"]], dtype=float).reshape(c["n"], c["d"]) + (np.arange(c["n"])[:, None] % 3 * 0.25 if c["f"] else 0)
    Z = Frozen(costs=C)
    m = np.asarray(is_pareto_efficient(C))
    Z.verify("costs")
    eq([list(m.shape), str(m.dtype)], [[c["n"]], "bool"], "mask")
    dom = [any(np.all(C[j] <= C[i]) and np.any(C[j] < C[i]) for j in range(len(C))) for i in range(len(C))]
    for i in range(len(C)):
        check(not (m[i] and dom[i]), f"point {C[i]} of {C.tolist()} is dominated but selected")
        check(dom[i] or any(m[j] and np.array_equal(C[i], C[j]) for j in range(len(C))), f"point {C[i]} of {C.tolist()} is not dominated and neither it nor an equal point is selected")
    ctx.nontrivial(0 < m.sum() < len(C))


@facet(st.fixed_dictionaries({"v": st.lists(st.integers(-5, 5), min_size=1, max_size=12), "w": st.lists(st.integers(1, 9), min_size=12, max_size=12), "q": st.integers(0, 20), "even": st.booleans()}),
       quick=800, thorough=20000, shards=1)
def quantile(case, ctx):
    """The weighted quantile is that of the empirical distribution; the entropy is that of the frequencies."""
    from kd.model.discover.utils import empirical_entropy, weighted_quantile
    c = case
    v = np.array(c["v"], dtype=float)
    w = np.ones(len(v), dtype=int) if c["even"] else np.array(c["w"][:len(v)])
    q = Fraction(c["q"], 20)
    got = weighted_quantile(v, w / w.sum(), float(q))
    ok = set()
    for d in (-1, 0, 1):
        cum, s = Fraction(0), sorted(zip(v.tolist(), w.tolist()))
        ans = s[-1][0]
        for x, k in s:
            cum += Fraction(k, int(w.sum()))
            if cum >= q + d * Fraction(1, 10 ** 9):
                ans = x
                break
        ok.add(ans)
    check(got in ok, f"quantile {float(q)} of {v.tolist()} with weights {w.tolist()}: {got}, expected {ok}")
    n = len(v)
    ent = -sum(k / n * math.log(k / n) for k in [c["v"].count(x) for x in set(c["v"])])
    check(abs(empirical_entropy(np.array(c["v"])) - ent) < 1e-9, f"entropy of {c['v']}: {empirical_entropy(np.array(c['v']))}, expected {ent}")
    ctx.nontrivial(len(set(c["v"])) > 2 and 0 < q < 1)
