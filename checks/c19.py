"""C19: every configured structural constraint holds on sampled expressions."""
import triton._C.libtriton  # noqa: F401
import copy
import json
import os
import numpy as np
from hypothesis import strategies as st

from vlib import discref as R, gens as G
from vlib.core import check, eq, facet
from vlib.sgaref import quiet

TECHNIQUE = ("property-based testing: for random libraries, random sets of constraints and random partial sequences the set of forbidden tokens is compared "
             "with the set derived from the rules on an explicitly built partial tree (exact equality); random policies are sampled and every expression is "
             "checked against every rule post hoc; random walks under the shipped settings look for positions where everything is forbidden")
RULE = "non-trivial: some token is forbidden and some token is allowed (constraints); at least one sampled expression with five or more tokens (sampling)"
NOTE = ("a length constraint always forbids expressions of a single token (this is how the search space is documented upstream); no_inputs together with derivative "
        "rules contradicts itself (must contain u / must end in a coordinate) and is only switched on without derivatives")
FUN = ["add", "sub", "mul", "div", "sin", "cos", "tan", "exp", "log", "sqrt", "n2", "n3", "neg", "inv"]


@st.composite
def rule(draw, names, ar):
    kind = draw(st.sampled_from(["relational"] * 5 + ["length", "length", "repeat", "repeat", "inverse", "trig", "const", "no_inputs", "soft_length", "uniform_arity",
                                 "diff_left", "diff_left_strict", "diff_right", "diff_descedent", "diff_descedent2"]))
    some = lambda pool, k=4: draw(st.lists(st.sampled_from(pool), min_size=1, max_size=k, unique=True))
    a = {"on": True}
    if kind == "relational":
        rel = draw(st.sampled_from(["child", "descendant", "descendant", "sibling", "uchild", "lchild", "rchild"]))
        eff = names if rel == "sibling" else [n for n in names if ar(n) > 0]
        a.update(targets=some(names), effectors=some(eff), relationship=rel)
    elif kind == "length":
        a.update(min_=draw(st.sampled_from([None, 2, 3, 5, 8])), max_=draw(st.sampled_from([None, 8, 10, 15, 21, 30])))
        if a["min_"] is None and a["max_"] is None:
            a["max_"] = 12
    elif kind == "repeat":
        a.update(tokens=some(names, 3), min_=None, max_=draw(st.integers(0, 4)))
    elif kind == "soft_length":
        a.update(loc=draw(st.integers(1, 12)), scale=draw(st.integers(1, 6)))
    elif kind == "diff_descedent" and draw(st.booleans()):
        a.update(extra=some(names, 2))
    return kind, a


@st.composite
def settings(draw):
    s = draw(R.lib_specs(need=("add_t",), torch=True) if draw(st.integers(0, 3)) == 0 else R.lib_specs(need=("add",), params=True))
    names = R.names_of(s)
    rules = [draw(rule(names, R.arity)) for _ in range(draw(st.integers(1, 4)))]
    return s, rules


def config(rules):
    out = {}
    for k, a in rules:
        out.setdefault(k, []).append(dict(a))
    return out


def build(s, rules):
    from kd.model.discover.dso.prior import make_prior
    lib = R.library(s)
    R.set_program(lib, task_type="pde" if s["pde"] else "regression")
    cfg = config(rules)
    keep = copy.deepcopy(cfg)
    with quiet():
        p = make_prior(lib, cfg)
    eq(json.dumps(cfg), json.dumps(keep), "configuration of the constraints after building them")
    return lib, p


class Rules:
    """Reference meaning of the settings."""

    def __init__(self, s, rules):
        self.names, self.s = R.names_of(s), s
        self.L = len(self.names)
        self.ar = [R.arity(n) for n in self.names]
        self.rules = []
        for k, a in rules:
            self.rules += self.translate(k, a)
        self.max = min([r[2] for r in self.rules if r[0] == "length" and r[2]], default=None)
        self.min = max([r[1] for r in self.rules if r[0] == "length" and r[1]], default=None)

    def ix(self, names):
        return {self.names.index(n) for n in ([names] if isinstance(names, str) else names)}

    def translate(self, k, a):
        N, ar = self.names, self.ar
        xs = {i for i, n in enumerate(N) if n[0] == "x" and n[1:].isdigit()}
        us = {i for i, n in enumerate(N) if n[0] == "u" and n[1:].isdigit()}
        term = {i for i in range(self.L) if ar[i] == 0}
        const = self.ix(["const"]) if "const" in N else set()
        diffs = {i for i, n in enumerate(N) if "diff" in n.lower()}
        rel = lambda kind, t, e: [(kind, frozenset(t), frozenset(e))] if t and e else []
        if k == "relational":
            return rel(a["relationship"], self.ix(a["targets"]), self.ix(a["effectors"]))
        if k == "length":
            return [("length", a["min_"], a["max_"])]
        if k == "repeat":
            return [("repeat", frozenset(self.ix(a["tokens"])), a["max_"])]
        if k == "inverse":
            pairs = {"inv": "inv", "neg": "neg", "exp": "log", "log": "exp", "sqrt": "n2", "n2": "sqrt"}
            return [r for x, y in pairs.items() if x in N and y in N for r in rel("child", self.ix([x]), self.ix([y]))]
        if k == "trig":
            t = {i for i, n in enumerate(N) if n in ("sin", "cos", "tan")} | diffs
            return rel("descendant", t, t)
        if k == "const":
            return rel("uchild", const, {i for i in range(self.L) if ar[i]})
        if k == "no_inputs":
            return [("variable", frozenset(us or xs), frozenset(term - (us or xs)))] if term - (us or xs) else []
        if k == "diff_left":
            return rel("lchild", const | (xs or us), diffs)
        if k == "diff_left_strict":
            return rel("lchild", set(range(self.L)) - diffs - us, diffs)
        if k == "diff_right":
            return rel("rchild", set(range(self.L)) - (xs or us), diffs)
        if k == "diff_descedent":
            return rel("descendant", {i for i, n in enumerate(N) if R.base(n) in ("add", "sub")} | const | self.ix(a.get("extra", [])), diffs)
        if k == "diff_descedent2":
            return rel("descendant", {i for i, n in enumerate(N) if R.base(n) in ("n2", "n3", "n4", "mul", "div", "exp", "log", "sin", "cos")} | const, diffs)
        return []

    def forbidden(self, seq, P):
        """Tokens that some rule forbids after the (incomplete) sequence."""
        out, ar = set(), self.ar
        par, sib, anc = P.parent, P.sibling, P.ancestors
        for r in self.rules:
            k = r[0]
            if k == "child" and par in r[2]:
                out |= r[1]
            elif k == "descendant" and anc & r[2]:
                out |= r[1]
            elif k == "sibling":
                out |= r[1] if sib in r[2] else set()
                out |= r[2] if sib in r[1] else set()
            elif k == "uchild" and par in r[2] and (ar[par] == 1 or sib in r[1]):
                out |= r[1]
            elif k == "lchild" and par in r[2] and sib is None:
                out |= r[1]
            elif k == "rchild" and par in r[2] and sib is not None:
                out |= r[1]
            elif k == "repeat" and sum(t in r[1] for t in seq) >= r[2]:
                out |= r[1]
            elif k == "variable" and P.dangling == 1 and not any(t in r[1] for t in seq):
                out |= r[2]
            elif k == "length":
                for t in range(self.L):
                    least = len(seq) + 1 + P.dangling - 1 + ar[t]
                    if r[2] is not None and least > r[2]:
                        out.add(t)
                    if r[1] is not None and P.dangling == 1 and ar[t] == 0 and len(seq) + 1 < r[1]:
                        out.add(t)
        return out

    def violations(self, seq):
        """Rules that a complete sequence breaks (positions and tokens)."""
        out = []
        for i, t in enumerate(seq):
            P = R.Partial(seq[:i], self.ar)
            if i == 0:
                if any(r[0] == "length" for r in self.rules) and self.ar[t] == 0:
                    out.append((0, self.names[t], "length"))
                if any(r[0] == "repeat" and r[2] == 0 and t in r[1] for r in self.rules):
                    out.append((0, self.names[t], "repeat"))
                continue
            if t in self.forbidden(seq[:i], P):
                out.append((i, self.names[t]))
        if self.max is not None and len(seq) > self.max:
            out.append((len(seq), "too long"))
        if self.min is not None and len(seq) < self.min:
            out.append((len(seq), "too short"))
        return out


def prefixes(nums, names, ar, T, typed, nmax=None):
    """An incomplete prefix of exactly T tokens, or None."""
    toks = R.decode(nums, names, max_len=max(2 * T, 12), typed=typed)
    if len(toks) <= T:
        binary = [i for i, n in enumerate(names) if ar[i] == 2 and n not in R.DIFFS]
        toks = [binary[k % len(binary)] for k in nums[:T + 1 - len(toks)]] + [binary[0]] * max(0, T + 1 - len(toks) - len(nums)) + toks
    return toks[:T]


@st.composite
def partials(draw):
    s, rules = draw(settings())
    return {"s": s, "rules": rules, "T": draw(st.integers(1, 9)), "rows": draw(st.lists(st.lists(st.integers(0, 9999), min_size=1, max_size=14), min_size=1, max_size=5)),
            "typed": draw(st.booleans())}


def observe(lib, A):
    from kd.model.discover.dso.subroutines import parents_siblings
    return parents_siblings(A, arities=lib.arities, parent_adjust=lib.parent_adjust, empty_parent=lib.EMPTY_PARENT, empty_sibling=lib.EMPTY_SIBLING)


@facet(partials(), quick=700, thorough=20000, shards=2)
def constraints(case, ctx):
    """After any partial sequence exactly the tokens some rule forbids are forbidden."""
    c = case
    lib, prior = build(c["s"], [tuple(r) for r in c["rules"]])
    ref = Rules(c["s"], c["rules"])
    names, ar, T = ref.names, ref.ar, c["T"]
    rows = [prefixes(n, names, ar, T, c["typed"]) for n in c["rows"]]
    A = np.array(rows, dtype=np.int32)
    Ps = [R.Partial(r, ar) for r in rows]
    if any(P.dangling < 1 for P in Ps):
        return
    if ref.max is not None and any(T + P.dangling > ref.max for P in Ps):
        ctx.label("beyond the maximum length")
        return
    parent, sibling = observe(lib, A)
    with quiet():
        got = prior(A, parent, sibling, np.array([P.dangling for P in Ps]))
    eq(list(got.shape), [len(rows), lib.L], "shape of the constraints")
    n = 0
    for r, P, g in zip(rows, Ps, got):
        want = ref.forbidden(r, P)
        bad = {i for i in range(lib.L) if np.isneginf(g[i])}
        what = f"after {','.join(names[t] for t in r)} with {c['rules']}"
        check(bad == want, f"{what}: forbids {sorted(names[i] for i in bad)}, the rules forbid {sorted(names[i] for i in want)}")
        check(np.all(np.isfinite(g[sorted(set(range(lib.L)) - bad)])), f"{what}: logit adjustments {g}")
        n += 0 < len(bad) < lib.L
    init = prior.initial_prior()
    length = any(r[0] == "length" for r in ref.rules)
    for i in range(lib.L):
        want0 = (length and ar[i] == 0) or any(r[0] == "repeat" and r[2] == 0 and i in r[1] for r in ref.rules)
        check(np.isneginf(init[i]) == want0, f"{names[i]} as first token with {c['rules']}: adjustment {init[i]}")
    ctx.nontrivial(n > 0)
    for k, *_ in ref.rules:
        ctx.label(k)
    # the retrospective form gives the same at every step
    if T >= 2 and all(P.first_complete is None for P in Ps) and prior.priors:
        from kd.model.discover.dso.subroutines import jit_parents_siblings_at_once
        par, sib = jit_parents_siblings_at_once(A, lib.arities, lib.parent_adjust)
        with quiet():
            once = prior.at_once(A, par, sib)
        for t in range(1, T):
            D = [R.Partial(r[:t], ar) for r in rows]
            step = prior(A[:, :t], *observe(lib, A[:, :t]), np.array([d.dangling for d in D]))
            check(np.allclose(once[:, t], step, equal_nan=True), f"retrospective constraints at position {t} of {[[names[i] for i in r] for r in rows]} differ from the stepwise ones")
        check(np.array_equal(once[:, 0], np.tile(init, (len(rows), 1))), "retrospective constraints at the first position")


@st.composite
def wholes(draw):
    s, rules = draw(settings())
    keep = [r for r in rules if r[0] not in ("soft_length", "uniform_arity")]
    return {"s": s, "rules": keep or [("trig", {"on": True})], "nums": draw(st.lists(st.integers(0, 9999), min_size=2, max_size=14)), "typed": draw(st.booleans())}


@facet(wholes(), quick=500, thorough=14000, shards=1)
def violated(case, ctx):
    """The post-hoc test of a complete sequence agrees with the rules."""
    c = case
    rules = [r for r in c["rules"] if not (r[0] == "relational" and r[1]["relationship"] in ("lchild", "rchild")) and not r[0].startswith(("diff_left", "diff_right"))]
    lib, prior = build(c["s"], [tuple(r) for r in rules])
    ref = Rules(c["s"], rules)
    toks = R.decode(c["nums"], ref.names, max_len=20, typed=c["typed"])
    if len(toks) < 2 or not prior.priors:
        return
    from kd.model.discover.dso.subroutines import jit_parents_siblings_at_once
    A = np.array([toks], dtype=np.int32)
    par, sib = jit_parents_siblings_at_once(A, lib.arities, lib.parent_adjust)
    with quiet():
        got = prior.is_violated(A, par, sib)
    want = bool(ref.violations(toks))
    # a single-token expression is the only one the first position can break; a length limit is judged on the whole
    check(bool(got) == want, f"{','.join(ref.names[t] for t in toks)} with {rules}: reported {'violated' if got else 'fine'}, rules broken: {ref.violations(toks)}")
    ctx.nontrivial(want)
    ctx.label("violated", want); ctx.label("fine", not want)


@st.composite
def policies(draw, shipped=False):
    torch = draw(st.integers(0, 3)) == 0
    s = draw(R.lib_specs(need=("add_t",), torch=True)) if torch else draw(R.lib_specs(need=("add",) if draw(st.booleans()) else ("add", "mul")))
    if s["pde"] and not torch and not any(n in R.DIFFS for n in s["functions"]):
        s["functions"] = s["functions"] + [R.diffs_of(s["dim"])[0]]
    which = draw(st.sampled_from(["config_pde.json", "config_regression.json"] if not s["pde"] else ["config_pde_pinn.json" if torch else "config_pde.json"]))
    return {"s": s, "config": which, "max": draw(st.sampled_from([None, None, 5, 6, 7, 10, 15])), "seed": draw(G.seeds), "n": draw(st.integers(2, 24)),
            "off": draw(st.lists(st.sampled_from(["repeat", "inverse", "trig", "soft_length", "diff_left", "diff_right", "diff_descedent"]), max_size=2, unique=True)),
            # no_inputs ("contains u") and diff_right ("the last slot is a coordinate") contradict each other, so it is only switched on without derivatives
            "on": draw(st.lists(st.sampled_from(["const", "uniform_arity"] + ([] if s["pde"] else ["no_inputs"])), max_size=1)),
            "cell": draw(st.sampled_from(["lstm", "lstm", "gru"])), "layers": draw(st.sampled_from([1, 1, 2])), "init": draw(st.sampled_from(["zeros", "var_scale"])),
            "scale": draw(st.sampled_from([0.0, 1.0, 3.0])),
            "observe": draw(st.sampled_from(["", "a", "d", "ad"])), "embedding": draw(st.booleans()), "optimizer": draw(st.sampled_from(["adam", "sgd", "rmsprop"])),
            "greedy": draw(st.sampled_from(["any", "any", "long", "short"]))}


def shipped(c):
    """The constraint settings shipped with the package, with the generated changes."""
    import kd.model.kd_discover as kd
    path = os.path.join(os.path.dirname(kd.__file__), "discover", "config", c["config"])
    with open(path, encoding="utf-8") as f:
        cfg = kd.json.load(f)["prior"]
    for k in c["off"]:
        cfg[k]["on"] = False
    for k in c["on"]:
        cfg[k]["on"] = True
    if c["max"]:
        cfg["length"]["max_"] = c["max"]
    if not {"add", "add_t"} & set(R.names_of(c["s"])):
        cfg["repeat"]["on"] = False
    rules = [(k, a) for k, a in cfg.items() if isinstance(a, dict) and a.get("on")]
    return cfg, rules


@facet(policies(), quick=60, thorough=2500, shards=2)
def sampling(case, ctx):
    """Expressions drawn from a policy network: complete, within the length limit, no rule broken, recorded state exact."""
    import torch
    from kd.model.discover.controller import Controller
    from kd.model.discover.dso.prior import make_prior
    from kd.model.discover.program import from_tokens
    from kd.model.discover.state_manager import make_state_manager
    from kd.model.discover.task.pde.pde import PDETask
    c = case
    lib = R.library(c["s"])
    task = PDETask.__new__(PDETask)
    task.library, task.stochastic, task.task_type = lib, False, "pde" if c["s"]["pde"] else "regression"
    R.set_program(lib)
    from kd.model.discover.program import Program
    Program.set_task(task)
    cfg, rules = shipped(c)
    ref = Rules(c["s"], rules)
    torch.manual_seed(c["seed"] % 2 ** 31)
    np.random.seed(c["seed"] % 2 ** 31)
    keep = copy.deepcopy(cfg)
    with quiet():
        prior = make_prior(lib, cfg)
        eq(json.dumps(cfg), json.dumps(keep), "configuration of the constraints after building them")
        sm = make_state_manager({"type": "hierarchical", "observe_action": "a" in c["observe"], "observe_dangling": "d" in c["observe"], "embedding": c["embedding"],
                                 "embedding_size": 3})
        con = Controller(prior, sm, cell=c["cell"], num_layers=c["layers"], num_units=5, initializer=c["init"], optimizer=c["optimizer"], max_length=c["max"] or 64)
        with torch.no_grad():
            for p in con.cell.parameters():
                p.add_(torch.randn_like(p) * c["scale"])
            bias = con.cell.fc.bias
            a = torch.tensor(lib.arities, dtype=torch.float32)
            bias.add_({"any": 0.0, "long": 6.0, "short": -6.0}[c["greedy"]] * (a - 1))
        actions, obs, priors, lengths, finished = con.sample_episodes(c["n"])
    what = f"{c['config']} off={c['off']} on={c['on']} max={c['max']}"
    T = con.max_length
    eq([list(actions.shape), list(obs.shape), list(priors.shape)], [[c["n"], T], [c["n"], 4, T], [c["n"], T, lib.L]], f"{what}: shapes of the sampled batch")
    A, O, Q = actions.numpy(), obs.detach().numpy(), priors.numpy()
    longest = 0
    for b in range(c["n"]):
        seq = [int(t) for t in A[b]]
        k, _ = R.complete_length(seq, ref.ar)
        check(k is not None, f"{what}: sampled sequence {','.join(ref.names[t] for t in seq)} is not complete within {T}")
        expr = seq[:k]
        text = ",".join(ref.names[t] for t in expr)
        bad = ref.violations(expr)
        check(not bad, f"{what}: sampled {text} breaks {bad}")
        p = from_tokens(A[b].astype(np.int32))
        eq([t.name for t in p.traversal], [ref.names[t] for t in expr], f"{what}: program of the sampled tokens {seq[:k + 2]}")
        longest = max(longest, k)
        check(np.all(np.isfinite(Q[b, np.arange(k), expr])), f"{what}: {text} was sampled although a constraint forbids a token")
        for t in range(k):
            P = R.Partial(expr[:t], ref.ar)
            want = [lib.EMPTY_ACTION if t == 0 else expr[t - 1], lib.EMPTY_PARENT if P.parent is None else int(lib.parent_adjust[P.parent]),
                    lib.EMPTY_SIBLING if P.sibling is None else P.sibling, P.dangling]
            eq([int(v) for v in O[b, :, t]], [int(v) for v in want], f"{what}: recorded action/parent/sibling/open slots at position {t} of {text}")
    ctx.nontrivial(longest >= 5)
    ctx.label(c["config"]); ctx.label("max length reached", longest == T); ctx.label(f"observe {c['observe']}"); ctx.label(f"{c['cell']} {c['layers']}")


@st.composite
def walks(draw):
    c = draw(policies())
    c["walk"] = draw(st.lists(st.integers(0, 9999), min_size=4, max_size=60))
    c["bias"] = draw(st.sampled_from(["any", "binary", "terminal"]))
    return c


@facet(walks(), quick=300, thorough=9000, shards=2)
def dead_ends(case, ctx):
    """Under the shipped settings there is always an allowed token, and the expression completes within the maximum length."""
    from kd.model.discover.dso.prior import make_prior
    c = case
    lib = R.library(c["s"])
    R.set_program(lib, task_type="pde" if c["s"]["pde"] else "regression")
    cfg, rules = shipped(c)
    if c["max"] is not None and c["max"] < 6:
        return
    with quiet():
        prior = make_prior(lib, cfg)
    names, ar = lib.names, [R.arity(n) for n in lib.names]
    seq, limit = [], cfg["length"]["max_"]
    g = prior.initial_prior()
    while True:
        free = [i for i in range(lib.L) if np.isfinite(g[i])]
        check(free, f"{c['config']} off={c['off']} on={c['on']} max={c['max']}: after {','.join(names[t] for t in seq)} every token of {names} is forbidden", sig="dead end")
        pool = [i for i in free if ar[i] == 2] if c["bias"] == "binary" else [i for i in free if ar[i] == 0] if c["bias"] == "terminal" else free
        pool = pool or free
        seq.append(pool[c["walk"][len(seq) % len(c["walk"])] % len(pool)])
        P = R.Partial(seq, ar)
        if P.dangling == 0:
            break
        check(len(seq) < limit, f"after {len(seq)} tokens the expression is still incomplete (limit {limit})")
        A = np.array([seq], dtype=np.int32)
        g = prior(A, *observe(lib, A), np.array([P.dangling]))[0]
    check(len(seq) <= limit, f"{len(seq)} tokens, limit {limit}")
    ctx.nontrivial(len(seq) >= 5)
    ctx.label("at the limit", len(seq) == limit); ctx.label("pde", c["s"]["pde"])
