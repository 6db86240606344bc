"""C11: the tree-based genetic search keeps its best candidate and is reproducible."""
import triton._C.libtriton  # noqa: F401
import copy
import random

import numpy as np
from hypothesis import strategies as st

from kd.model.kd_sga import KD_SGA
from kd.model.sga.sgapde.pde import evaluate_mse
from kd.model.sga.sgapde.solver import SGA
from vlib import gens as G, sgaref as R
from vlib.core import Frozen, Skip, arr_eq, check, close, eq, facet

TECHNIQUE = ("stateful property-based testing: random populations and sequences of crossover and change steps with random rates, with the "
             "population compared after each step with the reference rule 'the lowest scores among the old members and everything "
             "evaluated since', every stored score re-evaluated, and whole fits repeated with equal seeds")
RULE = "non-trivial: at least two individuals and a step that evaluated at least one new candidate"

probs = st.sampled_from([0.0, 0.2, 0.5, 0.8, 1.0])


@st.composite
def cases(draw):
    s = draw(R.problem(max_axes=3, max_n=6))
    s["kind"] = draw(st.sampled_from(["smooth", "smooth", "normal"]))
    ops = st.one_of(st.tuples(st.just("cross"), probs), st.tuples(st.just("change"), probs, probs), st.tuples(st.just("run"), st.just(1))).map(list)
    return {"p": s, "seed": draw(G.seeds), "num": draw(st.integers(1, 8)), "depth": draw(st.integers(2, 4)), "width": draw(st.integers(1, 4)),
            "pvar": draw(st.sampled_from([0.3, 0.5, 0.8])), "ops": draw(st.lists(ops, min_size=1, max_size=5))}


def rescore(p, c):
    q = copy.deepcopy(p)
    with R.quiet(), np.errstate(all="ignore"):
        return evaluate_mse(q, c)[0]


def same(a, b):
    return a == b or (np.isnan(a) and np.isnan(b))


def population_ok(g, c, num, what):
    eq(len(g.eqs), num, f"{what}: population size")
    eq(len(g.mses), num, f"{what}: number of scores")
    check(all(not (a > b) for a, b in zip(g.mses, g.mses[1:])), f"{what}: population not ordered by score: {g.mses}")
    for p, m in zip(g.eqs, g.mses):
        r = rescore(p, c)
        check(same(r, m), lambda: f"{what}: stored score {m} of {p.visualize()} but evaluating it gives {r}")
    b, s = g.the_best()
    check(same(s, min(g.mses)), f"{what}: best score {s}, lowest is {min(g.mses)}")
    check(same(rescore(b, c), s), f"{what}: best candidate does not have the best score")


@facet(cases(), quick=80, thorough=2000, shards=8, case_s=60)
def generations(case, ctx):
    c = R.make_context(case["p"])
    np.random.seed(case["seed"]); random.seed(case["seed"])
    num = case["num"]
    with R.quiet(), np.errstate(all="ignore"):
        g = SGA(c, num, case["depth"], case["width"], case["pvar"], 0.4, 0.4, 0.6, [], [])
    population_ok(g, c, num, "initial population")
    for op in case["ops"]:
        old, n0 = list(g.mses), len(g.err_lib)
        with R.quiet(), np.errstate(all="ignore"):
            if op[0] == "cross":
                g.cross_over(op[1])
            elif op[0] == "change":
                g.change(op[1], op[2])
            else:
                best = g.run(op[1])
        population_ok(g, c, num, f"after {op}")
        check(not (min(g.mses) > min(old)), f"after {op}: best score went from {min(old)} to {min(g.mses)}")
        new = [float(e) for e, _ in g.err_lib[n0:]]
        if op[0] == "run":
            check(same(best[1], g.mses[0]) and same(rescore(best[0], c), best[1]), f"returned best {best[1]}, population {g.mses}")
            check(not (g.mses[-1] > max(old)), "the worst member got worse")
        elif not any(np.isnan(old + new)):
            eq([float(x) for x in g.mses], sorted([float(x) for x in old] + new)[:num], f"after {op}: scores kept")
        ctx.nontrivial(num >= 2 and bool(new)); ctx.label(op[0])


@st.composite
def fits(draw):
    s = draw(R.problem(max_axes=3, max_n=6))
    s["kind"] = "smooth"
    return {"p": s, "seed": draw(st.integers(0, 1000)), "num": draw(st.integers(2, 12)), "depth": draw(st.integers(2, 4)),
            "width": draw(st.integers(1, 4)), "gens": draw(st.sampled_from([0, 1, 2, 2, 3, 4])), "noise": [draw(G.seeds), draw(G.seeds)],
            "p_mute": draw(probs), "p_cro": draw(probs)}


def fit(case, gens, noise):
    np.random.seed(noise % 2**31); random.seed(noise)
    m = KD_SGA(sga_run=gens, num=case["num"], depth=case["depth"], width=case["width"], seed=case["seed"], p_mute=case["p_mute"], p_cro=case["p_cro"])
    with R.quiet(), np.errstate(all="ignore"):
        m.fit_dataset(R.make_dataset(case["p"]))
    return m


def top_terms(s):
    """Terms of a printed candidate, '+'-joined at depth 0."""
    out, d, cur = [], 0, ""
    for ch in s:
        d += (ch == "(") - (ch == ")")
        if ch == "+" and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


@facet(fits(), quick=160, thorough=1600, shards=8, case_s=90)
def reproducible_fits(case, ctx):
    a = fit(case, case["gens"], case["noise"][0])
    b = fit(case, case["gens"], case["noise"][1])
    eq(b.best_pde_, a.best_pde_, "equation of a second fit with the same seed")
    check(same(a.best_score_, b.best_score_), f"score of a second fit with the same seed: {a.best_score_}, {b.best_score_}")
    da, db = a.best_equation_details_, b.best_equation_details_
    if da is not None or db is not None:
        eq([(t.label, t.coefficient) for t in db.terms], [(t.label, t.coefficient) for t in da.terms], "terms of a second fit")
    # one more generation continues the same run, so it can only improve
    d = fit(case, case["gens"] + 1, case["noise"][1])
    check(not (d.best_score_ > a.best_score_), f"score {a.best_score_} after {case['gens']} generations, {d.best_score_} after one more")
    # the returned score is the score of the returned equation
    c = R.make_context(case["p"])
    terms = [R.parse_infix(t) for t in top_terms(a.best_pde_)]
    ref = R.Ref(case["p"])
    for e in terms:
        check(R.problems(e, ref) is None, f"returned equation has an illegal term {R.infix(e)}")
    with R.quiet(), np.errstate(all="ignore"):
        s = evaluate_mse(R.candidate(c, terms), c)[0]
    check(same(s, a.best_score_) or abs(s - a.best_score_) <= 1e-6 * (1 + abs(s)), f"score of {a.best_pde_} is {s}, reported {a.best_score_}")
    ctx.nontrivial(case["gens"] > 0)


@facet(st.tuples(R.problem(legacy=True), st.sampled_from(["steady", "tiny", "one"]), st.integers(1, 4)).map(list), quick=12, thorough=100, shards=4, case_s=60)
def degenerate_data(case, ctx):
    """Data every candidate fits (steady or tiny fields) are searched and returned, not redrawn for ever."""
    s, kind, num = case
    c, f, p = R.arrays(dict(s, kind="smooth"))
    u = f["u"]
    if kind == "steady":
        u = np.repeat(u[:, :1], u.shape[1], axis=1)
    elif kind == "one":
        u = np.ones_like(u)
    else:
        u = u * 1e-14
    from kd.dataset import PDEDataset
    m = KD_SGA(sga_run=1, num=num, depth=3, width=2, seed=s["seed"] % 1000)
    with R.quiet(), np.errstate(all="ignore"):
        m.fit_dataset(PDEDataset("made_up", x=c["x"], t=c["t"], usol=u))
    check(m.best_score_ < 0, f"score {m.best_score_} of a perfect fit")
    ctx.nontrivial(True); ctx.label(kind)
