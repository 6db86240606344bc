"""C08: candidate terms of the tree-based genetic search stay well-formed."""
import triton._C.libtriton  # noqa: F401
import collections
import copy
import random

import numpy as np
from hypothesis import strategies as st

from kd.model.sga.sgapde.pde import PDE
from kd.model.sga.sgapde.solver import SGA
from kd.model.sga.sgapde.tree import Tree
from vlib import gens as G, sgaref as R
from vlib.core import Frozen, Skip, check, eq, facet

TECHNIQUE = ("stateful property-based testing: random problems (axis sets, fields, parameters) and random sequences of generation, "
             "mutation, replacement and crossover; after every step each tree is walked through its links and checked against an "
             "independent grammar, and its prefix and infix strings are parsed back")
RULE = "non-trivial: the history changed at least one term and some term has depth 3 or more"

probs = st.sampled_from([0.0, 0.05, 0.3, 0.5, 0.8, 1.0])


def well_formed(t, ref, maxd, what):
    try:
        e = R.expr(t)
    except (IndexError, TypeError) as ex:
        raise_bad(f"{what}: the links of {t.preorder!r} do not form a tree ({type(ex).__name__}: {ex})")
    p = R.problems(e, ref)
    check(p is None, lambda: f"{what}: {t.inorder!r} is not a legal term: {p}")
    check(R.depth_of(e) <= maxd, lambda: f"{what}: {t.inorder!r} has depth {R.depth_of(e)} > {maxd}")
    eq(t.preorder.split(), R.prefix(e), f"{what}: prefix form")
    try:
        back = R.parse_infix(t.inorder)
    except (ValueError, IndexError) as ex:
        raise_bad(f"{what}: infix form {t.inorder!r} cannot be read ({ex})")
    eq(back, e, f"{what}: infix form {t.inorder!r}")
    eq(R.parse_prefix(t.preorder.split(), R.ARITY), e, f"{what}: prefix form {t.preorder!r}")

    # the values carried by the leaves are those of the variables they name, and every node is reachable once
    seen = collections.Counter()

    def walk(d, i):
        seen[(d, i)] += 1
        n = t.tree[d][i]
        if n.child_num == 0:
            v = ref.leaves.get(n.name, ref.grid.get(n.name))
            check(np.shape(n.var) == ref.shape and np.allclose(n.var, v, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(v)))),
                  lambda: f"{what}: leaf {n.name} of {t.inorder!r} carries other values than the variable")
        for k in range(n.child_num):
            walk(d + 1, n.child_st + k)
    walk(0, 0)
    check(max(seen.values()) == 1, lambda: f"{what}: a node of {t.preorder!r} has two parents")
    eq(len(seen), sum(len(x) for x in t.tree), f"{what}: number of nodes of {t.preorder!r}")
    return e


def raise_bad(msg):
    check(False, msg)


@st.composite
def tree_cases(draw):
    s = draw(R.problem(max_axes=4, max_n=5))
    return {"p": s, "seed": draw(G.seeds), "depth": draw(st.integers(2, 6)), "pvar": draw(probs),
            "muts": draw(st.lists(probs, max_size=6)), "n": draw(st.integers(1, 4))}


@facet(tree_cases(), quick=160, thorough=4000, shards=4, case_s=30)
def tree_histories(case, ctx):
    ref = R.Ref(case["p"])
    c = R.make_context(case["p"])
    np.random.seed(case["seed"])
    for _ in range(case["n"]):
        t = Tree(c, case["depth"], case["pvar"])
        e = well_formed(t, ref, case["depth"], "random generation")
        for q in case["muts"]:
            t2 = copy.deepcopy(t)
            t2.mutate(c, q)
            e2 = well_formed(t2, ref, case["depth"], f"mutation({q})")
            eq(R.expr(t), e, "the original of a mutated copy")
            if q == 0:
                eq(e2, e, "mutation with probability 0")
            ctx.nontrivial(e2 != e and R.depth_of(e) >= 3)
            t, e = t2, e2
        ctx.label(f"depth{R.depth_of(e)}")
        ctx.label("derivative", "d" in R.prefix(e) or "d^2" in R.prefix(e))


@st.composite
def pde_cases(draw):
    s = draw(R.problem(max_axes=3, max_n=5))
    ops = st.one_of(st.tuples(st.just("mutate"), probs), st.tuples(st.just("replace"), st.just(0)),
                    st.tuples(st.just("evaluate"), st.just(0))).map(list)
    return {"p": s, "seed": draw(G.seeds), "depth": draw(st.integers(2, 5)), "width": draw(st.integers(1, 5)),
            "pvar": draw(probs), "ops": draw(st.lists(ops, min_size=1, max_size=8))}


def pde_ok(p, ref, depth, what):
    eq(p.W, len(p.elements), f"{what}: recorded width")
    es = [well_formed(t, ref, depth, what) for t in p.elements]
    eq(p.visualize(), "+".join(t.inorder for t in p.elements), f"{what}: printed candidate")
    return es


@facet(pde_cases(), quick=120, thorough=3000, shards=4, case_s=30)
def candidate_histories(case, ctx):
    from kd.model.sga.sgapde.pde import evaluate_mse
    ref = R.Ref(case["p"])
    c = R.make_context(case["p"])
    np.random.seed(case["seed"])
    p = PDE(c, case["depth"], case["width"], case["pvar"])
    es = pde_ok(p, ref, case["depth"], "random candidate")
    check(1 <= len(es) <= case["width"], f"candidate width {len(es)} outside 1..{case['width']}")
    for op, q in case["ops"]:
        before = list(es)
        if op == "mutate":
            p.mutate(q)
            es = pde_ok(p, ref, case["depth"], f"after mutate({q})")
            eq(len(es), len(before), "number of terms after mutation")
            for a, b in zip(before, es):
                eq(b[0], a[0], "root operator after mutation")
        elif op == "replace":
            if not p.elements:
                break
            p.replace()
            es = pde_ok(p, ref, case["depth"], "after replacement")
            eq(len(es), len(before), "number of terms after replacement")
            check(sum(a != b for a, b in zip(before, es)) <= 1, "replacement changed more than one term")
        else:
            try:
                with R.quiet(), np.errstate(all="ignore"):
                    evaluate_mse(p, c)
            except np.linalg.LinAlgError:
                raise Skip()  # degenerate columns: decided under C09/C10
            es = pde_ok(p, ref, case["depth"], "after evaluation")
            it = iter(before)
            check(all(any(x == e for x in it) for e in es), "evaluation left terms that are not a sub-list of the candidate's")
        ctx.nontrivial(es != before and any(R.depth_of(e) >= 3 for e in es))
        ctx.label(op)


@st.composite
def ga_cases(draw):
    s = draw(R.problem(max_axes=3, max_n=5))
    s["kind"] = "smooth"
    ops = st.one_of(st.tuples(st.just("cross"), probs), st.tuples(st.just("change"), probs, probs)).map(list)
    return {"p": s, "seed": draw(G.seeds), "num": draw(st.integers(1, 6)), "depth": draw(st.integers(2, 4)), "width": draw(st.integers(1, 4)),
            "pvar": draw(st.sampled_from([0.3, 0.5, 0.8])), "ops": draw(st.lists(ops, min_size=1, max_size=4))}


@facet(ga_cases(), quick=60, thorough=1500, shards=6, case_s=60)
def population_histories(case, ctx):
    """Crossover only exchanges whole terms; every member of the population stays well-formed."""
    ref = R.Ref(case["p"])
    arr = R.arrays(case["p"])
    c = R.make_context(case["p"])
    fr = Frozen(ut=c.ut, terms=c.default_terms, **{f"leaf_{k}": v for k, v in {r[0]: r[2] for r in c.VARS}.items()})
    np.random.seed(case["seed"]); random.seed(case["seed"])
    with R.quiet(), np.errstate(all="ignore"):
        sga = SGA(c, case["num"], case["depth"], case["width"], case["pvar"], 0.3, 0.3, 0.5, [], [])
        pool = {str(e) for p in sga.eqs for e in pde_ok(p, ref, case["depth"], "initial population")}
        for op in case["ops"]:
            if op[0] == "cross":
                parents = [[str(R.expr(t)) for t in p.elements] for p in sga.eqs]
                sga.cross_over(op[1])
            else:
                sga.change(op[1], op[2])
            new = set()
            for p in sga.eqs:
                es = pde_ok(p, ref, case["depth"], f"after {op}")
                new |= {str(e) for e in es}
                check(1 <= len(es) <= case["width"], f"candidate with {len(es)} terms, width limit {case['width']}")
                if op[0] == "cross":
                    check(all(str(e) in pool for e in es), lambda: f"crossover made a term none of the parents has: {p.visualize()}")
                    # at most one term of a child comes from its second parent
                    check(any(within_one(q, [str(e) for e in es]) for q in parents),
                          lambda: f"{p.visualize()} is not a parent with at most one exchanged term")
            ctx.nontrivial(bool(new - pool) or op[0] == "cross" and case["num"] > 1)
            ctx.label(op[0])
            pool = new
    fr.verify("population history (problem data)")


def within_one(parent, child):
    """child = parent with at most one term exchanged, possibly with invalid terms dropped."""
    par = collections.Counter(parent)
    return sum((collections.Counter(child) - par).values()) <= 1 and len(child) <= len(parent)
