"""C09: SGA term values equal the mathematical meaning of the term."""
import triton._C.libtriton  # noqa: F401
import copy

import numpy as np
from hypothesis import strategies as st

from kd.model.sga.sgapde import pde as pde_mod
from kd.model.sga.sgapde.pde import PDE, evaluate_mse
from vlib import gens as G, sgaref as R
from vlib.core import Frozen, Skip, arr_eq, check, close, env, eq, facet

TECHNIQUE = ("property-based testing: random expression trees over random grids (including derivatives along the left-hand axis, "
             "identically vanishing terms and zero divisors) compared column by column with an independent evaluator that also "
             "estimates conditioning; repeated evaluation must be bit-identical and leave the problem data alone")
RULE = "non-trivial: a kept, well-conditioned term of depth 3 or more was compared, or a term had to be dropped"


@st.composite
def cases(draw, maxterms=4, lhs_terms=True):
    s = draw(R.problem(max_axes=3, max_n=5))
    ref_names = list(s["fields"]) + [a for a in s["order"] if a != s["lhs"]] + s["params"] + ["0"] \
        + [f"{f}_{a}" for f in s["fields"] for a in s["order"] if a != s["lhs"]]
    sp = [a for a in s["order"] if a != s["lhs"]]
    leaves = ref_names + s["fields"] * 3
    ok = R.exprs(leaves, sp)
    anyax = R.exprs(leaves, s["order"])
    vanish = st.sampled_from([["*", s["fields"][0], "0"], ["d", "0", sp[0]], ["^2", ["-", s["fields"][0], s["fields"][0]]],
                              ["/", "0", s["fields"][0]], ["/", s["fields"][0], "0"], ["/", sp[0], ["-", sp[0], sp[0]]]])
    el = st.one_of(ok, ok, ok, vanish, anyax) if lhs_terms else ok
    return {"p": s, "terms": draw(st.lists(el, min_size=1, max_size=maxterms)), "guard": draw(st.booleans()), "reps": draw(st.integers(1, 3)),
            "extra": draw(st.integers(0, 2))}


class mode:
    def __init__(self, guard):
        self.g = guard

    def __enter__(self):
        self.e = env(KD_SGA_DIVIDE_MODE="guard" if self.g else "legacy")
        self.e.__enter__()

    def __exit__(self, *a):
        self.e.__exit__(None, None, None)


def frozen(c):
    return Frozen(u=c.u, ut=c.ut, fields=dict(c.fields), default=c.default_terms, vars={r[0]: r[2] for r in c.VARS},
                  coords=dict(c.coords_1d), den={r[0]: r[2] for r in c.den})


def judge(c, ref, terms, guard, left, M, aic, ctx, what):
    """Compare what was kept and the feature matrix with the reference."""
    vals = [R.value(e, ref, guard) for e in terms]
    i = 0
    kept = []
    for e in left:
        # every term before this one was dropped, and that has to be justified
        while i < len(terms) and terms[i] != e:
            check(vals[i][0] in ("drop", "unclear") or vals[i][0] == "ok" and small(vals[i][1], ref),
                  lambda: f"{what}: term {R.infix(terms[i])} was dropped although its value is not zero: {vals[i]}")
            i += 1
        check(i < len(terms), f"{what}: the kept terms {[R.infix(x) for x in left]} are not the candidate's in order")
        check(vals[i][0] != "drop" or vals[i][1] == "zero",
              lambda: f"{what}: term {R.infix(e)} was kept although it must be dropped ({vals[i][1]})")
        kept.append((e, vals[i]))
        i += 1
    for j in range(i, len(terms)):
        check(vals[j][0] in ("drop", "unclear") or vals[j][0] == "ok" and small(vals[j][1], ref),
              lambda: f"{what}: term {R.infix(terms[j])} was dropped although its value is not zero")
    ctx.label("dropped", len(kept) < len(terms)); ctx.label("kept", bool(kept))
    ctx.label("unclear", any(v[0] == "unclear" for v in vals))
    if not kept or any(v[0] == "inf" for _, v in kept):
        check(aic == np.inf, f"{what}: score {aic} of a candidate without usable terms")
        check(M is None, f"{what}: a feature matrix for a candidate without usable terms")
    if M is None:
        check(not kept or any(v[0] in ("inf", "unclear") for _, v in kept), f"{what}: no feature matrix for {[R.infix(e) for e, _ in kept]}")
        return kept
    eq(M.shape, (ref.ut.size, 1 + len(kept)), f"{what}: feature matrix")
    close(M[:, 0], ref.f[ref.target].reshape(-1), f"{what}: default column", rtol=1e-12, atol=0)
    for k, (e, v) in enumerate(kept):
        check(np.any(M[:, k + 1]), f"{what}: all-zero column for {R.infix(e)}")
        if v[0] == "ok":
            close(M[:, k + 1], v[1], f"{what}: value of {R.infix(e)}", rtol=1e-4, atol=1e-5 * np.max(np.abs(v[1])))
            ctx.nontrivial(R.depth_of(e) >= 3)
        elif v[0] == "drop":  # identically zero: only rounding may be left
            check(np.max(np.abs(M[:, k + 1])) <= 1e-6 * scale(ref), f"{what}: {R.infix(e)} vanishes but is kept with {np.max(np.abs(M[:, k + 1]))}")
    ctx.nontrivial(len(kept) < len(terms))
    return kept


def scale(ref):
    return 1 + max(np.max(np.abs(v)) for v in ref.leaves.values()) ** 6 / min(ref.h.values()) ** 4


def small(v, ref):
    return np.max(np.abs(v)) <= 1e-12


def run(p, c, is_term=False):
    try:
        with R.quiet(), np.errstate(all="ignore"):
            if is_term:
                t, w, M = evaluate_mse(p, c, True, return_matrix=True)
                return t, w, M
            return evaluate_mse(p, c, return_matrix=True)
    except np.linalg.LinAlgError:
        raise Skip()  # not a usable regression problem (overflowing columns)


@facet(cases(), quick=500, thorough=15000, shards=6, case_s=30)
def columns(case, ctx):
    s = case["p"]
    arr = R.arrays(s)
    ref = R.Ref(s, arr)
    with mode(case["guard"]):
        c = R.make_context(s, arr)
        fr = frozen(c)
        p = R.candidate(c, case["terms"], case["extra"])
        aic, w, M = run(p, c)
        left = [R.expr(t) for t in p.elements]
        eq(p.W, len(p.elements), "recorded width")
        kept = judge(c, ref, case["terms"], case["guard"], left, M, aic, ctx, "evaluation")
        # the same candidate evaluated again, and as a list of terms
        for _ in range(case["reps"]):
            a2, w2, M2 = run(p, c)
            same(a2, aic, "score of a second evaluation")
            arr_eq(np.asarray(w2), np.asarray(w), "coefficients of a second evaluation")
            eq([R.expr(t) for t in p.elements], left, "terms after a second evaluation")
            if M is not None:
                arr_eq(M2, M, "columns of a second evaluation")
        terms, w3, M3 = run([copy.deepcopy(t) for t in p.elements], c, True)
        arr_eq(np.asarray(w3), np.asarray(w), "coefficients of the terms evaluated as a list")
        eq(len(terms), len(left), "terms evaluated as a list")
        fr.verify("evaluation (problem data)")


def same(a, b, what):
    check(a == b or (np.isnan(a) and np.isnan(b)), f"{what}: got {a}, expected {b}")


@facet(cases(maxterms=5), quick=150, thorough=4000, shards=4, case_s=30)
def shared_history(case, ctx):
    """Evaluating terms of one candidate inside others, in any grouping, never changes their columns."""
    s = case["p"]
    arr = R.arrays(s)
    c = R.make_context(s, arr)
    with mode(case["guard"]):
        trees = [R.build_tree(e, c, R.depth_of(e) + case["extra"]) for e in case["terms"]]
        alone = []
        for t in trees:
            left, w, M = run([copy.deepcopy(t)], c, True)
            alone.append(None if not left else (M[:, 1] if M is not None else "inf"))
        rnd = np.random.RandomState(s["seed"])
        for _ in range(3):
            pick = [int(i) for i in rnd.randint(0, len(trees), rnd.randint(1, len(trees) + 1))]
            group = [trees[i] for i in pick]  # the same objects again, possibly repeated
            left, w, M = run(list(group), c, True)
            exp = [i for i in pick if alone[i] is not None]
            eq([R.expr(t) for t in left], [case["terms"][i] for i in exp], f"terms kept of {[case['terms'][i] for i in pick]}")
            if M is None:
                check(not exp or any(isinstance(alone[i], str) for i in exp), "no feature matrix for usable terms")
                continue
            for k, i in enumerate(exp):
                check(not isinstance(alone[i], str), "a feature matrix with an unusable term")
                arr_eq(M[:, k + 1], alone[i], f"column of {R.infix(case['terms'][i])} inside a group")
        ctx.nontrivial(sum(a is not None for a in alone) >= 2)


@facet(cases(maxterms=3, lhs_terms=False), quick=120, thorough=3000, shards=4, case_s=30)
def score_definition(case, ctx):
    """Score and coefficients are those of the feature matrix against the left-hand side."""
    s = case["p"]
    ref = R.Ref(s)
    c = R.make_context(s)
    with mode(case["guard"]):
        aic, w, M = run(R.candidate(c, case["terms"]), c)
    if M is None or not np.all(np.abs(M) < 1e100):
        return
    w = np.asarray(w, float)
    eq(w.shape, (M.shape[1], 1), "coefficients")
    res = ref.ut.reshape(-1, 1) - M @ w
    mse = float(np.mean(res ** 2))
    k = int(np.count_nonzero(w))
    if mse <= 1e-20 * (1 + np.mean(ref.ut ** 2)):
        return
    close(aic, c.config.aic_ratio * 2 * k + 2 * np.log(mse), "score of the coefficients on the data", rtol=1e-4, atol=1e-4)
    full = np.linalg.lstsq(M, ref.ut.reshape(-1, 1), rcond=None)[0]
    m0 = float(np.mean((ref.ut.reshape(-1, 1) - M @ full) ** 2))
    if np.linalg.cond(M / np.linalg.norm(M, axis=0)) < 1e6 and m0 > 1e-20 * (1 + np.mean(ref.ut ** 2)):
        check(aic <= c.config.aic_ratio * 2 * M.shape[1] + 2 * np.log(m0) + 1e-6, "score worse than plain least squares")
        ctx.nontrivial(M.shape[1] > 2)
