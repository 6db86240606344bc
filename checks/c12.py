"""C12: SGA equation reports say what was fitted."""
import triton._C.libtriton  # noqa: F401
import copy
import re

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from kd.model.kd_sga import KD_SGA
from kd.model.sga.sgapde.equation import (SGAEquationDetails, SGAEquationTerm, extract_equation_details, sga_equation_structure,
                                          sga_equation_to_latex)
from kd.model.sga.sgapde.pde import evaluate_mse
from vlib import gens as G, latexeq as L, sgaref as R
from vlib.core import Skip, arr_eq, check, close, eq, facet

TECHNIQUE = ("property-based testing with round trips: the structured report is re-evaluated on the grid with an independent evaluator, "
             "the text and LaTeX reports (both notations) are parsed by an independent reader and evaluated on random polynomial "
             "fields with exact derivatives, and compared term by term with the candidate and its fitted coefficients")
RULE = "non-trivial: an equation with at least two reported terms, one of them of depth 3 or more; for fitted models, at least one generated term"

TOL = 1e-5


@st.composite
def cands(draw, maxterms=4, xt=False):
    s = draw(R.problem(max_axes=3, max_n=6))
    s["kind"] = draw(st.sampled_from(["smooth", "normal"]))
    sp_ = [a for a in s["order"] if a != s["lhs"]]
    leaves = s["fields"] * 3 + sp_ + s["params"] + [f"{f}_{a}" for f in s["fields"] for a in sp_] + ["0"]
    return {"p": s, "terms": draw(st.lists(R.exprs(leaves, sp_, draw(st.sampled_from([3, 3, 4]))), min_size=1, max_size=maxterms)),
            "tol": draw(st.sampled_from([None, None, 1e-3, 0.5]))}


def scaled(s, arr, c, p):
    """Fit of the candidate, or Skip when it is not a usable regression problem."""
    try:
        with R.quiet(), np.errstate(all="ignore"):
            aic, w, M = evaluate_mse(p, c, return_matrix=True)
    except np.linalg.LinAlgError:
        raise Skip()
    if M is None:
        return None, None
    if not np.all(np.isfinite(M)) or np.max(np.abs(M)) > 1e60:
        raise Skip()
    return np.asarray(w, float).ravel(), M


@facet(cands(), quick=300, thorough=8000, shards=6)
def structured(case, ctx):
    s = case["p"]
    arr = R.arrays(s)
    ref = R.Ref(s, arr)
    c = R.make_context(s, arr)
    p = R.candidate(c, case["terms"])
    before = [R.expr(t) for t in p.elements]
    q = copy.deepcopy(p)
    w, M = scaled(s, arr, c, q)
    kept = [R.expr(t) for t in q.elements]
    with R.quiet(), np.errstate(all="ignore"):
        d = extract_equation_details(p, c) if case["tol"] is None else extract_equation_details(p, c, coefficient_tol=case["tol"])
    eq([R.expr(t) for t in p.elements], before, "the candidate itself after the report")
    eq(d.lhs, f"{s['target']}_{s['lhs']}", "left-hand side")
    tol = case["tol"] or TOL
    if w is None:
        eq(len(list(d.terms)), 0, "reported terms of a candidate without usable terms")
        return
    exp = [(s["target"] if i == 0 else kept[i - 1], x) for i, x in enumerate(w) if abs(x) >= tol]
    got = []
    for t in d.terms:
        e = t.label if t.source == "default" else R.parse_infix(t.label)
        if t.source == "generated":
            eq(R.expr(t.tree), e, "tree and label of a reported term")
        got.append((e, t.coefficient))
    eq(got, exp, "reported terms and coefficients")
    arr_eq(np.asarray(d.predicted_rhs).ravel(), M @ w, "predicted right-hand side")
    eq(np.shape(d.predicted_rhs), ref.shape, "shape of the predicted right-hand side")
    # evaluating the reported equation reproduces the fitted right-hand side
    tot, slack, ok = np.zeros(ref.ut.size), 1e-6, True
    for e, x in got:
        st_, v = R.value(e, ref) if not isinstance(e, str) else ("ok", ref.leaves[e].reshape(-1))
        if st_ != "ok":
            ok = False
            break
        tot = tot + x * v
        slack = max(slack, 1e-5 * np.max(np.abs(x * v)))
    if ok:
        slack += sum(abs(x) * np.max(np.abs(M[:, i])) for i, x in enumerate(w) if abs(x) < tol)
        close(tot, M @ w, "reported equation evaluated on the data", rtol=1e-5, atol=slack)
    ctx.nontrivial(len(got) >= 2 and any(R.depth_of(e) >= 3 for e, _ in got))
    # the text form
    with R.quiet(), np.errstate(all="ignore"):
        txt = p.concise_visualize(c)
    got = []
    for part in split_plus(txt):
        m = re.match(r"(-?[0-9.]+(?:e[+-]?[0-9]+)?)(.*)$", part, re.S)
        check(m, f"text form term {part!r} of {txt!r}")
        e = m.group(2)
        got.append((R.parse_infix(e) if e.startswith("(") else e, float(m.group(1))))
    exp = [(s["target"] if i == 0 else kept[i - 1], round(float(x), 4)) for i, x in enumerate(w) if abs(x) >= 1e-4]
    eq(got, exp, f"text form {txt!r}")


def split_plus(txt):
    out, d, cur, i = [], 0, "", 0
    while i < len(txt):
        d += (txt[i] == "(") - (txt[i] == ")")
        if d == 0 and txt.startswith(" + ", i):
            out.append(cur)
            cur, i = "", i + 3
            continue
        cur += txt[i]
        i += 1
    return out + [cur] if txt else []


# ------------------------------------------------------------------ LaTeX
coefs = st.one_of(st.sampled_from([1.0, -1.0, 0.5, -2.0, 1.0 + 1e-7, 1.001, -0.999, 1.0003, -0.99996, 1.00004, 1e-6, 123456.789, -3.00000004, 1e-12]),
                  st.floats(-1e6, 1e6, allow_nan=False).map(lambda x: float(f"{x:.9g}")).filter(lambda x: x != 0))


@st.composite
def latex_cases(draw):
    order = draw(st.lists(st.sampled_from(["x", "t", "y", "z", "r", "lat"]), min_size=2, max_size=3, unique=True))
    lhs = draw(st.sampled_from(order))
    sp_ = [a for a in order if a != lhs]
    fields = draw(st.lists(st.sampled_from(["u", "v", "w", "rho", "T2", "mu"]), min_size=1, max_size=2, unique=True))
    params = draw(st.lists(st.sampled_from(["nu", "kap", "alpha"]), max_size=1))
    leaves = fields * 2 + sp_ + params + [f"{f}_{a}" for f in fields for a in sp_]
    return {"order": order, "lhs": lhs, "fields": fields, "params": params, "target": fields[0], "seed": draw(G.seeds),
            "terms": draw(st.lists(st.tuples(R.exprs(leaves, sp_, draw(st.sampled_from([3, 3, 4]))), coefs).map(list), min_size=0, max_size=4)),
            "default": draw(st.one_of(st.none(), coefs))}


class FakeContext:
    pass


def fake_context(case):
    """Only what building a tree needs: operator rows and leaf rows."""
    c = FakeContext()
    row = lambda n, k: np.array([n, k, np.zeros(2)], dtype=object)
    c.OPS = np.array([row(o, a) for o, a in R.ARITY.items()])
    c.ROOT = c.OPS
    names = case["fields"] + case["params"] + [a for a in case["order"] if a != case["lhs"]] + ["0"]
    names += [f"{f}_{a}" for f in case["fields"] for a in case["order"] if a != case["lhs"]]
    c.VARS = np.array([row(n, 0) for n in names])
    c.den = np.array([row(a, 0) for a in case["order"] if a != case["lhs"]])
    c.coord_grids = {a: np.zeros(2) for a in case["order"]}
    return c


@facet(latex_cases(), quick=350, thorough=8000, shards=8, case_s=60)
def latex(case, ctx):
    fc = fake_context(case)
    terms = []
    if case["default"] is not None:
        terms.append((case["target"], case["default"]))
    terms += [(e, x) for e, x in case["terms"]]
    det = [SGAEquationTerm(label=e, source="default", coefficient=x, tree=None) if isinstance(e, str)
           else SGAEquationTerm(label=R.infix(e), source="generated", coefficient=x, tree=R.build_tree(e, fc)) for e, x in terms]
    d = SGAEquationDetails(lhs=f"{case['target']}_{case['lhs']}", terms=tuple(det))
    compare_latex(d, terms, case, ctx)
    ctx.nontrivial(len(terms) >= 2 and any(R.depth_of(e) >= 3 for e, _ in terms))
    ctx.label("unit", any(abs(abs(x) - 1) < 1e-5 for _, x in terms)); ctx.label("empty", not terms)


def compare_latex(d, terms, case, ctx):
    axes = {a: sp.Symbol(a) for a in case["order"]}
    env = dict(L.poly_fields(case["fields"] + case["params"], axes, case["seed"], deg=2))
    env.update(axes)
    rd = L.Reader(env, axes)
    pts = L.points(axes, case["seed"], 2)
    vals = {}
    for notation in ("subscript", "leibniz"):
        for coeff in (True, False):
            s = sga_equation_to_latex(d, include_coefficients=coeff, notation=notation)
            if not coeff:
                eq(sga_equation_structure(d, notation=notation), s, "structure form")
            lhs, eqs, rhs = s.partition(" = ")
            check(eqs, f"{s!r} is not an equation")
            try:
                lv = rd.read(lhs)
                got = rd.terms(rhs)
            except L.ParseError as ex:
                check(False, f"{notation}: {s!r} cannot be read: {ex}")
            check(sp.expand(lv - sp.diff(env[case["target"]], axes[case["lhs"]])) == 0, f"left-hand side of {s!r}")
            if not terms:
                eq(got, [0], f"right-hand side of an equation without terms: {s!r}")
                continue
            eq(len(got), len(terms), f"number of terms of {s!r}")
            for g, (e, x) in zip(got, terms):
                key = repr(e)
                if key not in vals:
                    ev = L.tree_to_sympy(e, env, axes) if not isinstance(e, str) else env[e]
                    vals[key] = [L.number(ev, p) for p in pts]
                for p, v in zip(pts, vals[key]):
                    if v is None:
                        ctx.label("undefined value")
                        continue
                    gv = L.number(g, p)
                    ex = (x if coeff else np.sign(x)) * v
                    check(gv is not None and abs(gv - ex) <= 2e-5 * abs(ex) + 1e-12 * min(1.0, abs(x)),
                          lambda: f"{notation}: term {R.infix(e)} with coefficient {x} is written as {s!r}, which evaluates to {gv}, expected {ex}")


@st.composite
def fits(draw):
    s = draw(R.problem(max_axes=3, max_n=6, params=False))
    s["kind"] = draw(st.sampled_from(["smooth", "normal"]))
    return {"p": s, "seed": draw(st.integers(0, 1000)), "num": draw(st.integers(1, 4)), "depth": draw(st.integers(2, 4)), "width": draw(st.integers(1, 4))}


@facet(fits(), quick=40, thorough=800, shards=8, case_s=90)
def fitted_model(case, ctx):
    s = case["p"]
    m = KD_SGA(sga_run=1, num=case["num"], depth=case["depth"], width=case["width"], seed=case["seed"])
    e0 = None
    try:
        m.equation_latex()
        check(False, "equation_latex() before fitting returned something")
    except RuntimeError:
        pass
    with R.quiet(), np.errstate(all="ignore"):
        m.fit_dataset(R.make_dataset(s))
    d = m.best_equation_details_
    check(d is not None, "no equation details after fitting")
    ref = R.Ref(s)
    eq(d.lhs, f"{s['target']}_{s['lhs']}", "left-hand side")
    terms = [(t.label if t.source == "default" else R.parse_infix(t.label), t.coefficient) for t in d.terms]
    for n in ("subscript", "leibniz"):
        eq(m.equation_latex(notation=n), sga_equation_to_latex(d, notation=n), "equation_latex")
    eq(m.equation_structure_latex(), sga_equation_to_latex(d, include_coefficients=False), "equation_structure_latex")
    compare_latex(d, terms, {**s, "params": []}, ctx)
    # the reported equation has the reported score
    if terms and all(R.value(e, ref)[0] == "ok" for e, _ in terms if not isinstance(e, str)):
        tot = sum(x * (R.value(e, ref)[1] if not isinstance(e, str) else ref.leaves[e].reshape(-1)) for e, x in terms)
        close(tot, np.asarray(d.predicted_rhs).ravel(), "reported equation on the data", rtol=1e-4,
              atol=1e-4 * (np.max(np.abs(tot)) + np.max(np.abs(ref.ut))) + 1e-4)
    ctx.nontrivial(any(not isinstance(e, str) for e, _ in terms))
