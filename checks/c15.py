"""C15: DLGA equations are rendered faithfully."""
import triton._C.libtriton  # noqa: F401
import copy
import os
import re
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from kd.model.dlga import DLGA
from kd.model.kd_dlga import KD_DLGA
from kd.viz.dlga_eq2latex import dlga_eq2latex
from vlib import dlgaref as D, gens as G
from vlib.core import Frozen, check, eq, facet, fail
from vlib.sgaref import quiet

TECHNIQUE = ("round-trip property testing: random genomes, coefficients (signs, units, zeros, extremes), operator lists and left-hand sides are "
             "rendered to text and LaTeX and parsed back by an independent reader; fitted models and the equation plot must carry the rendering of "
             "the genome and coefficients they selected")
RULE = "non-trivial: at least two terms, or a term with a repeated operator"

# reading of a printed symbol -> canonical operator
CANON = {"u": "u", "ux": "u_x", "uxx": "u_xx", "uxxx": "u_xxx", "ut": "u_t", "utt": "u_tt"}
for k in list(CANON.values()):
    CANON[k] = k
    CANON["u_{%s}" % k[2:]] = k


def canon(name):
    if name not in CANON:
        fail(f"symbol {name!r} is not one of the operators")
    return CANON[name]


def read_factors(txt, sep):
    c = Counter()
    for f in [f for f in re.split(sep, txt) if f]:
        m = re.fullmatch(r"(u(?:_?[xt]+|_\{[xt]+\})?)(?:\^\{?(\d+)\}?)?", f)
        check(m, f"unreadable factor {f!r} in {txt!r}")
        # an unbraced subscript of more than one letter reads as u_x x in LaTeX
        check(sep == r"\*" or not re.fullmatch(r"u_[xt]{2,}", m.group(1)), f"unbraced subscript {f!r} in {txt!r}")
        c[canon(m.group(1))] += int(m.group(2) or 1)
    return c


def read(s, latex):
    """(lhs, [(coefficient, Counter of operators)])"""
    if latex:
        check(s.startswith("$") and s.endswith("$"), f"not wrapped in $: {s!r}")
        s = s[1:-1]
    lhs, _, rhs = s.partition("=")
    lhs, rhs = lhs.strip(), rhs.strip()
    check(not latex or not re.fullmatch(r"u_[xt]{2,}", lhs), f"unbraced subscript in {lhs!r}")
    rhs = rhs.replace("+-", "-") if not latex else rhs
    terms = [t for t in re.split(r"(?<![eE])(?=[+-])", rhs) if t.strip()]
    out = []
    for t in terms:
        m = re.fullmatch(r"\s*([+-]?)\s*(\d+(?:\.\d*)?(?:[eE][+-]?\d+)?)?\s*\*?\s*(.*?)\s*", t)
        check(m, f"unreadable term {t!r} of {s!r}")
        c = float(m.group(2) or 1.0) * (-1 if m.group(1) == "-" else 1)
        out.append((c, read_factors(m.group(3), r"\s+" if latex else r"\*")))
    return canon(lhs), out


@st.composite
def cases(draw):
    kd = draw(st.booleans())
    ops = draw(st.permutations(D.OPS))[:draw(st.integers(1, 6))] if kd else None
    g = draw(D.genomes(len(ops) if kd else 6, max_terms=5, max_len=5))
    coef = st.one_of(st.floats(-5, 5), st.sampled_from([1.0, -1.0, 0.0, -0.0, 1.00001, -0.99999, 0.5, -0.00004, 1e-9, 123.456, -98765.4321, 0.99, 1e6, 2e7, -1.5]))
    return {"ops": ops, "g": g, "c": [draw(coef) for _ in g], "lhs": draw(st.sampled_from(["u_t", "u_tt", "u_t", "u_tt", "u_x"])), "names": draw(st.booleans())}


def compare(got, lhs, g, c, names, what, text):
    eq(got[0], lhs, f"{what}: left-hand side of {text!r}")
    eq(len(got[1]), len(g), f"{what}: number of terms of {text!r} for {g}")
    for (gc, gf), mod, cc in zip(got[1], g, c):
        eq(gf, Counter(canon(names[i]) for i in mod), f"{what}: factors of a term of {text!r} for {g} with {names}")
        check(abs(gc - cc) <= 6e-5 + 2e-5 * (abs(abs(cc) - 1) < 2e-5) + 1e-12 * abs(cc), f"{what}: coefficient {gc} for {cc} in {text!r}")


@facet(cases(), quick=400, thorough=20000)
def roundtrip(case, ctx):
    g, ops = copy.deepcopy(case["g"]), case["ops"]
    c = np.array(case["c"]).reshape(-1, 1)
    fz = Frozen(g=g, c=c)
    names = list(ops) if ops else list(D.BASE)
    with quiet():
        if ops:
            s = dlga_eq2latex(chromosome=g, coefficients=c, lhs_name_str=case["lhs"], operator_names=list(ops))
        else:
            s = dlga_eq2latex(g, c, case["lhs"])
    compare(read(s, True), case["lhs"], case["g"], case["c"], names, "LaTeX", s)
    with quiet():
        m = KD_DLGA(operators=list(ops), epi=0.1, input_dim=2) if ops else DLGA(0.1, 2)
        t = m.convert_chrom_to_eq(g, case["lhs"], c)
    compare(read(t, False), case["lhs"], case["g"], case["c"], names, "text", t)
    fz.verify("rendering")
    ctx.nontrivial(len(g) > 1 or any(len(set(m)) < len(m) for m in g)); ctx.label("custom operators" if ops else "default operators")


def plotted(m, i, names):
    from kd.viz import core
    with quiet():
        res = core.render(core.VizRequest("equation", m, {"output_dir": os.path.abspath("viz"), "solution_index": i}))
    if i >= len(m.coef):
        check(not res.paths and res.warnings, f"solution index {i} of {len(m.coef)} was plotted: {res}")
    elif np.abs(m.coef[i]).max() < 1e9:
        s = res.metadata["latex"]
        compare(read(s, True), m.name[i], m.Chrom[i], m.coef[i].reshape(-1), names, f"plotted LaTeX {i}", s)
        check(len(res.paths) == 1 and os.path.getsize(res.paths[0]) > 0, "equation image")


@st.composite
def fits(draw):
    return {"ops": draw(st.permutations(D.OPS))[:draw(st.integers(2, 6))], "kd": draw(st.sampled_from([True, True, False])), "seed": draw(G.seeds),
            "pop": draw(st.integers(2, 6)), "gens": draw(st.integers(1, 3)), "index": draw(st.integers(0, 4))}


@facet(fits(), quick=24, thorough=500, shards=6)
def fitted(case, ctx):
    import torch
    torch.manual_seed(case["seed"]); D.seed(case["seed"])
    r = np.random.RandomState(case["seed"])
    X = r.uniform(-1, 1, (30, 2))
    y = np.sin(X[:, :1] - X[:, 1:])
    texts = []
    with quiet():
        m = KD_DLGA(operators=list(case["ops"]), epi=0.01, input_dim=2, verbose=False, max_iter=2) if case["kd"] else DLGA(0.01, 2, max_iter=2)
        m.pop_size, m.n_generations = case["pop"], case["gens"]
        conv = m.convert_chrom_to_eq

        def keep(*a):
            texts.append(conv(*a))
            return texts[-1]
        m.convert_chrom_to_eq = keep
        m.fit(X, y)
    names = list(case["ops"]) if case["kd"] else D.BASE
    args = (m.name[0], m.Chrom[0], m.coef[0].reshape(-1), names)
    if np.abs(args[2]).max() < 1e9:
        compare(read(m.eq_latex, True), *args, "fitted LaTeX", m.eq_latex)
        for t in texts[:1]:
            compare(read(t, False), *args, "fitted text", t)
    if case["kd"]:
        plotted(m, case["index"], names)
    ctx.nontrivial(len(m.Chrom[0]) > 1 or len(m.Chrom[0][0]) > 1); ctx.label("kd" if case["kd"] else "base")
