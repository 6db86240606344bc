"""C28: EqGPT vocabulary terms mean what they say."""
import triton._C.libtriton  # noqa: F401
import json
import os

import numpy as np
from hypothesis import strategies as st

from vlib import eqgpt as Q
from vlib.core import Frozen, Skip, check, eq, facet  # noqa: E501

TECHNIQUE = ("property-based testing: every vocabulary word is parsed as the mathematical expression it spells and evaluated with Taylor jets of random "
             "surrogate networks; both implementations (array and differentiable) and the equation columns built from them are compared")
RULE = "non-trivial: the expression depends on the surrogate and its values differ between points"
ASSUMPTIONS = ["sqrt(u), sqrt(x) and quotients are compared where they are real and the denominator is not close to zero",
               "BiLaplace(u) is claimed for problems without z (the code deliberately restricts it to x and y)",
               "the input variables always contain x"]
EXTRA = ["(u^2)xx", "(u^3)x", "uyyyy", "uxxyy", "uzzzz", "uyyzz", "uxxzz", "Div(u)"]


def mod():
    import kd.model.eqgpt.calculate_terms as m
    return m


def vocabulary():
    p = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "kd/model/eqgpt/dict_datas_0725.json")
    d = json.load(open(p))
    return [w for w in d["id2word"] if w not in ("<pad>", "E", "+", "*", "/", "S")] + EXTRA


WORDS = vocabulary()


def possible(word, variables):
    e = Q.parse(word)
    return Q.axes(e) <= set(variables) and not (word == "BiLaplace(u)" and "z" in variables)


@st.composite
def net_case(draw, need=()):
    rest = draw(st.lists(st.sampled_from("tyz"), unique=True, max_size=3))
    return {"vars": draw(st.permutations(sorted({"x", *rest, *need}))), "act": draw(st.sampled_from(["sin", "tanh"])),
            "layers": draw(st.integers(1, 3)), "width": draw(st.integers(2, 6)), "shift": draw(st.sampled_from([0.0, 1.3, -1.7, 2.5])),
            "n": draw(st.integers(1, 7)), "seed": draw(st.integers(0, 10 ** 6))}


def surrogate(c):
    """(repository network in double precision, its parameters, points)"""
    import torch
    from kd.model.eqgpt.neural_network import NN
    d = len(c["vars"])
    r = np.random.default_rng(c["seed"])
    net = NN(Num_Hidden_Layers=c["layers"], Neurons_Per_Layer=c["width"], Input_Dim=d, Output_Dim=1, Data_Type=torch.float64, Device="cpu",
             Activation_Function={"sin": "Sin", "tanh": "Tanh"}[c["act"]])
    params = []
    for k, l in enumerate(net.Layers):
        W = r.normal(0, 1.1 / np.sqrt(l.in_features / 1.5), l.weight.shape)
        b = r.normal(0, 0.6, l.bias.shape) + (c["shift"] if k == len(net.Layers) - 1 else 0)
        with torch.no_grad():
            l.weight.copy_(torch.from_numpy(W)); l.bias.copy_(torch.from_numpy(b))
        params.append((W, b))
    net.eval()
    pts = r.uniform(-1.5, 2.0, (c["n"], d))
    pts[:, c["vars"].index("x")] = r.uniform(0.2, 2.5, c["n"])       # sqrt(x), 1/x
    return net, params, pts


def db(pts):
    import torch
    return torch.tensor(pts, dtype=torch.float64, requires_grad=True)


def ok_points(word, u):
    m = np.ones(len(u), bool)
    if "sqrt(u)" in word:
        m &= u > 1e-3
    if "1/u" in word or "u^-2" in word:
        m &= np.abs(u) > 0.25
    return m


def same(got, want, m, what, **kw):
    got = np.asarray(got, float).reshape(-1)
    check(got.shape == want.shape, f"{what}: shape", got=got.shape, want=want.shape)
    tol = 1e-7 * (1 + np.abs(want).max(initial=0, where=m))
    bad = m & ~(np.abs(got - want) <= tol)
    check(not bad.any(), what, got=got.tolist(), expected=want.tolist(), **kw)


@st.composite
def word_case(draw):
    w = draw(st.sampled_from(WORDS))
    c = draw(net_case(need=sorted(Q.axes(Q.parse(w)))))
    if w == "BiLaplace(u)":
        c["vars"] = [v for v in c["vars"] if v != "z"]
    return {"word": w, **c}


def every_word():
    for i, w in enumerate(WORDS):
        need = sorted({"x"} | Q.axes(Q.parse(w)))
        for j, vs in enumerate((need, need[::-1], sorted(set("txyz") - ({"z"} if w == "BiLaplace(u)" else set()), reverse=True))):
            yield {"word": w, "vars": list(vs), "act": ("sin", "tanh")[j % 2], "layers": 2, "width": 4, "shift": 1.3, "n": 4, "seed": 7 * i + j}


def words(case, ctx):
    m = mod()
    c, w = case, case["word"]
    net, params, pts = surrogate(c)
    want, u = Q.value(w, params, c["act"], pts, c["vars"])
    ok = ok_points(w, u)
    if not ok.any():
        raise Skip("no point where the word is defined")
    vs = list(c["vars"])
    X = db(pts)
    same(m.calculate_terms(w, net, X, vs, 1, c["n"]), want, ok, f"value of {w!r}", variables=vs)
    Y = db(pts)
    t = m.calculate_terms_PINN(w, net, Y, vs)
    same(t.detach().numpy(), want, ok, f"differentiable value of {w!r}", variables=vs)
    check(bool((X.detach().numpy() == pts).all() and (Y.detach().numpy() == pts).all()), "evaluation points changed")
    eq(vs, list(c["vars"]), "variables changed")
    for (W, b), l in zip(params, net.Layers):
        check(bool((l.weight.detach().numpy() == W).all() and (l.bias.detach().numpy() == b).all()), "surrogate changed")
    ctx.nontrivial("u" in w and c["n"] > 1 and np.ptp(want) > 1e-6)
    ctx.label("order%d" % Q.order(Q.parse(w)))
    ctx.label("vars%d" % len(vs))



@facet(word_case(), quick=2500, thorough=40000, shards=3)
def word_value(case, ctx):
    words(case, ctx)


@facet(shards=2, enum=lambda: list(every_word()))
def all_words(case, ctx):
    words(case, ctx)


@st.composite
def gradient_case(draw):
    c = draw(word_case())
    return {**c, "layers": min(c["layers"], 2), "width": min(c["width"], 4), "n": min(c["n"], 3), "k": draw(st.integers(0, 50))}


@facet(gradient_case(), quick=700, thorough=8000, shards=2)
def trainable(case, ctx):
    """Training through the differentiable variant: its gradient w.r.t. a network parameter is that of the true value."""
    import torch
    m = mod()
    c, w = case, case["word"]
    if Q.parse(w)[0] in "txyz" or "u" not in w:
        raise Skip("does not involve the surrogate")
    net, params, pts = surrogate(c)
    _, u = Q.value(w, params, c["act"], pts, c["vars"])
    if not ok_points(w, u).all() or (np.abs(u) < 0.05).any():
        raise Skip("undefined at some point")
    p = list(net.parameters())[0]                    # first-layer weights: every word is sensitive to them
    j = c["k"] % p.numel()
    out = m.calculate_terms_PINN(w, net, db(pts), list(c["vars"]))
    g = torch.autograd.grad(out.sum(), p)[0].reshape(-1)[j].item()

    def total(h):
        W = params[0][0].copy(); W.flat[j] += h
        return Q.value(w, [(W, params[0][1])] + params[1:], c["act"], pts, c["vars"])[0].sum()
    h = 1e-3
    f = [total(k * h) for k in (-3, -2, -1, 1, 2, 3)]
    num = (f[5] - 9 * f[4] + 45 * f[3] - 45 * f[2] + 9 * f[1] - f[0]) / (60 * h)
    low = (8 * (f[3] - f[2]) - (f[4] - f[1])) / (12 * h)
    tol = 1e-5 * (1 + abs(num)) + 20 * abs(num - low)
    if tol > 1e-2 * (1 + abs(num)):
        raise Skip("reference gradient not accurate")
    check(abs(g - num) <= tol, f"gradient of {w!r} with respect to the network", got=g, expected=num, tol=tol)
    ctx.nontrivial(abs(num) > 1e-6)


@st.composite
def columns_case(draw):
    c = draw(net_case(need=("t",)))
    c["vars"] = [v for v in c["vars"]]
    ws = [w for w in WORDS[:51] if possible(w, c["vars"])]
    terms = draw(st.lists(st.lists(st.tuples(st.sampled_from(ws), st.sampled_from("**/")), min_size=1, max_size=3), min_size=2, max_size=4))
    return {**c, "terms": [[[w, o] for w, o in t] for t in terms]}


@facet(columns_case(), quick=800, thorough=10000, shards=2)
def columns(case, ctx):
    """Equation columns are the products and quotients the sentence spells; the coefficients are the equation's best relation."""
    import kd.model.eqgpt.PINN_optimization as P
    import kd.model.eqgpt.posterial_solution_PINN as S
    import torch
    m, c = mod(), case
    net, params, pts = surrogate(c)
    vs = list(c["vars"])
    ids = m.word2id
    sent, cols = [], []
    for t in c["terms"]:
        if sent:
            sent.append(ids["+"])
        col = np.ones(c["n"])
        for k, (w, o) in enumerate(t):
            v, u = Q.value(w, params, c["act"], pts, vs)
            if not ok_points(w, u).all():
                raise Skip("undefined at some point")
            if k:
                sent.append(ids[o])
                if o == "/" and (np.abs(v) < 1e-2).any():
                    raise Skip("denominator close to zero")
            col = col / v if k and o == "/" else col * v
            sent.append(ids[w])
        cols.append(col)
    sent.append(ids["E"])
    want = np.stack(cols, 1)
    frozen = Frozen(sent=sent, vs=vs)
    for f in (P.get_PDE_terms, S.get_PDE_terms):
        got = f(sent, net, db(pts), vs).detach().numpy()
        eq(list(got.shape), list(want.shape), "shape of the columns")
        tol = 1e-7 * (1 + np.abs(want).max(axis=0))
        check(bool((np.abs(got - want) <= tol).all()), "equation columns", got=got.tolist(), expected=want.tolist())
    frozen.verify("term columns")
    ctx.nontrivial(any(len(t) > 1 for t in c["terms"]))
    ctx.label("quotient", any(o == "/" for t in c["terms"] for _, o in t[1:]))
    U, d, V = np.linalg.svd(want, full_matrices=False)
    if len(want) >= want.shape[1] and len(d) > 1 and d[-1] < 0.5 * d[-2] and d[0] < 1e6 * max(d[-2], 1e-300) and abs(V[-1, 0]) > 1e-3:
        x = np.asarray(P.get_coefficients(sent, net, db(pts), vs, 0), float).ravel()
        wantx = -V[-1, 1:] / V[-1, 0]
        check(np.allclose(x, wantx, rtol=1e-4, atol=1e-4 * (1 + np.abs(wantx).max())), "coefficients of the best relation", got=x.tolist(), expected=wantx.tolist())
        ctx.label("coefficients")


@facet(columns_case(), quick=500, thorough=6000, shards=2)
def trainable_columns(case, ctx):
    """Training an equation: the gradient of its columns with respect to the network is that of the true products and quotients."""
    import kd.model.eqgpt.PINN_optimization as P
    import kd.model.eqgpt.posterial_solution_PINN as S
    import torch
    m = mod()
    c = {**case, "layers": min(case["layers"], 2), "width": min(case["width"], 4), "n": min(case["n"], 3)}
    net, params, pts = surrogate(c)
    vs, ids = list(c["vars"]), m.word2id
    terms = c["terms"][:3]
    weight = np.random.default_rng(c["seed"] + 1).normal(size=(c["n"], len(terms)))
    sent = []
    for t in terms:
        sent += ([ids["+"]] if sent else []) + [ids[t[0][0]]]
        for w, o in t[1:]:
            sent += [ids[o], ids[w]]
    sent.append(ids["E"])

    def total(h, flat):
        W = params[0][0].copy(); W.flat[flat] += h
        pp, out = [(W, params[0][1])] + params[1:], 0.0
        for q, t in enumerate(terms):
            col = np.ones(c["n"])
            for k, (w, o) in enumerate(t):
                v, u = Q.value(w, pp, c["act"], pts, vs)
                if h == 0 and (not ok_points(w, u).all() or (np.abs(u) < 0.05).any() or (k and o == "/" and (np.abs(v) < 0.05).any())):
                    raise Skip("undefined at some point")
                col = col / v if k and o == "/" else col * v
            out += (weight[:, q] * col).sum()
        return out
    total(0, 0)
    flat = c["seed"] % params[0][0].size
    h = 1e-3
    f = [total(k * h, flat) for k in (-3, -2, -1, 1, 2, 3)]
    num = (f[5] - 9 * f[4] + 45 * f[3] - 45 * f[2] + 9 * f[1] - f[0]) / (60 * h)
    low = (8 * (f[3] - f[2]) - (f[4] - f[1])) / (12 * h)
    tol = 1e-5 * (1 + abs(num)) + 20 * abs(num - low)
    if not np.isfinite(num) or tol > 1e-2 * (1 + abs(num)):
        raise Skip("reference gradient not accurate")
    for f in (P.get_PDE_terms, S.get_PDE_terms):
        out = f(sent, net, db(pts), vs)
        p = list(net.parameters())[0]
        g = torch.autograd.grad((out * torch.from_numpy(weight)).sum(), p, allow_unused=True)[0] if out.requires_grad else None
        g = 0.0 if g is None else g.reshape(-1)[flat].item()
        check(abs(g - num) <= tol, "gradient of the equation columns with respect to the network", got=g, expected=num, tol=tol, terms=terms)
    ctx.nontrivial(abs(num) > 1e-6 and any(len(t) > 1 for t in terms))
    ctx.label("quotient", any(o == "/" for t in terms for _, o in t[1:]))
