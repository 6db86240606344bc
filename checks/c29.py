"""C29: EqGPT candidate scoring and ranking are exact."""
import triton._C.libtriton  # noqa: F401
import contextlib
import os
import pickle
import random

import numpy as np
from hypothesis import strategies as st

from vlib import eqgpt as Q
from vlib.core import Frozen, Skip, check, eq, facet
from vlib.sgaref import quiet

TECHNIQUE = ("property-based testing: candidate sentences scored on random double-precision surrogates against columns from Taylor jets and an independent "
             "least-squares score; leader-board histories against a reference set; sampling and whole searches replayed against the recorded history")
RULE = "non-trivial: the candidate has at least two distinct terms (scoring), or the history has ties or more than ten distinct rewards (ranking)"
ASSUMPTIONS = ["candidates whose score is numerically undetermined (nearly collinear terms) are skipped",
               "whole searches use a reduced-size language model and briefly trained surrogates"]

OPS = {"+": 2, "*": 3, "/": 4}
E = 1
RED = [{"u", "sin(u)"}, {"u", "sinh(u)"}, {"sin(u)", "sinh(u)"}, {"u", "u^2", "u^3"}, {"x", "sinx"}]


def M():
    import kd.model.eqgpt.continue_train_GPT_all as m
    return m


def tokens(terms, end=True):
    """terms: [[word, [op, word], ...]] -> ids"""
    ids = M().word2id
    out = []
    for t in terms:
        if out:
            out.append(2)
        out.append(ids[t[0]])
        for o, w in t[1:]:
            out += [OPS[o], ids[w]]
    return out + ([E] if end else [])


def key(t):
    num, den = [t[0]], []
    for o, w in t[1:]:
        (num if o == "*" else den).append(w)
    return tuple(sorted(num)), tuple(sorted(den))


def distinct(terms):
    out, seen = [], set()
    for t in terms:
        if key(t) not in seen:
            seen.add(key(t))
            out.append(t)
    return out


def terms_of(words, lo=1, hi=5):
    w = st.sampled_from(words)
    return st.lists(st.tuples(w, st.lists(st.tuples(st.sampled_from("**/"), w).map(list), max_size=2)).map(lambda p: [p[0], *p[1]]), min_size=lo, max_size=hi)


# ---------------------------------------------------------------- duplicates
@facet(st.fixed_dictionaries({"terms": st.one_of(terms_of(["ux", "u"], 1, 6), terms_of(["ut", "ux", "u", "x"], 1, 7)), "end": st.booleans()}), quick=1500, thorough=20000)
def duplicates(case, ctx):
    m = M()
    s = tokens(case["terms"], case["end"])
    want = tokens(distinct(case["terms"]))
    f = Frozen(s=s)
    got = m.delete_duplicate(s)
    f.verify("delete_duplicate")
    eq(list(got), want, "sentence without duplicate terms")
    eq(list(m.delete_duplicate(list(got))), want, "removing duplicates again")
    ctx.nontrivial(len(distinct(case["terms"])) < len(case["terms"]) or len(case["terms"]) > 1)
    ctx.label("dropped", len(distinct(case["terms"])) < len(case["terms"]))


# ---------------------------------------------------------------- reward
def vocab(variables):
    return [w for w in M().id2word[6:] if Q.axes(Q.parse(w)) <= set(variables)]


VARS = [["t", "x"], ["x", "t"], ["t", "x", "y"], ["y", "x"], ["x", "y", "t"], ["x"]]
WORDS = {}


def _words(v):
    k = "".join(sorted(v))
    if k not in WORDS:
        WORDS[k] = vocab(v)
    return WORDS[k]


LOW = ["ut", "u", "ux", "uxx", "ut^2", "uxt", "utt", "ux^2", "(uux)x", "u^2", "uxxx", "u^3", "x", "sqrt(u)", "sin(u)", "sinh(u)", "x^2", "exp(x)", "sinx", "sqrt(x)", "t", "sint",
       "(u^3)xx", "(u^4)xx", "(uux)t", "y", "uy", "uyy", "uxy", "Laplace(u)", "(x+y)", "exp(-y)", "y^2", "uy^2", "(uxx+ux/x)^2", "x^4"]


@st.composite
def reward_case(draw):
    v = draw(st.sampled_from(VARS))
    ws = [w for w in LOW if Q.axes(Q.parse(w)) <= set(v)]
    if draw(st.integers(0, 9)) == 0:
        ws = ["u", "sin(u)", "sinh(u)", "u^2", "u^3", "x", "sinx", "ux", "u"] + (["ut", "ut"] if "t" in v else [])
    terms = draw(terms_of(ws, 1, 5))
    if "t" in v and draw(st.integers(0, 5)):
        terms = [["ut"], *terms]
    if "y" in v and draw(st.integers(0, 3)):
        terms = [*terms, [draw(st.sampled_from(["uyy", "uy", "y"]))]]
    return {"vars": v, "terms": terms, "trunc": draw(st.sampled_from([0] * 6 + [1])), "end": draw(st.sampled_from([True, True, True, False])),
            "cases": [{"act": draw(st.sampled_from(["sin", "tanh"])), "layers": draw(st.integers(1, 2)), "width": draw(st.integers(2, 5)), "n": draw(st.integers(8, 40)),
                       "zero": draw(st.sampled_from([0, 0, 0, 1, 2])), "neg": draw(st.sampled_from([False, False, True])),
                       "shift": draw(st.sampled_from([0.0, 1.5])), "seed": draw(st.integers(0, 10 ** 6))} for _ in range(draw(st.integers(1, 3)))]}


def surrogate(c, variables):
    import torch
    from kd.model.eqgpt.neural_network import NN
    d = len(variables)
    r = np.random.default_rng(c["seed"])
    net = NN(Num_Hidden_Layers=c["layers"], Neurons_Per_Layer=c["width"], Input_Dim=d, Output_Dim=1, Data_Type=torch.float64, Device="cpu",
             Activation_Function={"sin": "Sin", "tanh": "Tanh"}[c["act"]])
    params = []
    for k, l in enumerate(net.Layers):
        W = r.normal(0, 1.1 / np.sqrt(l.in_features / 1.5), l.weight.shape)
        b = r.normal(0, 0.6, l.bias.shape) + (c["shift"] if k == len(net.Layers) - 1 else 0)
        with torch.no_grad():
            l.weight.copy_(torch.from_numpy(W)); l.bias.copy_(torch.from_numpy(b))
        params.append((W, b))
    pts = r.uniform(0.0, 2.0, (c["n"], d))
    ix = variables.index("x")
    pts[:, ix] = r.uniform(0.3, 2.5, c["n"]) * (r.choice([-1, 1], c["n"]) if c["neg"] else 1)
    pts[:c["zero"], ix] = 0.0
    return net, params, pts


def columns(terms, params, act, pts, variables):
    """(columns, words without a value, undetermined?)"""
    cols, bad, shaky = [], set(), False
    vals = {}
    for w in {w for t in terms for w in [t[0], *(p[1] for p in t[1:])]}:
        v, u = Q.value(w, params, act, pts, variables)
        if w == "sqrt(u)":
            v = np.sqrt(np.abs(u))              # the code's convention for negative u
            shaky |= bool((np.abs(u) < 1e-6).any())
        if w == "(uxx+ux/x)^2":
            v = np.where(pts[:, variables.index("x")] == 0, np.inf, v)
        vals[w] = v
        if np.isnan(v).any():
            bad.add(w)
    for t in terms:
        col = vals[t[0]]
        for o, w in t[1:]:
            v = vals[w]
            if o == "/":
                shaky |= bool(((v != 0) & (np.abs(v) < 1e-4)).any())
                if (v == 0).any():
                    shaky |= w not in ("x", "x^2", "x^4", "sinx", "sqrt(x)")     # only coordinates vanish exactly
            col = col * v if o == "*" else col / v
        cols.append(col)
    return np.stack(cols, 1), bad, shaky


def fit_score(A):
    """(R2 of -A0 explained by the other columns, determined?)"""
    b, X = -A[:, 0], A[:, 1:]
    tot = ((b - b.mean()) ** 2).sum()
    if len(A) < 2 or tot < 1e-6 * (b ** 2).sum() or tot < 1e-20:
        return 0.0, False
    if X.shape[1] == 0:
        return 1 - (b ** 2).sum() / tot, True
    X = X / np.maximum(np.abs(X).max(axis=0), 1e-300)
    out = []
    for rc in (1e-13, 1e-10, 1e-7):
        x = np.linalg.lstsq(X, b, rcond=rc)[0]
        out.append(1 - ((b - X @ x) ** 2).sum() / tot)
    s = np.linalg.svd(A[:, 1:], compute_uv=False)
    return out[0], max(out) - min(out) < 1e-8 and s[-1] > 1e-9 * s[0] or max(out) - min(out) < 1e-8 and len(set(map(tuple, np.round(X, 9).T.tolist()))) < X.shape[1]


@facet(reward_case(), quick=2000, thorough=30000, shards=3, case_s=60)
def reward(case, ctx):
    import torch
    m, c = M(), case
    vs = list(c["vars"])
    sent = tokens(c["terms"], c["end"])
    terms = distinct(c["terms"])
    malformed = False
    if c["trunc"]:
        sent = (sent[:-1] if c["end"] else sent) + [3]                    # ends in the middle of a term
        malformed = True
    built = [surrogate(k, vs) for k in c["cases"]]
    dbs = [torch.tensor(p, dtype=torch.float64, requires_grad=True) for _, _, p in built]
    mask = m.get_mask_invalid(vs)
    mask0 = mask.clone()
    w2v = {}
    fz = Frozen(sent=sent, vs=vs)
    with np.errstate(all="ignore"):
        out, w2v, mask = m.calculate_reward(sent, [b[0] for b in built], dbs, w2v, mask, vs, [1] * len(built), [len(b[2]) for b in built])
    fz.verify("calculate_reward")
    for d, b in zip(dbs, built):
        check(bool((d.detach().numpy() == b[2]).all()), "evaluation points changed")
    out = float(out)
    check(np.isfinite(out), "the reward is not a finite number", got=out)
    check(out <= 1 + 1e-12, "reward above 1", got=out)
    words = {w for t in terms for w in [t[0], *(p[1] for p in t[1:])]}
    if malformed:
        check(out == 0, "malformed candidate has a reward", got=out)
        ctx.label("malformed")
        return
    if any(r <= words for r in RED):
        check(out == 0, "redundant candidate has a reward", got=out)
        ctx.label("redundant")
        return
    named = set().union(*(spelled(w) for w in words))
    lap = any("Laplace" in w for w in words)
    if not set(vs) <= named and not lap:
        check(out == 0, "candidate without one of the coordinates has a reward", got=out)
        ctx.label("incomplete")
        return
    scores, bad = [], set()
    with np.errstate(all="ignore"):
        for (net, params, pts), k in zip(built, c["cases"]):
            A, b, shaky = columns(terms, params, k["act"], pts, vs)
            bad |= b
            if shaky:
                raise Skip("denominator close to zero")
            A = A[~np.isinf(A).any(axis=1)]
            if np.isnan(A).any():
                ctx.label("case without value")
                continue
            if len(A) == 0:
                raise Skip("no point left")
            r2, ok = fit_score(A)
            if not ok:
                raise Skip("score undetermined")
            scale = np.abs(A).max(axis=0)
            total = A.shape[1]
            if any(np.abs(A[:, j] - A[:, 0]).max() <= 1e-9 * scale[0] and key(terms[j]) != key(terms[0]) for j in range(1, total)):
                raise Skip("a term equal to the first one, written differently")
            near = 1
            for j in range(1, total):
                near += all(np.abs(A[:, j] - A[:, i]).max() > 1e-9 * scale[i] for i in range(j))
            scores.append((r2, near, total))
    # identical columns may or may not coincide to the last bit: any count in between is accepted
    if not scores:
        check(out == 0, "a candidate with no value anywhere has a reward", got=out)
        ctx.label("no value")
    else:
        lo = np.mean([min((1 - 0.02 * np.log10(n)) * r for n in (a, b)) for r, a, b in scores])
        hi = np.mean([max((1 - 0.02 * np.log10(n)) * r for n in (a, b)) for r, a, b in scores])
        tol = 1e-6 * (1 + max(abs(r) for r, _, _ in scores))
        check(lo - tol <= out <= hi + tol, "reward", got=out, expected=(lo, hi))
    for w in words:
        if bad and w in bad:
            check(float(mask[m.word2id[w]]) == 0, "a word without a value stays available", word=w)
    for i in range(len(mask)):
        if m.id2word[i] not in bad:
            check(float(mask[i]) == float(mask0[i]), "availability of an unrelated word changed", word=m.id2word[i])
    for w in words - {"sqrt(u)", "(uxx+ux/x)^2"}:
        v, _ = Q.value(w, built[-1][1], c["cases"][-1]["act"], built[-1][2], vs)
        check(np.allclose(np.asarray(w2v[w]).ravel(), v, rtol=1e-6, atol=1e-7 * (1 + np.nanmax(np.abs(v[np.isfinite(v)]), initial=0)), equal_nan=True), "recorded word value", word=w)
    ctx.nontrivial(len(terms) > 1)
    ctx.label("terms%d" % len(terms))
    ctx.label("nets%d" % len(scores))


def spelled(word):
    """Coordinates named by a word."""
    e = Q.parse(word)
    return Q.axes(e)


# ---------------------------------------------------------------- ranking
@st.composite
def board_case(draw):
    epochs = draw(st.integers(1, 5))
    per = draw(st.integers(1, 30))
    pool = draw(st.sampled_from([3, 8, 15, 60, 10 ** 6]))
    if draw(st.sampled_from([True, False, False, False])):     # most candidates share a few rewards
        per *= 12
    return {"unit": draw(st.sampled_from([7, 7, 1e5, 3e6])), "epochs": [draw(st.lists(st.integers(-pool // 4, pool), min_size=per, max_size=per)) for _ in range(epochs)]}


def sent_of(i, j):
    return [6, 2, 7 + (i * 31 + j) % 50, 2 + (i + j) % 3, 7 + (i * 7 + j * 5) % 50, 1]


@facet(board_case(), quick=800, thorough=12000)
def ranking(case, ctx):
    import torch
    from kd.model.kd_eqgpt import KD_EqGPT
    m = M()
    award = sentence = None
    seen = {}
    ties = False
    for e, rs in enumerate(case["epochs"]):
        r = torch.tensor([x / case["unit"] for x in rs])
        ss = [sent_of(e, j) for j in range(len(rs))]
        fz = Frozen(ss=[list(s) for s in ss])
        r0 = r.clone()
        idx, best = m.find_min_no_repeat(r, samples=len(rs))
        want = sorted(set(r.tolist()), reverse=True)[:10]
        eq(list(best), want, "best distinct rewards of one epoch")
        eq([r.tolist()[i] for i in idx], want, "positions of the best rewards")
        award, sentence = KD_EqGPT._update_top10(e, r, ss, award, sentence, m.find_min_no_repeat, len(rs))
        check(bool((r == r0).all()), "rewards changed")
        fz.verify("candidate sentences")
        for v, s in zip(r.tolist(), ss):
            ties |= v in seen
            seen.setdefault(v, []).append(s)
        want = sorted(seen, reverse=True)[:10]
        eq(list(award), want, f"leader board after epoch {e}")
        eq(len(sentence), len(award), "equations on the leader board")
        for v, s in zip(award, sentence):
            check(s in seen[v], "equation on the leader board belongs to another reward", got=s, expected=seen[v])
    ids = m.word2id
    eqs, rew = KD_EqGPT._format_results(sentence, award, m.id2word, m.delete_duplicate, ids)
    train = KD_EqGPT._prepare_train_data(sentence, award, ids, m.id2word, m.delete_duplicate)
    eq(list(rew), list(award), "reported rewards")
    for s, text, tr in zip(sentence, eqs, train):
        words = [m.id2word[i] for i in m.delete_duplicate(s)[:-1]]
        eq(text, "".join(words), "reported equation")
        eq([m.id2word[i] for i in tr], ["S", *words, "E"], "fine-tuning sentence")
    eq(len(eqs), len(award), "number of reported equations")
    eq(len(train), len(award), "number of fine-tuning sentences")
    ctx.nontrivial(ties or len(seen) > 10)
    ctx.label("grows", 10 > len(set(case["epochs"][0])) < len(seen))
    ctx.label("full", len(seen) > 10)


# ---------------------------------------------------------------- batches, mask, language model
@facet(st.fixed_dictionaries({"sents": st.lists(terms_of(["ut", "ux", "u^2", "x"], 1, 6), min_size=1, max_size=10), "batch": st.integers(1, 10)}), quick=300, thorough=4000)
def batches(case, ctx):
    import torch.utils.data as Data
    m = M()
    data = [[5, *tokens(t)] for t in case["sents"]]
    keep = [list(s) for s in data]
    ds = m.MyDataSet(data)
    for rep in range(2):
        k = 0
        for inp, out in Data.DataLoader(ds, batch_size=case["batch"], collate_fn=ds.padding_batch):
            part = keep[k:k + case["batch"]]
            w = max(map(len, part)) - 1
            eq(inp.tolist(), [s[:-1] + [0] * (w - len(s) + 1) for s in part], "model input")
            eq(out.tolist(), [s[1:] + [0] * (w - len(s) + 1) for s in part], "expected output")
            k += len(part)
        eq(k, len(data), "number of sentences")
    eq(data, keep, "sentences changed")
    ctx.nontrivial(len({len(s) for s in keep}) > 1)


@facet(enum=lambda: [{"vars": list(v)} for v in (["t", "x"], ["x", "t"], ["x", "y"], ["y", "x", "t"], ["x"], ["t", "x", "y", "z"], ["z", "y", "x"], ["t", "y", "x"])])
def mask(case, ctx):
    m = M()
    vs = list(case["vars"])
    mk = m.get_mask_invalid(vs)
    eq(len(mk), len(m.id2word), "length of the mask")
    eq(vs, list(case["vars"]), "variables changed")
    allowed = [w for i, w in enumerate(m.id2word) if float(mk[i])]
    for w in ("E", "+", "*", "/"):
        check(w in allowed, "operator masked", word=w)
    for i, w in enumerate(m.id2word):
        check(float(mk[i]) in (0.0, 1.0), "mask value")
        if i > 5 and float(mk[i]):
            check(Q.axes(Q.parse(w)) <= set(vs), "a word that needs a missing coordinate is available", word=w)
        if i > 5 and not ({"t", "x", "y", "z"} & set(w.replace("sint", "t").replace("sin", "s"))) and "Laplace" not in w:
            check(float(mk[i]) == 1, "a word of u alone is not available", word=w)
    check("ux" in allowed, "ux not available")
    ctx.nontrivial(True)


@contextlib.contextmanager
def small_gpt():
    import kd.model.eqgpt.gpt_model as g
    new = dict(d_model=24, d_ff=32, d_k=8, d_v=8, n_layers=2, n_heads=2)
    old = {k: getattr(g, k) for k in new}
    for k, v in new.items():
        setattr(g, k, v)
    try:
        yield g
    finally:
        for k, v in old.items():
            setattr(g, k, v)


@facet(st.fixed_dictionaries({"seed": st.integers(0, 10 ** 6), "vars": st.sampled_from(VARS), "n": st.integers(1, 12), "bad": st.lists(st.integers(6, 56), max_size=20), "scale": st.sampled_from([1.0, 5.0])}),
       quick=200, thorough=3000, shards=2)
def sampling(case, ctx):
    """Sampled sentences alternate words and operators and use only available words; predictions never look ahead."""
    import torch
    m = M()
    with small_gpt() as g:
        torch.manual_seed(case["seed"])
        model = g.GPT()
        with torch.no_grad():
            model.projection.weight.mul_(case["scale"])
        random.seed(case["seed"]); np.random.seed(case["seed"])
        mk = m.get_mask_invalid(list(case["vars"]))
        for i in case["bad"]:
            if m.id2word[i] != "ux":
                mk[i] = 0
        mk0 = mk.clone()
        longest = []
        for _ in range(case["n"]):
            s = [5, 6, 2]
            while len(s) < g.max_pos - 1:
                before = list(s)
                nxt, _ = model.step(s, mk)
                eq(s, before, "sentence changed while sampling")
                s.append(int(nxt))
                if nxt == 1:
                    break
            for k, w in enumerate(s[3:], 3):
                if k % 2:
                    check(w > 5 and float(mk[w]) == 1, "an unavailable word was sampled", got=m.id2word[w], place=k)
                else:
                    check(w in (1, 2, 3, 4), "an operator was expected", got=m.id2word[w], place=k)
            check(1 not in s[:-1], "sentence continues after its end")
            if len(s) > len(longest):
                longest = s
        check(bool((mk == mk0).all()), "mask changed while sampling")
        model.eval()
        with torch.no_grad():
            full = model(torch.tensor([longest]))[0]
            cut = max(1, len(longest) // 2)
            head = model(torch.tensor([longest[:cut]]))[0]
            check(torch.allclose(full[:cut], head, atol=1e-4), "the prediction for a prefix depends on what follows it")
            pad = model(torch.tensor([longest[:cut] + [0, 0]]))[0]
            check(torch.allclose(pad[:cut], head, atol=1e-4), "padding changes the prediction")
    ctx.nontrivial(len(longest) > 6)


# ---------------------------------------------------------------- whole searches
@st.composite
def run_case(draw):
    return {"seed": draw(st.integers(0, 1000)), "epochs": draw(st.integers(1, 3)), "samples": draw(st.integers(1, 9)), "filter": draw(st.sampled_from(["N", "all"])),
            "names": draw(st.lists(st.sampled_from(["N_G2Tp12A080", "N_G1Tp10A060", "L_G2Tp12A080_broad", "N_G3Tp14A100"]), unique=True, min_size=1, max_size=2)),
            "data": draw(st.integers(0, 10 ** 6)), "noise": draw(st.integers(0, 99))}


def one_run(case, root, noise):
    import torch
    import kd.model.kd_eqgpt as K
    m = M()
    np.random.seed(noise); torch.manual_seed(noise); random.seed(noise)
    hist, seen = [], {}
    orig = m.calculate_reward

    def record(s, nets, dbs, w2v, mk, vs, nx, nt):
        s0 = list(s)
        out = orig(s, nets, dbs, w2v, mk, vs, nx, nt)
        hist.append((s0, float(np.float32(out[0]))))
        seen["args"] = (nets, dbs, list(vs), nx, nt)
        return out
    old = K._DATA_DIR
    K._DATA_DIR = root
    for mod in (m, K):
        if hasattr(mod, "calculate_reward"):
            mod.calculate_reward = record
    try:
        with small_gpt(), quiet(), np.errstate(all="ignore"):
            model = K.KD_EqGPT(optimize_epochs=case["epochs"], samples_per_epoch=case["samples"], case_filter=case["filter"], seed=case["seed"], retrain_surrogate=True, surrogate_epochs=2)
            res = model.fit_pretrained()
    finally:
        K._DATA_DIR = old
        for mod in (m, K):
            if hasattr(mod, "calculate_reward"):
                mod.calculate_reward = orig
    return res, hist, seen["args"]


@facet(run_case(), quick=24, thorough=200, shards=3, case_s=300)
def search(case, ctx):
    import pathlib
    import torch
    m = M()
    names = list(case["names"])
    if case["filter"] == "N" and not any("N" in n for n in names):
        names.append("N_G1Tp10A060")
    r = np.random.default_rng(case["data"])
    root = pathlib.Path(os.getcwd()) / "eqgpt"
    (root / "gpt_model").mkdir(parents=True, exist_ok=True)
    with small_gpt() as g:
        torch.manual_seed(case["data"])
        torch.save(g.GPT().state_dict(), root / "gpt_model" / "PDEGPT_wave_breaking.pt")
    data = {n: np.column_stack([np.tile(np.linspace(0, 0.45, 10), 6), np.repeat(np.linspace(8.2, 12.5, 6), 10), r.normal(0, 0.01, 60)]) for n in names}
    with open(root / "wave_breaking_data.pkl", "wb") as f:
        pickle.dump(data, f)
    res, hist, (nets, dbs, vs, nx, nt) = one_run(case, root, 1)
    eq(len(hist), case["epochs"] * case["samples"], "number of candidates scored")
    used = [n for n in sorted(names) if case["filter"] == "all" or "N" in n]
    eq(len(nets), len(used), "number of cases used")
    for db, n in zip(dbs, used):
        tp = int(n.split("Tp")[1][:2]) / 10
        lam = 9.81 * tp ** 2 / (2 * np.pi)
        x = np.concatenate([np.linspace(a, b, 50) for a, b in ((8.18, 9.34), (9.77, 10.93), (11.41, 12.57))])
        t = np.arange(0.15, 0.45 - 0.1, 0.05)
        want = np.stack([a.ravel() for a in np.meshgrid(t / tp, (x - 8.17) / lam, indexing="ij")], 1)
        check(db.shape == want.shape and np.allclose(db.detach().numpy(), want, atol=1e-6), "evaluation points of a case")
    best = {}
    for s, w in hist:
        best.setdefault(w, []).append(s)
    want = sorted(best, reverse=True)[:10]
    eq(list(res["rewards"]), want, "reported rewards")
    eq(len(res["equations"]), len(want), "number of reported equations")
    for text, w in zip(res["equations"], res["rewards"]):
        texts = []
        for s in best[w]:
            words = [m.id2word[i] for i in s]
            if words[-1] == "E":
                words = words[:-1]
            check(words[0] == "ut", "candidate does not start with ut")
            texts.append("".join(dedupe(words)))
        check(text in texts, "reported equation does not have that reward", got=text, expected=texts)
    eq(res["best_equation"], res["equations"][0], "best equation")
    eq(res["best_reward"], res["rewards"][0], "best reward")
    s0 = best[res["rewards"][0]][0]
    with quiet(), np.errstate(all="ignore"):
        again = m.calculate_reward(list(s0), nets, dbs, {}, m.get_mask_invalid(vs), vs, nx, nt)[0]
    check(float(np.float32(again)) == res["best_reward"], "scoring the best candidate again gives another reward", got=float(again), expected=res["best_reward"])
    res2, hist2, _ = one_run(case, root, 2 + case["noise"])
    eq([s for s, _ in hist2], [s for s, _ in hist], "same seed, other candidates")
    eq(res2, res, "same seed, other result")
    ctx.nontrivial(len(best) > 1)
    ctx.label("board%d" % len(want))


def dedupe(words):
    """Concise form of a sentence given as words (possibly ending in an operator)."""
    parts, cur = [], []
    for w in words:
        if w == "+":
            parts.append(cur); cur = []
        else:
            cur.append(w)
    parts.append(cur)
    out, seen = [], set()
    for p in parts:
        if len(p) % 2:
            k = key([p[0], *[[p[i], p[i + 1]] for i in range(1, len(p), 2)]])
        else:
            k = tuple(p)
        if k not in seen:
            seen.add(k)
            out.append(p)
    res = []
    for p in out:
        res += [*p, "+"]
    return res[:-1]


@facet(st.fixed_dictionaries({"field": st.sampled_from(["pretrained", "optimize_epochs", "samples_per_epoch", "case_filter", "seed"]), "v": st.sampled_from(["wave", 0, -1, 1.5, "3", "n", "", None])}), quick=40, thorough=40)
def options(case, ctx):
    from kd.model.kd_eqgpt import KD_EqGPT
    f, v = case["field"], case["v"]
    ok = f == "seed" and v == 0
    if f == "seed" and not isinstance(v, int):
        raise Skip("type of the seed is not checked")
    try:
        m = KD_EqGPT(**{f: v})
    except (TypeError, ValueError):
        check(not ok, "valid option rejected", option=f, value=v)
    else:
        check(ok, "invalid option accepted", option=f, value=v)
        eq(getattr(m, f), v, "option")
    ctx.nontrivial(True)
