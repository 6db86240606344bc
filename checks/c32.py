"""C32: the search policy is sampled from, and trained on, exactly the constrained distribution it defines."""
import triton._C.libtriton  # noqa: F401
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import discref as R, gens as G
from vlib.core import Frozen, check, close, eq, facet
from vlib.sgaref import quiet

TECHNIQUE = ("property-based differential testing: random policies, libraries and constraint sets; batches sampled from the policy are re-scored step by step with an independent "
             "double-precision reference (own state encoding, own constraint masks) and one training step is compared with the gradient of the reference objective")
RULE = "non-trivial: two or more sequences of different lengths with different rewards"


@st.composite
def cases(draw):
    s = draw(R.all_libs(need=("add", "mul") if draw(st.booleans()) else ("sub", "sin")))
    return {"s": s, "max": draw(st.one_of(st.integers(4, 12), st.integers(10, 24))), "n": draw(st.integers(1, 8)), "n2": draw(st.integers(1, 8)), "steps": draw(st.sampled_from([1, 1, 2, 3])), "seed": draw(G.seeds),
            "cell": draw(st.sampled_from(["lstm", "lstm", "gru"])), "layers": draw(st.sampled_from([1, 1, 2])), "scale": draw(st.sampled_from([0.3, 1.0, 2.0])),
            "obs": draw(st.sampled_from(["ps", "ps", "p", "s", "aps", "psd", "apsd", "d"])), "soft": draw(st.booleans()),
            "repeat": draw(st.sampled_from([None, 1, 2])), "trig": draw(st.booleans()),
            "gamma": draw(st.sampled_from([1.0, None, 0.7])), "w": draw(st.sampled_from([0.0, 0.005, 0.3])), "lr": draw(st.sampled_from([0.001, 0.1])),
            "pqt": draw(st.sampled_from(["off", "off", "only", "both"])), "pqtw": draw(st.sampled_from([1.0, 20.0])),
            "r": draw(st.lists(st.floats(0, 1, width=32), min_size=8, max_size=8)), "b": draw(st.floats(0, 1, width=32))}


def encode(c, names, ar, seq):
    """Observations of the beginnings of a sequence."""
    L, funs = len(names), [i for i, a in enumerate(ar) if a > 0]
    hot = lambda k, n: [float(j == k) for j in range(n)]
    x = []
    for t in range(len(seq)):
        P = R.Partial(seq[:t], ar)
        v = []
        if "a" in c["obs"]:
            v += hot(L if t == 0 else seq[t - 1], L + 1)
        if "p" in c["obs"]:
            v += hot(len(funs) if P.parent is None else funs.index(P.parent), len(funs) + 1)
        if "s" in c["obs"]:
            v += hot(L if P.sibling is None else P.sibling, L + 1)
        if "d" in c["obs"]:
            v.append(float(P.dangling))
        x.append(v)
    return x


def probabilities(c, names, ar, pre, prior_of, cell):
    """Distribution of the token after `pre`."""
    import torch
    x = encode(c, names, ar, pre + [0])
    out, _ = cell.cell(torch.tensor([x], dtype=torch.float64))
    return torch.softmax(cell.fc(out)[0, -1] + torch.tensor(np.asarray(prior_of(pre)).reshape(-1), dtype=torch.float64), -1).numpy()


def reference(c, con, names, ar, rows, lengths, prior_of, cell):
    """(neglogp, entropy) per row in double precision, with gradients to the parameters of `cell`."""
    import torch
    neg, ent = [], []
    L = len(names)
    g = 1.0 if c["gamma"] is None else c["gamma"]
    for seq, k in zip(rows, lengths):
        x = encode(c, names, ar, seq)
        out, _ = cell.cell(torch.tensor([x[:k]], dtype=torch.float64))
        logits = cell.fc(out)[0] + torch.tensor(np.array([prior_of(seq[:t]) for t in range(k)]), dtype=torch.float64)
        logp = torch.log_softmax(logits, -1)
        p = torch.exp(logp)
        neg.append(-sum(logp[t, seq[t]] for t in range(k)))
        ent.append(sum(g ** t * -sum(p[t, i] * logp[t, i] for i in range(L) if p[t, i] > 0) for t in range(k)))
    return torch.stack(neg), torch.stack(ent)


def policy(c):
    """(controller, library, constraint function, names, arities) of a case."""
    import torch
    from kd.model.discover.controller import Controller
    from kd.model.discover.dso.prior import make_prior
    from kd.model.discover.program import Program
    from kd.model.discover.state_manager import make_state_manager
    from kd.model.discover.task.pde.pde import PDETask
    lib = R.library(c["s"])
    task = PDETask.__new__(PDETask)
    task.library, task.stochastic, task.task_type = lib, False, "pde" if c["s"]["pde"] else "regression"
    R.set_program(lib)
    Program.set_task(task)
    names, ar = lib.names, [R.arity(n) for n in lib.names]
    torch.manual_seed(c["seed"] % 2 ** 31)
    np.random.seed(c["seed"] % 2 ** 31)
    cfg = {"length": {"min_": None, "max_": c["max"], "on": True}}
    if c["soft"]:
        cfg["soft_length"] = {"loc": 4, "scale": 2, "on": True}
    if c["repeat"]:
        cfg["repeat"] = {"tokens": [n for n in names if R.arity(n)][0], "min_": None, "max_": c["repeat"], "on": True}
    if c["trig"]:
        cfg["trig"] = {"on": True}
    with quiet():
        prior = make_prior(lib, cfg)
        sm = make_state_manager({"observe_action": "a" in c["obs"], "observe_parent": "p" in c["obs"], "observe_sibling": "s" in c["obs"], "observe_dangling": "d" in c["obs"]})
        con = Controller(prior, sm, cell=c["cell"], num_layers=c["layers"], num_units=4, initializer="var_scale", optimizer="sgd", learning_rate=c["lr"],
                         entropy_weight=c["w"], entropy_gamma=c["gamma"], pqt=c["pqt"] != "off", pqt_use_pg=c["pqt"] == "both", pqt_weight=c["pqtw"], max_length=c["max"])
        with torch.no_grad():
            for p in con.cell.parameters():
                p.add_(torch.randn_like(p) * c["scale"])

    def prior_of(seq):
        if not seq:
            return prior.initial_prior()
        P = R.Partial(seq, ar)
        par = lib.EMPTY_PARENT if P.parent is None else int(lib.parent_adjust[P.parent])
        sib = lib.EMPTY_SIBLING if P.sibling is None else P.sibling
        return prior(np.array([seq], dtype=np.int32), np.array([par]), np.array([sib]), np.array([P.dangling]))[0]

    return con, lib, prior_of, names, ar


@facet(cases(), quick=60, thorough=2500, shards=4)
def objective(case, ctx):
    """Likelihood, entropy and gradient steps of sampled batches."""
    import torch
    from kd.model.discover.dso.memory import Batch
    c = case
    con, lib, prior_of, names, ar = policy(c)
    batches = []
    for n in (c["n"], c["n2"]):
        with quiet(), torch.no_grad():
            A, O, Q, _, _ = con.sample_episodes(n)
        eq([list(A.shape), list(O.shape), list(Q.shape)], [[n, con.max_length], [n, 4, con.max_length], [n, con.max_length, lib.L]], "shapes of the sampled batch")
        rows = [[int(v) for v in a] for a in A]
        lengths = [R.complete_length(r, ar)[0] for r in rows]
        check(None not in lengths, f"sampled sequence is not complete: {rows}")
        for r, k in zip(rows, lengths):
            for t in range(k):
                want = prior_of(r[:t])
                got = Q[rows.index(r), t].numpy()
                check(np.allclose(got, want, rtol=1e-6, atol=1e-6), f"recorded constraints at position {t} of {[names[i] for i in r[:k]]}: {got}, expected {want}")
                check(np.isfinite(want[r[t]]), f"token {names[r[t]]} at position {t} of {[names[i] for i in r[:k]]} is forbidden")
        rew = np.array(c["r"][:n], dtype=np.float64)
        batches.append((Batch(actions=A, obs=O, priors=Q, lengths=torch.tensor(lengths, dtype=torch.int32), rewards=torch.tensor(rew), on_policy=torch.ones(n, dtype=torch.bool)), rows, lengths, rew))
    for k in range(c["steps"]):
        one_step(c, con, names, ar, prior_of, batches, k)
        batches.reverse()
    lengths, rew = batches[0][2:]
    ctx.nontrivial(len(set(lengths)) > 1 and len(set(rew.tolist())) > 1)
    ctx.label(c["cell"]); ctx.label(f"queue training {c['pqt']}"); ctx.label("batch of one", c["n"] == 1); ctx.label("sizes differ", c["n"] != c["n2"])
    ctx.label("several steps", c["steps"] > 1); ctx.label("long sequences", max(lengths) > 12)


def one_step(c, con, names, ar, prior_of, batches, k):
    """Likelihoods, entropies and one step of training with the current weights."""
    import torch
    (B, rows, lengths, rew), (B2, rows2, lengths2, _) = batches
    cell = copy.deepcopy(con.cell).double()
    neg, ent = reference(c, con, names, ar, rows, lengths, prior_of, cell)
    neg2, _ = reference(c, con, names, ar, rows2, lengths2, prior_of, cell)
    keep = Frozen(actions=B.actions.numpy(), obs=B.obs.numpy(), priors=B.priors.numpy(), lengths=B.lengths.numpy())
    with torch.no_grad():
        gn, ge = con.make_neglogp_and_entropy(B)
    text = f"{[','.join(names[i] for i in r[:k]) for r, k in zip(rows, lengths)]}"
    close(gn.numpy(), neg.detach().numpy(), f"negative log-likelihood of {text}", rtol=2e-4, atol=2e-4)
    close(ge.numpy(), ent.detach().numpy(), f"entropy along {text}", rtol=2e-4, atol=2e-4)
    # one step of training
    loss = -c["w"] * ent.mean()
    if c["pqt"] in ("off", "both"):
        loss = loss + ((torch.tensor(rew) - float(c["b"])) * neg).mean()
    if c["pqt"] != "off":
        loss = loss + c["pqtw"] * neg2.mean()
    ps = list(cell.parameters())
    grads = torch.autograd.grad(loss, ps, allow_unused=True)
    before = [p.detach().clone() for p in con.cell.parameters()]
    with quiet():
        con.train_step(float(c["b"]), B, B2)
    keep.verify("batch used for training")
    scale = max([1e-3] + [float(g.abs().max()) for g in grads if g is not None])
    for (name, p), b, g in zip(con.cell.named_parameters(), before, grads):
        want = np.zeros(tuple(b.shape)) if g is None else g.numpy()
        got = (b.double() - p.detach().double()).numpy() / c["lr"]
        tol = 3e-3 * scale + 4e-7 * (1 + float(b.abs().max())) / c["lr"]
        check(np.all(np.abs(got - want) <= tol), f"training step {k + 1} on {text} with rewards {rew.tolist()}, baseline {c['b']}: {name} moved by {got.reshape(-1)[:6]} lr, gradient {want.reshape(-1)[:6]}")


@facet(cases(), quick=16, thorough=400, shards=2)
def frequencies(case, ctx):
    """How often each token follows a given beginning, over thousands of draws, against the policy's own probabilities."""
    import torch
    c = {**case, "max": min(case["max"], 8)}
    con, lib, prior_of, names, ar = policy(c)
    cell = copy.deepcopy(con.cell).double()
    N = 3000
    with quiet(), torch.no_grad():
        A = con.sample_episodes(N)[0].numpy()
    seen = 0
    for t in range(3):
        groups = {}
        for row in A:
            pre = tuple(int(v) for v in row[:t])
            if t == 0 or R.complete_length(list(pre), ar)[0] is None:
                groups.setdefault(pre, []).append(int(row[t]))
        for pre, nxt in sorted(groups.items(), key=lambda kv: -len(kv[1]))[:4]:
            n = len(nxt)
            if n < 100:
                continue
            with torch.no_grad():
                p = probabilities(c, names, ar, list(pre), prior_of, cell)
            k = np.bincount(nxt, minlength=len(names))
            bad = np.abs(k - n * p) > 6.5 * np.sqrt(n * p * (1 - p)) + 4
            check(not bad.any(), f"after {[names[i] for i in pre]}: drawn {k.tolist()} times of {n}, probabilities {np.round(p, 4).tolist()}")
            check(not np.any(k[p == 0]), f"after {[names[i] for i in pre]}: forbidden tokens drawn")
            seen += int(np.sum((p > 0.02) & (p < 0.98)) > 1)
    ctx.nontrivial(seen > 0)
    ctx.label(c["cell"]); ctx.label("several beginnings", seen > 2)
