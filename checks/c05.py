"""C05: estimator parameters round-trip."""
import triton._C.libtriton  # noqa: F401  (must precede TensorFlow)
import inspect

from hypothesis import strategies as st

from kd.base import BaseEstimator
from kd.model import KD_DLGA, KD_Discover, KD_Discover_Regression, KD_Discover_SPR, KD_PySR, KD_SGA, DLGA
from vlib import gens as G
from vlib.core import check, eq, facet, raises

TECHNIQUE = ("model-based property testing: random histories of construct / set_params / clone on every estimator class "
             "and on synthetic nested estimators, compared with a plain dictionary model")
RULE = "non-trivial: at least two parameters are given non-default values and at least one set_params call follows"

OPS = ["add", "mul", "sub", "div", "n2", "n3", "diff", "diff2"]
ints = st.integers(1, 500)
probs = st.floats(0, 1)
oplist = st.lists(st.sampled_from(OPS), max_size=4, unique=True)
sga = dict(sga_run=ints, num=ints, depth=ints, width=ints, p_var=probs, p_mute=probs, p_cro=probs, seed=st.integers(0, 99),
           use_autograd=st.booleans(), max_epoch=ints, use_metadata=st.booleans(), delete_edges=st.booleans(),
           target_field=st.sampled_from([None, "u", "v"]), lhs_axis=st.sampled_from([None, "t", "y"]),
           primary_spatial_axis=st.sampled_from([None, "x", "y"]))
disc = dict(n_iterations=ints, n_samples_per_batch=ints, binary_operators=oplist, unary_operators=oplist,
            out_path=st.sampled_from(["./log/", "a/b", None]), core_num=st.integers(1, 4), seed=st.integers(0, 99),
            config_out=st.sampled_from([None, {"training": {"epsilon": 0.05}}, {"task": {"metric_params": [0.02]}}]))
dlga = dict(epi=st.floats(0, 1), input_dim=st.integers(1, 4), max_iter=ints)
CLS = {"KD_SGA": (KD_SGA, sga, ()), "KD_Discover": (KD_Discover, disc, ()), "KD_Discover_SPR": (KD_Discover_SPR, disc, ()),
       "KD_Discover_Regression": (KD_Discover_Regression, disc, ()),
       "KD_PySR": (KD_PySR, dict(niterations=ints, binary_operators=oplist, unary_operators=oplist,
                                 extra_model_kwargs=st.dictionaries(st.sampled_from(["maxsize", "parsimony"]), ints, max_size=2)), ()),
       "DLGA": (DLGA, dlga, ("epi", "input_dim")),
       "KD_DLGA": (KD_DLGA, dict(dlga, operators=st.lists(st.sampled_from(["u", "u_x", "u_xx", "u_t"]), min_size=1, unique=True),
                                 verbose=st.booleans()), ("operators", "epi", "input_dim"))}


@st.composite
def history(draw):
    name = draw(st.sampled_from(sorted(CLS)))
    _, space, req = CLS[name]
    opt = [k for k in sorted(space) if k not in req]
    init = {k: draw(space[k]) for k in list(req) + draw(st.lists(st.sampled_from(opt), unique=True, max_size=len(opt)))}
    steps = []
    for _ in range(draw(st.integers(0, 4))):
        kind = draw(st.sampled_from(["set", "set", "bad", "clone", "empty"]))
        if kind == "set":
            ks = draw(st.lists(st.sampled_from(sorted(space)), unique=True, min_size=1, max_size=4))
            steps.append(["set", {k: draw(space[k]) for k in ks}])
        elif kind == "bad":
            steps.append(["bad", draw(st.sampled_from(["nope", "num2", "epi_", "Seed", "nope__a", "operator_list"]))])
        else:
            steps.append([kind])
    return {"cls": name, "init": init, "steps": steps}


def expect(est, model, what):
    got = est.get_params(deep=False)
    eq(sorted(got), sorted(model), f"{what}: parameter names of {type(est).__name__}")
    for k in model:
        eq(got[k], model[k], f"{what}: parameter {k} of {type(est).__name__}")
        eq(getattr(est, k), model[k], f"{what}: attribute {k}")
    r = repr(est)
    check(r.startswith(type(est).__name__ + "("), f"repr {r[:80]}")
    for k in model:
        check(repr(k) in r, f"{what}: repr does not mention {k}")


def defaults(cls, space):
    d = {}
    for c in reversed(cls.__mro__):
        if "__init__" in c.__dict__:
            for p in inspect.signature(c.__init__).parameters.values():
                if p.default is not inspect.Parameter.empty:
                    d[p.name] = p.default
    return {k: d[k] for k in space if k in d}


@facet(history, quick=500, thorough=8000, shards=4)
def estimators(c, ctx):
    cls, space, req = CLS[c["cls"]]
    est = cls(**c["init"])
    model = {**defaults(cls, space), **c["init"]}
    if c["cls"] == "KD_PySR" and model["extra_model_kwargs"] is None:
        model["extra_model_kwargs"] = {}
    expect(est, model, "construction")
    nset = 0
    for i, s in enumerate(c["steps"]):
        if s[0] == "set":
            r = est.set_params(**s[1])
            check(r is est, "set_params does not return the estimator")
            model.update(s[1])
            nset += 1
        elif s[0] == "bad":
            if s[1] in space:
                continue
            raises(ValueError, lambda: est.set_params(**{s[1]: 1}), f"unknown parameter {s[1]!r}")
            check(s[1].split("__")[0] not in est.get_params(), "an unknown parameter was stored")
        elif s[0] == "clone":
            est = cls(**est.get_params(deep=False))
        else:
            est.set_params()
        expect(est, model, f"after step {i} {s[0]}")
        if c["cls"] == "KD_DLGA":
            eq(est.library_size, len(model["operators"]), "library_size follows operators")
    ctx.label(c["cls"]); ctx.nontrivial(len(c["init"]) >= 2 and nset > 0)


class Leaf(BaseEstimator):
    def __init__(self, a=1, b="q", under_score=None):
        self.a, self.b, self.under_score = a, b, under_score


class Node(BaseEstimator):
    def __init__(self, left=None, right=None, gain=0.5, a=7, **kw):
        self.left, self.right, self.gain, self.a = left, right, gain, a


SCALAR = st.one_of(st.integers(-5, 5), st.text("ab", max_size=2), st.none())


def tree(depth):
    leaf = st.fixed_dictionaries({"k": st.just("leaf"), "a": SCALAR, "b": SCALAR, "under_score": SCALAR})
    if depth == 0:
        return leaf
    sub = st.one_of(st.none(), leaf, tree(depth - 1))
    return st.fixed_dictionaries({"k": st.just("node"), "left": sub, "right": sub, "gain": SCALAR, "a": SCALAR})


@st.composite
def nested(draw):
    return {"tree": draw(tree(2)), "steps": [[draw(st.integers(0, 99)), draw(SCALAR), draw(st.integers(1, 3))]
                                           for _ in range(draw(st.integers(1, 5)))]}


def build(t):
    if t is None:
        return None
    if t["k"] == "leaf":
        return Leaf(t["a"], t["b"], t["under_score"])
    return Node(build(t["left"]), build(t["right"]), t["gain"], t["a"])


def flat(t, pre=""):
    out = {}
    for k, v in t.items():
        if k == "k":
            continue
        if isinstance(v, dict):
            out.update(flat(v, pre + k + "__"))
        else:
            out[pre + k] = v
    return out


def flat_est(e, sub, pre=""):
    """Scalar entries of get_params(deep=True), and the nested entries it must contain."""
    return {k: v for k, v in e.get_params(deep=True).items() if not isinstance(v, BaseEstimator)}


@facet(nested, quick=600, thorough=15000)
def nested_params(c, ctx):
    e, t = build(c["tree"]), c["tree"]
    eq(flat_est(e, t), flat(t), "deep parameters")
    for idx, val, n in c["steps"]:
        f = flat(t)
        keys = sorted(f)
        upd = {keys[(idx + 13 * j) % len(keys)]: (val if j == 0 else j) for j in range(n)}
        upd = {k: v for k, v in upd.items()}
        r = e.set_params(**upd)
        check(r is e, "set_params does not return the estimator")
        for k, v in upd.items():
            d = t
            *path, last = k.split("__")
            for p in path:
                d = d[p]
            d[last] = v
        eq(flat_est(e, t), flat(t), f"after set_params({upd})")
        ctx.nontrivial(any("__" in k for k in upd) and n > 1)
    # replacing a contained estimator and setting the new one's own parameters in the same call, at any depth
    if c["steps"][0][0] % 3 == 0 and t["k"] == "node":
        side = "left" if c["steps"][0][0] % 2 else "right"
        sub = {"k": "node", "left": {"k": "leaf", "a": 1, "b": 2, "under_score": 3}, "right": None, "gain": 0, "a": None}
        upd = [(side, build(sub)), (side + "__a", c["steps"][0][1]), (side + "__left__b", 9)]
        e.set_params(**dict(upd))
        sub["a"], sub["left"]["b"] = c["steps"][0][1], 9
        t = {**t, side: sub}
        eq(flat_est(e, t), flat(t), f"after replacing {side} and setting {side}__a and {side}__left__b together")
    for bad in ("zz", "left__zz", "right__a__b"):
        top = bad.split("__")[0]
        sub = getattr(e, top, None)
        if bad == "right__a__b" or (("__" in bad) and not isinstance(sub, BaseEstimator)):
            continue
        raises(ValueError, lambda: e.set_params(**{bad: 1}), f"unknown parameter {bad}")
    eq(flat_est(e, t), flat(t), "after rejected parameters")
    # shallow view: exactly the constructor parameters, holding the very sub-objects
    sh = e.get_params(deep=False)
    eq(sorted(sh), sorted(k for k in t if k != "k"), "shallow parameters")
    for k in sh:
        check(sh[k] is getattr(e, k), f"shallow parameter {k} is not the object held")


@facet(enum=lambda: [{"bad": b} for b in ("varargs",)])
def varargs_rejected(c, ctx):
    class V(BaseEstimator):
        def __init__(self, *args):
            pass
    ctx.nontrivial()
    raises(RuntimeError, lambda: V._get_param_names(), "estimator with *args")


@facet(st.fixed_dictionaries({"b": oplist, "u": oplist, "cls": st.sampled_from(["KD_Discover", "KD_Discover_Regression"]),
                              "b2": oplist}), quick=150, thorough=2000)
def parameters_take_effect(c, ctx):
    """The operator set derived from the parameters follows set_params."""
    cls = CLS[c["cls"]][0]
    e = cls(binary_operators=list(c["b"]), unary_operators=list(c["u"]))

    def want(b, u):
        w = list(b) + list(u)
        return w + ["const"] if w and cls is KD_Discover_Regression else w
    eq(list(e.operator), want(c["b"], c["u"]), "operators")
    e.set_params(binary_operators=c["b2"])
    eq(list(e.operator), want(c["b2"], c["u"]), "operators after set_params")
    ctx.nontrivial(bool(c["b2"]) and c["b"] != c["b2"])


@facet(st.fixed_dictionaries({"order": st.permutations(["left", "left__a", "gain", "right__b"]), "v": SCALAR, "w": SCALAR, "g": SCALAR}),
       quick=150, thorough=2000)
def replace_and_set(c, ctx):
    """Replacing a contained estimator and setting its parameters in one call acts on the new one."""
    old, new, right = Leaf(1, "o"), Leaf(2, "n"), Leaf(3, "r")
    e = Node(left=old, right=right, gain=0.1)
    vals = {"left": new, "left__a": c["v"], "gain": c["g"], "right__b": c["w"]}
    e.set_params(**{k: vals[k] for k in c["order"]})
    check(e.left is new, "the contained estimator was not replaced")
    eq((new.a, new.b), (c["v"], "n"), "new contained estimator"); eq((old.a, old.b), (1, "o"), "replaced estimator")
    eq((right.a, right.b), (3, c["w"]), "other contained estimator"); eq(e.gain, c["g"], "own parameter")
    ctx.nontrivial(c["v"] != 2)
