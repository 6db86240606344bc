"""C27: visualization requests reach the right adapter and write only where asked."""
import triton._C.libtriton  # noqa: F401
import contextlib
import io
import os
import subprocess
import sys
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, vizmodels as M
from vlib.core import check, eq, facet, raises
from vlib.plots import recording
from vlib.sgaref import quiet

TECHNIQUE = ("model-based property testing: random class hierarchies with random histories of registrations, removals and requests against a dictionary-and-MRO reference; random histories of real "
             "plot requests and output locations with every file that changes on disk accounted for; configuration histories with the style seen by the adapter compared to the stated merge")
RULE = "non-trivial: a request answered after at least two registrations or two plots written"

KINDS = ["equation", "parity", "residual", "tree"]


def viz():
    import kd.viz
    return kd.viz


def reset():
    v = viz()
    v.clear_registry()
    v.register_default_adapters()


class Recorder:
    def __init__(self, num, kinds, fail=False):
        self.num, self.capabilities, self.calls, self.fail = num, kinds, [], fail

    def render(self, request, ctx):
        self.calls.append((request, ctx))
        if self.fail:
            raise ArithmeticError("adapter")
        self.result = viz().VizResult(intent=request.kind, metadata={"by": self.num})
        return self.result


@st.composite
def hierarchies(draw):
    n = draw(st.integers(2, 7))
    bases = [draw(st.lists(st.integers(0, i - 1), max_size=2, unique=True)) if i else [] for i in range(n)]
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("register"), st.integers(0, n - 1), st.integers(0, 4)), st.tuples(st.just("register"), st.integers(0, n - 1), st.integers(0, 4)),
        st.tuples(st.just("unregister"), st.integers(0, n - 1)), st.tuples(st.just("lazy"), st.integers(0, n - 1), st.integers(-1, 4)),
        st.tuples(st.just("clear")), st.tuples(st.sampled_from(["query", "query", "class", "caps"]), st.integers(0, n - 1), st.sampled_from(KINDS)),
        st.tuples(st.sampled_from(["query", "query"]), st.integers(0, n - 1), st.sampled_from(KINDS)), st.tuples(st.just("foreign"), st.integers(0, 3))), min_size=3, max_size=25))
    return {"bases": bases, "ops": ops, "caps": [draw(st.lists(st.sampled_from(KINDS), unique=True, max_size=4)) for _ in range(5)]}


@facet(hierarchies(), quick=500, thorough=10000)
def dispatch(c, ctx):
    """The adapter of the nearest registered class in the method resolution order serves the request."""
    v = viz()
    from kd.viz.registry import register_lazy_adapter
    classes = []
    for i, b in enumerate(c["bases"]):
        try:
            classes.append(type(f"Model{i}", tuple(classes[j] for j in b) or (object,), {}))
        except TypeError:                                  # no consistent method resolution order
            classes.append(type(f"Model{i}", (), {}))
    ad = [Recorder(i, list(k) if i % 2 else set(k)) for i, k in enumerate(c["caps"])]
    eager, lazy, asked, regs = {}, {}, 0, 0

    def expected(cls):
        for k in cls.__mro__:
            if k not in eager and k in lazy:
                a = lazy.pop(k)
                if a is not None:
                    eager[k] = a
            if k in eager:
                return eager[k]
        return None
    try:
        v.clear_registry()
        for op in c["ops"]:
            if op[0] == "register":
                v.register_adapter(classes[op[1]], ad[op[2]])
                eager[classes[op[1]]] = ad[op[2]]
                regs += 1
            elif op[0] == "unregister":
                if classes[op[1]] in lazy:
                    continue                                # what removing an unresolved lazy adapter means is not defined
                v.unregister_adapter(classes[op[1]])
                eager.pop(classes[op[1]], None)
            elif op[0] == "lazy":
                k, a = classes[op[1]], (ad[op[2]] if op[2] >= 0 else None)
                register_lazy_adapter(k.__name__, lambda k=k, a=a: (k, a) if a is not None else (None, None))
                lazy[k] = a
                regs += 1
            elif op[0] == "clear":
                v.clear_registry()
                eager.clear(); lazy.clear()
            elif op[0] == "foreign":
                t = [None, 3, "text", {}][op[1]]
                r = v.render(v.VizRequest("equation", t))
                check(r.warnings and not r.paths and r.figure is None, "a request for something that is no model", target=t)
                eq(list(v.list_capabilities(t)), [], "capabilities of something that is no model")
            else:
                cls = classes[op[1]]
                want = expected(cls)
                t = cls if op[0] == "class" else cls()
                n = [len(a.calls) for a in ad]
                if op[0] == "caps":
                    eq(sorted(v.list_capabilities(t)), sorted(want.capabilities) if want else [], "capabilities")
                    continue
                req = v.VizRequest(op[2], t, {"k": op[1]})
                r = v.render(req)
                asked += 1
                got = [len(a.calls) - k for a, k in zip(ad, n)]
                if want is None or op[2] not in want.capabilities:
                    check(not any(got), "an adapter was called for a plot it does not offer", calls=got)
                    check(r.warnings and not r.paths and r.figure is None and not r.has_content, "unsupported request without a warning")
                    eq(r.intent, op[2], "intent of the warning")
                else:
                    eq(got, [int(a is want) for a in ad], "adapters called (by number)")
                    check(r is want.result, "the adapter's result was not returned")
                    q, x = want.calls[-1]
                    check(q is req and x.options == {"k": op[1]}, "request or options changed on the way")
            eq({k.__name__: a.num for k, a in v.iter_registered()}, {k.__name__: a.num for k, a in eager.items()}, "registered adapters")
    finally:
        reset()
    ctx.nontrivial(asked >= 1 and regs >= 2)
    ctx.label("lazy", any(o[0] == "lazy" for o in c["ops"]))
    ctx.label("several bases", any(len(b) > 1 for b in c["bases"]))


HELPERS = {"plot_training_curve": "training_curve", "plot_validation_curve": "validation_curve", "plot_search_evolution": "search_evolution", "plot_optimization": "optimization",
           "plot_time_slices": "time_slices", "render_equation": "equation", "plot_residuals": "residual", "plot_field_comparison": "field_comparison",
           "plot_derivative_relationships": "derivative_relationships", "plot_parity": "parity"}
EXTRA = ["density", "tree", "spr_residual", "spr_field_comparison", "nonsense", ""]
MODELS = ["KD_DLGA", "KD_SGA", "KD_Discover", "KD_Discover_SPR", "KD_Discover_Regression", "KD_PySR", "KD_EqGPT", "DLGA"]


def model_class(name):
    import kd.model
    if name == "DLGA":
        from kd.model.dlga import DLGA
        return DLGA
    if name == "KD_Discover_Regression":
        from kd.model.kd_discover_regression import KD_Discover_Regression
        return KD_Discover_Regression
    return getattr(kd.model, name)


@facet(None, enum=lambda: [{"model": m, "depth": d, "fresh": f} for m in MODELS for d in (0, 1, 2) for f in (True, False)])
def defaults(c, ctx):
    """For each shipped model and for subclasses of it: an unfitted model never raises or writes; every listed plot is known to the adapter and no other."""
    v = viz()
    if c["fresh"]:
        reset()
    cls = model_class(c["model"])
    for i in range(c["depth"]):
        cls = type(f"Mine{i}", (cls,), {})
    m = object.__new__(cls)
    caps = sorted(v.list_capabilities(m))
    eq(sorted(v.list_capabilities(cls)), caps, "capabilities of the class")
    has = c["model"] not in ("KD_EqGPT", "DLGA")
    check(bool(caps) == has, "capabilities", got=caps)
    eq(sorted(v.list_capabilities(object.__new__(model_class(c["model"])))), caps, "a subclass has other capabilities than its base")
    known = {"KD_DLGA": 10, "KD_SGA": 5, "KD_PySR": 3}.get(c["model"], 9 if has else 0)
    check(len(caps) >= known, "plots that used to be offered are gone", got=caps)
    os.makedirs("quiet", exist_ok=True)
    with contextlib.chdir("quiet"), quiet():
        for k in sorted(set(HELPERS.values()) | set(EXTRA)):
            r = v.render(v.VizRequest(k, m))
            check(r.intent == k and r.warnings and not r.paths and not r.has_content, f"{k} of an unfitted model", warnings=r.warnings, paths=[str(p) for p in r.paths])
            said = any("not support" in w or "No visualization adapter" in w for w in r.warnings)
            check(said == (k not in caps), f"{k}: the warning contradicts the listed capabilities", warnings=r.warnings)
        for h, k in HELPERS.items():
            r = getattr(v, h)(m, show_info=False)
            eq(r.intent, k, f"kind requested by {h}")
        left = sorted(str(p) for p in Path(".").rglob("*") if p.is_file())
        eq(left, [], "files written by requests that failed")
    ctx.nontrivial(has)


# ---------------------------------------------------------------- files

FIELD = dict(x_coords=np.linspace(0, 1, 5), t_coords=np.linspace(0, 2, 4))


def build(spec):
    kind, seed = spec
    if kind == "dlga":
        return M.dlga(seed)
    if kind == "sga":
        return M.sga(seed)
    if kind == "discover":
        return M.discover(seed)
    from kd.model.kd_pysr import KD_PySR
    m = KD_PySR()
    r = np.random.default_rng(seed)

    class Back:
        def predict(self, X):
            return X[:, 0]

        def latex(self):
            return "x_{0}"
    m._model, m.X_train_, m.y_train_, m.best_equation_ = Back(), r.normal(size=(6, 2)), r.normal(size=6), "x0"
    return m


OFFERS = {"dlga": ["training_curve", "validation_curve", "search_evolution", "optimization", "equation", "residual", "field_comparison", "time_slices", "derivative_relationships", "parity"],
          "sga": ["equation", "field_comparison", "time_slices", "parity", "residual"], "discover": ["search_evolution", "density"], "pysr": ["equation", "parity", "residual"]}


def options(model, kind, seed):
    r = np.random.default_rng(seed)
    if model == "dlga" and kind in ("field_comparison", "time_slices"):
        return {**FIELD, "true_field": r.normal(size=(5, 4)), "predicted_field": r.normal(size=(5, 4))}
    if model == "dlga" and kind == "residual":
        return {"actual": r.normal(size=6), "predicted": r.normal(size=6)}
    return {}


places = st.sampled_from([None, "out", "out", "deep/er/dir", "ABS/one", "ABS/two/three", ".", "with space"])
requests = st.tuples(st.just("plot"), st.sampled_from([(m, k) for m in OFFERS for k in OFFERS[m]]), G.seeds, places, st.booleans())


@facet(st.fixed_dictionaries({"ops": st.lists(st.one_of(requests, requests, st.tuples(st.just("configure"), places), st.tuples(st.just("style")), st.tuples(st.just("cd"), st.sampled_from(["here", "there"])),
                                                        st.tuples(st.just("helper"), st.sampled_from([(m, k) for m in OFFERS for k in OFFERS[m] if k != "density"]), G.seeds, places),
                                                        st.tuples(st.just("wrong"), st.sampled_from(list(OFFERS)), st.sampled_from(EXTRA), places)), min_size=2, max_size=7)}),
       quick=120, thorough=2500, shards=2, case_s=120)
def files(c, ctx):
    """Histories of plots with changing locations: what is reported exists, is fresh, lies where asked, and nothing else is touched outside."""
    import shutil
    v = viz()
    root = Path("tree").resolve()
    shutil.rmtree(root, ignore_errors=True)
    for d in ("here", "there", "abs"):
        (root / d).mkdir(parents=True)
    place = lambda p: None if p is None else (str(root / "abs" / p[4:]) if p.startswith("ABS/") else p)
    saved, home, plots = None, os.getcwd(), 0
    from kd.viz._style import get_config
    cfg = get_config()
    cfg.save_dir = None
    os.chdir(root / "here")
    stamp = lambda: {str(p): (p.stat().st_mtime_ns, p.stat().st_size) for p in root.rglob("*") if p.is_file()}
    try:
        with recording(stamp=True) as shots:
            for op in c["ops"]:
                if op[0] == "configure":
                    saved = place(op[1])
                    v.configure(save_dir=saved)
                    continue
                if op[0] == "style":
                    v.configure(style={})  # leaves the folder alone
                    continue
                if op[0] == "cd":
                    os.chdir(root / op[1])
                    continue
                before = {p: Path(p).read_bytes() for p in stamp()}
                out = place(op[3])
                opts = {} if out is None else {"output_dir": out if op[0] != "plot" or op[4] else Path(out)}
                say = io.StringIO()
                if op[0] == "wrong":
                    kind = op[2]
                    m = build((op[1], 1))
                    if kind in v.list_capabilities(m):
                        continue
                    r = v.render(v.VizRequest(kind, m, opts))
                    check(r.warnings and not r.paths, "an unsupported request produced something")
                    eq(sorted(stamp()), sorted(before), "files after an unsupported request")
                    continue
                (name, kind), seed = op[1], op[2]
                m = build((name, seed))
                opts.update(options(name, kind, seed))
                base = Path(out if out is not None else (saved if saved is not None else ".")).resolve()
                with contextlib.redirect_stdout(say):
                    if op[0] == "helper":
                        h = next(h for h, k in HELPERS.items() if k == kind)
                        r = getattr(v, h)(m, **opts)
                    else:
                        r = v.render(v.VizRequest(kind, m, opts))
                check(not r.warnings and r.paths and r.has_content, f"{name} {kind} was not plotted", warnings=r.warnings)
                eq(r.intent, kind, "intent")
                after = {p: Path(p).read_bytes() for p in stamp()}
                changed = {p for p in after if before.get(p) != after[p]}
                rep = {str(Path(p).resolve()) for p in r.paths}
                for p in rep:
                    check(p in after, f"{name} {kind} reports a file that does not exist", path=p)
                    check(p in changed, f"{name} {kind} reports a file it did not refresh", path=p)
                    check(Path(p).is_relative_to(base), f"{name} {kind} was written somewhere else", path=p, base=str(base))
                check(set(before) <= set(after), "plotting removed files", gone=sorted(set(before) - set(after)))
                check(changed <= rep, f"{name} {kind} leaves files it does not report", files=sorted(changed - rep))
                if op[0] == "helper":
                    for p in r.paths:
                        check(str(p) in say.getvalue(), "the saved path is not announced", said=say.getvalue())
                plots += 1
    finally:
        os.chdir(home)
        cfg.save_dir = None
        shutil.rmtree(root, ignore_errors=True)
    ctx.nontrivial(plots >= 2)
    ctx.label("repeat", len({(tuple(o[1]), o[3]) for o in c["ops"] if o[0] == "plot"}) < sum(o[0] == "plot" for o in c["ops"]))


BAD = [r"x_{0", r"\frac{1}", r"\nosuchmacro{x}", r"a $ b", r"{", r"u_{t} = \left( x"]
GOOD = [r"x_{0}^{2}", r"\frac{a}{b} + \sin(x)", r"u_{t} = - 0.5 u u_{x}"]


@facet(st.fixed_dictionaries({"model": st.sampled_from(["pysr", "sga", "discover", "dlga"]), "first": st.sampled_from([None] + GOOD), "tex": st.sampled_from(BAD + GOOD), "half": st.booleans()}), quick=24, thorough=200, shards=2, case_s=60)
def unrenderable(c, ctx):
    """An equation either appears as an image or as a warning; an earlier image is never passed off as the new one."""
    import shutil
    from unittest import mock
    v = viz()
    shutil.rmtree("eqn", ignore_errors=True)
    m = build((c["model"], 3))
    dlga_name = "kd.viz._adapters.dlga.dlga_eq2latex"

    def ask(tex):
        with contextlib.ExitStack() as s:
            s.enter_context(contextlib.redirect_stdout(io.StringIO()))
            if c["model"] == "pysr":
                m.equation_latex = lambda lhs="y": tex
            elif c["model"] == "sga":
                m.equation_latex = lambda include_coefficients=True, notation="subscript": tex if (include_coefficients or not c["half"]) else "a"
            elif c["model"] == "dlga":
                s.enter_context(mock.patch(dlga_name, lambda **k: tex))
            else:
                m.best_p = object()
                s.enter_context(mock.patch("kd.viz._adapters.discover.discover_program_to_latex", lambda *a, **k: tex))
            return v.render(v.VizRequest("equation", m, {"output_dir": "eqn"}))
    import logging
    logging.disable(logging.CRITICAL)
    try:
        if c["first"]:
            r = ask(c["first"])
            check(not r.warnings and r.paths, "an ordinary equation was not drawn", warnings=r.warnings)
        old = {p: p.read_bytes() for p in Path("eqn").rglob("*.png")}
        marks = {p: p.stat().st_mtime_ns for p in old}
        r = ask(c["tex"])
    finally:
        logging.disable(logging.NOTSET)
    for p in r.paths:
        check(Path(p).exists() and Path(p).read_bytes()[:4] == b"\x89PNG", "reported image is missing", path=str(p))
        check(p not in marks or Path(p).stat().st_mtime_ns != marks[p], "an old image is reported for a new equation", path=str(p), tex=c["tex"])
    check(bool(r.paths) != bool(r.warnings), "neither an image nor a warning", tex=c["tex"])
    if c["tex"] in GOOD:
        check(r.paths, "an ordinary equation was not drawn", tex=c["tex"], warnings=r.warnings)
    ctx.nontrivial(bool(c["first"]))
    ctx.label("rendered" if r.paths else "warned")


# ---------------------------------------------------------------- style

styles = st.dictionaries(st.sampled_from(["font.size", "axes.labelsize", "lines.linewidth", "savefig.dpi", "xtick.labelsize"]), st.sampled_from([5, 9, 13]), max_size=3)


@facet(st.fixed_dictionaries({"ops": st.lists(st.one_of(st.tuples(st.just("configure"), styles), st.tuples(st.just("render"), st.one_of(st.none(), styles), st.booleans()),
                                                        st.tuples(st.just("rc"), styles)), min_size=2, max_size=8)}), quick=200, thorough=3000)
def style(c, ctx):
    """The style of a request is default, then configured, then its own; afterwards matplotlib is as the caller left it."""
    import matplotlib
    from kd.viz._style import DEFAULT_STYLE, get_config
    v = viz()
    cfg = get_config()

    class Model:
        pass
    seen = []

    class Ad(Recorder):
        def render(self, request, ctx):
            seen.append(dict(matplotlib.rcParams))
            matplotlib.rcParams["lines.markersize"] = 77
            return super().render(request, ctx)
    current, n = dict(DEFAULT_STYLE), 0
    outer = dict(matplotlib.rcParams)
    backup = dict(cfg.style)
    try:
        v.configure(style={})
        for op in c["ops"]:
            if op[0] == "configure":
                mine = dict(op[1])
                v.configure(style=mine)
                eq(mine, op[1], "the caller's style")
                current = {**DEFAULT_STYLE, **op[1]}
            elif op[0] == "rc":
                matplotlib.rcParams.update(op[1])
            else:
                a = Ad(0, ["equation"], fail=op[2])
                v.register_adapter(Model, a)
                before = dict(matplotlib.rcParams)
                o = {} if op[1] is None else {"style": dict(op[1])}
                if op[2]:
                    raises(ArithmeticError, lambda: v.render(v.VizRequest("equation", Model(), o)), "a failing adapter was hidden")
                else:
                    v.render(v.VizRequest("equation", Model(), o))
                probe = matplotlib.RcParams({k: x for k, x in {**current, **(op[1] or {})}.items()})
                bad = {k: (seen[-1][k], probe[k]) for k in probe if seen[-1][k] != probe[k]}
                check(not bad, "style seen by the adapter (got, expected)", bad=bad)
                other = {k: (seen[-1][k], before[k]) for k in before if k not in probe and str(seen[-1][k]) != str(before[k])}
                check(not other, "settings nobody asked for", other=other)
                now = dict(matplotlib.rcParams)
                left = {k: (now[k], before[k]) for k in before if str(now[k]) != str(before[k])}
                check(not left, "settings left behind by a request (now, before)", left=left)
                eq({k: x for k, x in cfg.style.items()}, current, "configured style after a request")
                n += 1
    finally:
        v.unregister_adapter(Model)
        v.configure(style=backup)
        dict.update(matplotlib.rcParams, outer)
    ctx.nontrivial(n >= 1 and len(c["ops"]) >= 3)


ORDERS = ["import kd.viz as v; import kd.model", "import kd.model; import kd.viz as v", "import kd.viz.api; import kd.viz as v; from kd.model import KD_SGA", "from kd.model.kd_pysr import KD_PySR; import kd.viz as v",
          "from kd.viz import render; import kd.viz as v; import kd.viz.adapters", "import kd.viz as v; v.clear_registry(); v.register_default_adapters(); v.register_default_adapters()"]


@facet(None, enum=lambda tier="quick": [{"order": o} for o in (ORDERS if tier == "thorough" else ORDERS[:4])], case_s=180)
def import_order(c, ctx):
    """Every shipped model finds its adapter whatever is imported first."""
    code = ("import triton._C.libtriton\n" + c["order"] + "\nimport kd.model\nimport sys\nassert 'juliacall' not in sys.modules and 'pysr' not in sys.modules\n"
            "from kd.model import KD_DLGA, KD_SGA, KD_Discover, KD_Discover_SPR, KD_PySR\n"
            "print([len(v.list_capabilities(k)) for k in (KD_DLGA, KD_SGA, KD_Discover, KD_Discover_SPR, KD_PySR)])\n")
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, timeout=170)
    check(p.returncode == 0, "import failed", err=p.stderr[-300:])
    got = eval(p.stdout.strip().splitlines()[-1])
    check(all(g >= w for g, w in zip(got, [10, 5, 9, 9, 3])), "models without their plots", got=got)
    ctx.nontrivial(True)
