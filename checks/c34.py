"""C34: the web form trains what it shows and shows what it trained."""
import triton._C.libtriton  # noqa: F401
import contextlib
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import gens as G
from vlib import vizmodels as V
from vlib import webapp as W
from vlib.core import arr_eq, check, eq, facet
from vlib.sgaref import quiet

TECHNIQUE = ("stateful property-based testing: generated histories of filling in the form, training, submitting, polling and plotting are played on the application's own "
             "event wiring (in-memory form, emulated job platform, recorded fits) and compared with a model of the form; some trainings use the real models")
RULE = "non-trivial: a training was started with at least one field changed by the user, or a plot or picture was produced"
ASSUMPTIONS = "gradio and bohrium_open_sdk are not installed: an in-memory form with the same component, update and event semantics and a platform in a scratch folder stand in. Most trainings replace only the models' fit methods by recorders; the `real` facet runs the models."
KEYS = {"KD_SGA": "sga", "KD_DLGA": "dlga", "KD_DSCV": "discover", "KD_DSCV_SPR": "discover_spr"}
CLASS = {"KD_SGA": "KD_SGA", "KD_DLGA": "KD_DLGA", "KD_DSCV": "KD_Discover", "KD_DSCV_SPR": "KD_Discover_SPR", "KD_EqGPT": "KD_EqGPT"}
OFFLINE = ("KD_DLGA", "KD_DSCV_SPR")
# what a labelled field means to the model: label -> (parameter or fit argument, kind)
FIELDS = {
    "SGA": {"SGA runs": "sga_run", "Population size": "num", "Tree depth": "depth", "Seed": "seed"},
    "DLGA": {"Operators (comma-separated)": "operators", "Sparsity penalty (epi)": "epi", "NN max iterations": "max_iter", "Sample points": "*sample"},
    "DSCV": {"Binary operators": "binary_operators", "Unary operators": "unary_operators", "Samples per batch": "n_samples_per_batch", "Search epochs": "*n_epochs", "Seed": "seed"},
    "SPR": {"Observation ratio (sample_ratio)": "*sample_ratio", "PINN search epochs": "*n_epochs"},
    "EqGPT": {"Optimize epochs": "optimize_epochs", "Samples per epoch": "samples_per_epoch", "Case filter": "case_filter"},
}
GROUPS = {"KD_SGA": ["SGA"], "KD_DLGA": ["DLGA"], "KD_DSCV": ["DSCV"], "KD_DSCV_SPR": ["DSCV", "SPR"], "KD_EqGPT": ["EqGPT"]}
OPS = {"Operators (comma-separated)": ["u", "u_x", "u_xx", "u_xxx", "u_tt"], "Binary operators": ["add", "mul", "diff", "add_t", "mul_t", "diff_t"], "Unary operators": ["n2", "n3", "sin", "n2_t"]}


def registry():
    from kd.dataset._registry import PDE_REGISTRY
    return PDE_REGISTRY


def offered(name):
    m = registry()[name].get("models", {})
    return [k for k, v in KEYS.items() if m.get(v, False)] + ["KD_EqGPT"]


def active():
    return sorted(n for n, i in registry().items() if i.get("status") != "pending")


@contextlib.contextmanager
def folder():
    from kd.viz._style import get_config
    d, cwd, old = tempfile.mkdtemp(), os.getcwd(), tempfile.tempdir
    os.chdir(d)
    os.makedirs("tmp")
    tempfile.tempdir = os.path.join(d, "tmp")
    get_config().save_dir = None
    W.Platform.current = W.Platform(os.path.join(d, "cloud"))
    shutil.rmtree(W.outputs_dir(), ignore_errors=True) if "KD_JOB_OUTPUT_DIR" in os.environ else None
    try:
        yield d
    finally:
        import matplotlib.pyplot as plt
        plt.close("all")
        get_config().save_dir = None
        tempfile.tempdir = old
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- the form


def oplist(draw, label):
    ops = draw(st.lists(st.sampled_from(OPS[label]), min_size=1, max_size=4, unique=True))
    return draw(st.sampled_from([",", ", ", " , "])).join(ops) + draw(st.sampled_from(["", ",", " "]))


def field_value(draw, label):
    if label in OPS:
        return oplist(draw, label)
    if label == "Sparsity penalty (epi)":
        return draw(st.sampled_from([0.1, 0.0123, 1, 0.505, 0.0031]))
    if label.startswith("Observation"):
        return draw(st.integers(1, 100)) / 100
    if label == "Case filter":
        return draw(st.sampled_from(["N only (12 cases)", "All (23 cases)"]))
    if label == "Sample points":
        return draw(st.sampled_from([None, 0, 1, 33, 500]))
    return draw(st.integers(1, 999))


ident = st.text("abcu_xt123", min_size=1, max_size=5)


@st.composite
def equations(draw):
    kind = draw(st.sampled_from(["latex", "dollar", "program", "odd", "none"]))
    c = draw(st.integers(-999, 999)) / 100
    return {"kind": kind, "c": c, "text": {"latex": f"u_t = {c} u u_x + {c} u_{{xx}}", "dollar": f"$u_t = {c} u_x^{{2}}$", "program": f"{c} * mul_t(u1,diff_t(u1,x1)) + {c} * n2(u1)", "odd": f"u_x_x ^^ {{{c}", "none": None}[kind]}


MODELS = ["KD_SGA", "KD_DLGA", "KD_DSCV", "KD_DSCV_SPR", "KD_EqGPT"]
COOKIES = ["appAccessKey=AK; clientName=me", "a=b; clientName=me; appAccessKey=AK2"]


@st.composite
def sessions(draw):
    """Blocks of steps: fill in (fields of the chosen model, or any), train here, train offline, and single steps."""
    steps = []

    def fields(model, n):
        for _ in range(n):
            g = draw(st.sampled_from(GROUPS[model])) if model and draw(st.integers(0, 4)) else draw(st.sampled_from(sorted(FIELDS)))
            label = draw(st.sampled_from(sorted(FIELDS[g])))
            steps.append(["field", g, label, field_value(draw, label)])

    def poll(codes):
        steps.append(["poll", draw(st.sampled_from(codes)), draw(st.sampled_from(["", "12s"]))])

    for _ in range(draw(st.integers(1, 4))):
        block = draw(st.sampled_from(["local", "local", "offline", "offline", "single", "single"]))
        if block != "single":
            model = draw(st.sampled_from(MODELS if block == "local" else MODELS[1::2][:2]))
            if draw(st.booleans()):
                steps.append(["dataset", draw(st.integers(0, 40))])
            steps.append(["model", model])
            if draw(st.booleans()):
                steps += [["field", g, label, field_value(draw, label)] for g in GROUPS[model] for label in sorted(FIELDS[g])]
            else:
                fields(model, draw(st.integers(0, 5)))
            steps.append(["login", draw(st.sampled_from(COOKIES + ([None, "", "theme=dark"] if block == "local" else [])))])
            if block == "offline":
                steps += [["break", w, w == "submit" and draw(st.integers(0, 5)) == 0] for w in ("submit", "download")]
            steps.append(["train", draw(equations()), draw(st.sampled_from(["ok", "ok", "ok", "raise"]))])
            if block == "offline":
                if draw(st.integers(0, 2)) == 0:
                    steps.append(["break", "detail", True])
                    poll([4, "end"])
                    steps.append(["break", "detail", False])
                for _ in range(draw(st.integers(0, 2))):
                    poll([0, 1, 3, 4, 9, 99])
                fields(model, draw(st.integers(0, 2)))
                steps.append(["run", draw(st.sampled_from(["ok", "ok", "ok", "raise", "lost"]))])
                if draw(st.integers(0, 5)) == 0:
                    steps.append(["break", "download", True])
                poll([4, 12, 13, "end", "end", "end", "end"])
            steps += [[draw(st.sampled_from(["viz", "viz", "cancel"]))] for _ in range(draw(st.integers(0, 2)))]
        else:
            op = draw(st.sampled_from(["dataset", "model", "field", "train", "login", "run", "poll", "viz", "cancel", "break"]))
            if op == "dataset":
                steps.append([op, draw(st.integers(0, 40))])
            elif op == "model":
                steps.append([op, draw(st.sampled_from(MODELS))])
            elif op == "field":
                fields(None, 1)
            elif op == "train":
                steps.append([op, draw(equations()), draw(st.sampled_from(["ok", "raise"]))])
            elif op == "login":
                steps.append([op, draw(st.sampled_from(COOKIES + [None]))])
            elif op == "run":
                steps.append([op, draw(st.sampled_from(["ok", "raise", "lost"]))])
            elif op == "poll":
                poll([0, 4, 12, "end", "end"])
            elif op == "break":
                steps.append([op, draw(st.sampled_from(["submit", "detail", "download"])), draw(st.booleans())])
            else:
                steps.append([op])
    return {"steps": steps}


class Page:
    """The page and the components a user would recognise."""

    def __init__(self):
        self.ui = W.open_form()
        by = self.ui.by
        self.dataset, self.model = by("Dataset", "Dropdown"), by("Model", "Dropdown")
        self.start, self.stop, self.ask, self.draw = by("Start Training", "Button"), by("Cancel", "Button"), by("Check GPU Job", "Button"), by("Generate", "Button")
        self.equation, self.picture = by("Discovered Equation"), by("Equation Visualization")
        self.status, self.kind, self.plot, self.message = by("GPU Job Status"), by("Plot type (train a model first)"), by("Result", "Plot"), by("Status", "Textbox")
        self.trained = [c for h in self.draw.handlers for c in h["inputs"] if c.kind == "State"][0]
        self.job = [c for h in self.ask.handlers for c in h["inputs"] if c.kind == "State"][0]
        self.fields, self.groups = {}, {}
        current = None
        for c in self.ui.components:
            if c.kind == "Group":
                current = c
            elif c.kind == "Markdown" and "Parameters**" in str(c.value):
                name = str(c.value).strip("*").split()[0]
                self.groups[name] = current
            elif c.label and current is not None:
                g = [k for k, v in self.groups.items() if v is current]
                if g and c.label in FIELDS[g[0]]:
                    self.fields[g[0], c.label] = c
        eq(sorted(self.fields), sorted((g, k) for g in FIELDS for k in FIELDS[g]), "fields of the form")

    def shows(self):
        """The options the visible form names for the chosen model: {option: value}."""
        out = {}
        for g in GROUPS[self.model.value]:
            for label, opt in FIELDS[g].items():
                if self.model.value == "KD_DSCV_SPR" and label == "Search epochs":
                    continue  # the extra group has epochs of its own
                v = self.fields[g, label].value
                if opt.endswith("operators"):
                    v = [o.strip() for o in v.split(",") if o.strip()]
                if opt == "case_filter":
                    v = "N" if v.startswith("N") else "all"
                if opt == "*sample":
                    v = v or None
                out[opt] = v
        return out


def groups_visible(page, what):
    for g, c in page.groups.items():
        eq(bool(c.visible), g in GROUPS.get(page.model.value, []), f"{what}: visibility of the {g} parameters for {page.model.value}")


def expect_run(run, page_model, options, ds, what):
    eq(run.cls, CLASS[page_model], f"{what}: model")
    for k, v in options.items():
        got = run.kwargs[k[1:]] if k.startswith("*") else run.params[k]
        if k.endswith("operators"):
            got = list(got)
        eq(got, v, f"{what}: option {k.strip('*')}")
    if page_model != "KD_EqGPT":
        x, t, u = ds
        for a, b, n in ((run.dataset.x, x, "x"), (run.dataset.t, t, "t"), (run.dataset.usol, u, "field")):
            arr_eq(np.asarray(a), np.asarray(b), f"{what}: data {n}")
    if "seed" in options and page_model in ("KD_DSCV", "KD_DSCV_SPR"):
        eq(run.draw, float(np.random.RandomState(options["seed"]).rand()), f"{what}: random numbers do not follow the seed")


_data = {}


def data(name):
    from kd.dataset import load_pde
    if name not in _data:
        with quiet():
            d = load_pde(name)
        _data[name] = (d.x, d.t, d.usol)
    return _data[name]


def figure_says(fig, text, what):
    """A figure that can be drawn and carries the equation."""
    check(fig is not None, f"{what}: no picture of the equation {text!r}")
    fig.canvas.draw()
    texts = [t.get_text().strip("$") for a in fig.axes for t in a.texts]
    check(any(a.images for a in fig.axes) or text.strip("$") in texts, f"{what}: the picture shows {texts}, the equation is {text!r}")


def outcome_of(model, e):
    """What the recorded fit finds, and the text the page should show for it."""
    if model == "KD_SGA":
        return [("u", e["c"] or 1.5)], None
    return e["text"], e["text"]


@facet(sessions(), quick=320, thorough=8000, shards=4, case_s=120)
def session(c, ctx):
    """Histories on the page, compared with a model of what it should hold."""
    W.app()
    with folder(), quiet():
        page = Page()
        P = W.Platform.current
        loggedin, job, last, changed, trained_any = False, None, None, 0, 0
        eq(page.model.choices, offered(page.dataset.value), "models offered when the page opens")
        eq(list(page.dataset.choices), active(), "datasets offered")
        for step in c["steps"]:
            op = step[0]
            if op == "dataset":
                page.ui.set(page.dataset, page.dataset.choices[step[1] % len(page.dataset.choices)])
                eq(list(page.model.choices), offered(page.dataset.value), f"models offered for {page.dataset.value}")
                check(page.model.value in page.model.choices, "the selected model is not one of those offered")
                groups_visible(page, "dataset change")
            elif op == "model":
                old, new = page.model.value, step[1]
                if new not in page.model.choices:
                    continue
                page.ui.set(page.model, new)
                groups_visible(page, "model change")
                if old != new and new in ("KD_DSCV", "KD_DSCV_SPR"):
                    suffix = [o.endswith("_t") for f in ("Binary operators", "Unary operators") for o in page.fields["DSCV", f].value.replace(" ", "").split(",")]
                    check(all(suffix) if new == "KD_DSCV_SPR" else not any(suffix), f"operators preset for {new}: {page.fields['DSCV', 'Binary operators'].value}; {page.fields['DSCV', 'Unary operators'].value}")
            elif op == "field":
                if page.fields[step[1], step[2]].value != step[3]:
                    changed += 1
                page.ui.set(page.fields[step[1], step[2]], step[3])
            elif op == "login":
                page.ui.request = W.Request(step[1])
                loggedin = bool(step[1]) and "appAccessKey" in step[1]
            elif op == "break":
                P.fail[step[1]] = step[2]
            elif op == "train":
                model, name, opts = page.model.value, page.dataset.value, page.shows()
                found, text = outcome_of(model, step[1])
                before = set(P.jobs)

                def outcome(run):
                    return ValueError("cannot fit it") if step[2] == "raise" else found
                with W.recording(outcome) as runs:
                    page.ui.fire(page.start, "click")
                said = page.equation.value
                if loggedin and model in OFFLINE:
                    check(not runs, f"{model} was trained on the web node instead of being submitted")
                    new = set(P.jobs) - before
                    check(page.trained.value is None, "a submitted job left a trained model on the page")
                    if P.fail.get("submit"):
                        eq(new, set(), "jobs after a refused submission")
                        check("error" in said.lower(), f"a refused submission shows {said[:80]!r}")
                        job = None
                    else:
                        eq(len(new), 1, "submitted jobs")
                        job = new.pop()
                        last = None
                        P.jobs[job].update(model=model, name=name, opts=opts, found=found)
                        eq(page.job.value, job, "job the page follows")
                        check(str(job) in said, f"the page does not name the job: {said!r}")
                        eq((bool(page.status.visible), bool(page.ask.visible)), (True, True), "job status and its button shown")
                    continue
                trained_any += 1
                eq(len(runs), 1, f"fits started by the button ({said[:300] if isinstance(said, str) else said!r})")
                expect_run(runs[0], model, opts, data(name) if model != "KD_EqGPT" else None, "training")
                job = None
                check(page.job.value is None and not page.ask.visible, "a local training left a job on the page")
                if step[2] == "raise":
                    check(page.trained.value is None and "cannot fit it" in said, f"a failed training shows {said[:80]!r}")
                    continue
                if model == "KD_SGA":
                    text = runs[0].model.equation_latex()
                if text is None:
                    if model == "KD_EqGPT":
                        continue
                    check(isinstance(said, str) and said.startswith("("), f"a training that found nothing shows {said!r}")
                    check(page.picture.value is None, "a training that found nothing has a picture")
                else:
                    eq(said, text, "equation shown")
                    figure_says(page.picture.value, text, "training")
                check(page.trained.value is runs[0].model, "the page does not keep the trained model")
                last = runs[0].model
                from kd.viz.core import list_capabilities
                if model != "KD_EqGPT":
                    caps = {k for k in list_capabilities(last) if model == "KD_DSCV_SPR" or not k.startswith("spr_")}
                    eq((sorted(page.kind.choices), len(page.kind.choices)), (sorted(caps), len(caps)), f"plots offered for {model}")
                    check(page.kind.value in page.kind.choices, "the selected plot is not one of those offered")
            elif op == "run":
                if job is None or "ran" in P.jobs[job]:
                    continue
                j = P.jobs[job]
                j["ran"] = step[1]
                if step[1] == "lost":
                    continue
                with W.recording(lambda run: ValueError("cannot fit it") if step[1] == "raise" else j["found"]) as runs:
                    P.run(job)
                eq(len(runs), 1, "fits of the job")
                expect_run(runs[0], j["model"], j["opts"], data(j["name"]), "offline job")
                trained_any += 1
            elif op == "poll":
                if job is not None:
                    code = (10 if "ran" in P.jobs[job] else 4) if step[1] == "end" else step[1]
                    P.jobs[job].update(status=code, spend=step[2])
                page.ui.fire(page.ask, "click")
                said = page.equation.value
                check(page.trained.value is None or job is None, "polling a job made a model appear")
                if job is None:
                    check(page.job.value is None, "the page follows a job that is not there")
                    check("no active" in said.lower(), f"polling without a job shows {said[:80]!r}")
                    last = None
                    continue
                if P.fail.get("detail"):
                    eq(page.job.value, job, "job the page follows after a failed status request")
                    check("failed" in said.lower() and page.ask.visible, f"a failed status request shows {said[:80]!r}")
                    continue
                if code in (12, 13):
                    check(page.job.value is None and not page.ask.visible and "failed" in said.lower() and str(job) in said, f"a failed job shows {said[:80]!r}")
                    job = None
                elif code not in (10, 11):
                    eq(page.job.value, job, "job the page follows while it runs")
                    check(page.ask.visible and page.status.visible and str(job) in said and "running" in said.lower(), f"a running job shows {said[:80]!r}")
                elif P.fail.get("download"):
                    check("download failed" in said.lower(), f"a failed download shows {said[:80]!r}")
                    job = None
                else:
                    ran, found = P.jobs[job].get("ran"), P.jobs[job]["found"]
                    if ran == "ok" and found is not None:
                        eq(said, found, "equation of the finished job")
                        check(page.status.visible and str(job) in page.status.value, "the finished job is not named")
                    else:
                        check(isinstance(said, str) and said.startswith("("), f"a job without an equation shows {said!r}")
                        check(page.picture.value is None, "a job without an equation has a picture")
                    check(page.job.value is None and not page.ask.visible, "the page still follows a finished job")
                    job = None
            elif op == "viz":
                page.ui.fire(page.draw, "click")
                check(isinstance(page.message.value, str) and page.message.value, "plotting says nothing")
                if page.trained.value is None:
                    check(page.plot.value is None and "train a model" in page.message.value.lower(), f"plotting without a model shows {page.message.value!r}")
                eq(os.listdir("tmp"), [], "temporary files left behind by plotting")
            elif op == "cancel":
                page.ui.fire(page.stop, "click")
                check(page.trained.value is None and page.job.value is None and page.picture.value is None, "cancelling left something on the page")
                job, last = None, None
        ctx.nontrivial(changed > 0 and trained_any > 0)
        ctx.label(f"{min(trained_any, 3)} trainings")
        ctx.label("offline jobs", len(P.jobs) > 0)


# ---------------------------------------------------------------- datasets


@st.composite
def entries(draw):
    keys = ["sga", "dlga", "discover", "discover_spr", "pysr"]
    e = {"models": {k: draw(st.booleans()) for k in draw(st.lists(st.sampled_from(keys), unique=True))}} if draw(st.integers(0, 5)) else {}
    return {"entry": e, "name": draw(ident)}


@facet(entries(), quick=150, thorough=2000)
def choices(c, ctx):
    """Which models a dataset offers is what the registry records for it."""
    a = W.app()
    reg, name = registry(), "generated-" + c["name"]
    reg[name] = c["entry"]
    try:
        want = offered(name)
        ctx.nontrivial(len(want) > 1)
        got = a.on_dataset_change(name)
        eq((list(got["choices"]), got["value"] in got["choices"]), (want, True), "models offered")
    finally:
        del reg[name]


# ---------------------------------------------------------------- plots


@st.composite
def plots(draw):
    return {"model": draw(st.sampled_from(["dlga", "discover", "sga"])), "seed": draw(G.seeds), "n": draw(st.integers(1, 6)), "asks": draw(st.lists(st.integers(0, 30), min_size=1, max_size=3))}


@facet(plots(), quick=40, thorough=600, shards=2, case_s=120)
def plotted(c, ctx):
    """The plot on the page is the one the plotting facade draws; nothing is left behind."""
    from kd.viz._style import get_config
    from kd.viz.core import VizRequest, configure, list_capabilities, render
    a = W.app()
    with folder(), quiet():
        m = V.dlga(c["seed"], generations=c["n"]) if c["model"] == "dlga" else V.sga(c["seed"]) if c["model"] == "sga" else V.discover(c["seed"], iterations=c["n"])
        kinds = sorted(list_capabilities(m))
        done = 0
        for i in c["asks"]:
            kind = kinds[i % len(kinds)]
            want = why = None
            configure(save_dir=os.path.abspath("expected"))
            try:
                vr = render(VizRequest(kind, m))
                why = vr.warnings
                if not why and vr.paths:
                    want = W.picture(vr.paths[0])
            except Exception as e:
                why = [str(e)]
            configure(save_dir=None)
            shutil.rmtree("expected", ignore_errors=True)
            fig, said = a.run_viz(kind, m)
            if want is None:
                check(fig is None, f"{kind} was drawn although it cannot be ({why})")
                check(all(w in said for w in why or []), f"{kind}: the page says {said!r}, the facade {why}")
            else:
                done += 1
                check(fig is not None and kind in said, f"{kind}: the page says {said!r} and shows {fig}")
                shown = [np.asarray(im.get_array()) for ax in fig.axes for im in ax.images]
                check(len(shown) == 1, f"{kind}: {len(shown)} images on the page")
                arr_eq(np.asarray(shown[0], float), np.asarray(want, float), f"{kind}: picture on the page")
            eq(os.listdir("tmp"), [], "temporary files left behind")
            check(get_config().save_dir is None, f"later plots would go to {get_config().save_dir}")
        eq(sorted(os.listdir(".")), ["tmp"], "files left in the working folder")
        ctx.nontrivial(done > 0)
        ctx.label(f"{c['model']}: {done} drawn of {len(c['asks'])}")


# ---------------------------------------------------------------- real trainings


def trainings(tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    out = [{"model": m, "dataset": d, "seed": seed + i, "offline": o} for i in range(1 if tier == "quick" else 8) for m, o in (("KD_SGA", False), ("KD_DLGA", False), ("KD_DLGA", True), ("KD_DSCV", False)) for d in ("burgers", "chafee-infante")]
    return out if tier != "quick" else out[::2] + out[3:4]


@facet(None, enum=trainings, shards=4, case_s=300)
def real(c, ctx):
    """Whole trainings from the page with the real models (DLGA also as an offline job)."""
    import random
    import torch
    W.app()
    ctx.nontrivial()
    ctx.label(c["model"])
    from kd.model.kd_dlga import KD_DLGA
    found = []
    orig = KD_DLGA.fit_dataset

    def fit(self, *a, **k):
        orig(self, *a, **k)
        found.append(self.eq_latex)
        return self
    with folder(), quiet():
        page = Page()
        page.ui.set(page.dataset, c["dataset"])
        page.ui.set(page.model, c["model"])
        for (g, k), v in {("SGA", "SGA runs"): 1, ("SGA", "Population size"): 3, ("SGA", "Tree depth"): 2, ("SGA", "Seed"): c["seed"], ("DLGA", "NN max iterations"): 2, ("DLGA", "Sample points"): 40,
                          ("DSCV", "Samples per batch"): 20, ("DSCV", "Search epochs"): 1, ("DSCV", "Seed"): c["seed"]}.items():
            page.ui.set(page.fields[g, k], v)
        np.random.seed(c["seed"])
        random.seed(c["seed"])
        torch.manual_seed(c["seed"])
        off = c["offline"] and c["model"] == "KD_DLGA"
        if off:
            page.ui.request = W.Request("appAccessKey=AK; clientName=me")
        KD_DLGA.fit_dataset = fit
        try:
            page.ui.fire(page.start, "click")
            if off:
                job = page.job.value
                eq(W.Platform.current.run(job), 0, "exit code of the job")
                W.Platform.current.jobs[job]["status"] = 10
                page.ui.fire(page.ask, "click")
        finally:
            KD_DLGA.fit_dataset = orig
        said = page.equation.value
        check("error" not in said.lower(), f"training from the page failed: {said[-900:]}")
        figure_says(page.picture.value, said, c["model"])
        if c["model"] == "KD_DLGA":
            eq([said], found, "equation shown")
        m = page.trained.value
        if off:
            check(m is None, "an offline job left a model on the page")
            check(any(a.images for a in page.picture.value.axes), "no picture of the job's equation")
            return
        check(type(m).__name__ == CLASS[c["model"]], f"model kept: {m!r}")
        if c["model"] == "KD_SGA":
            eq(said, m.equation_latex(), "equation shown")
        elif c["model"] == "KD_DSCV":
            eq(said, m.searcher.best_p.str_expression, "equation shown")
        page.ui.set(page.kind, "equation")
        page.ui.fire(page.draw, "click")
        check(page.plot.value is not None, f"the equation cannot be plotted: {page.message.value!r}")
