"""Stand-ins for the web toolkit, the job platform and the model fits, for driving kd.runner, kd.job and app.py.

gradio and bohrium_open_sdk are not installed here (and would need a network): `gr` is a small in-memory form
(components with labels, values and event handlers), `Platform` a job platform that keeps jobs in a folder and
runs `kd.runner.main` on them.  `recording()` replaces the fits of the model classes (never the classes) by
functions that note what they were asked to do."""
import contextlib
import copy
import importlib.util
import inspect
import itertools
import json
import os
import shutil
import sys
import types

import numpy as np

# ---------------------------------------------------------------- gradio


class Component:
    def __init__(self, kind, *args, **kw):
        self.kind, self.handlers = kind, []
        self.label = kw.get("label") or (args[0] if kind == "Button" and args else None)
        self.value = kw.get("value", args[0] if args and kind in ("State", "Button", "Markdown") else None)
        self.choices, self.visible, self.precision = kw.get("choices"), kw.get("visible", True), kw.get("precision")
        if kind == "Slider":
            self.low, self.high = args[0], args[1]
        UI.current.add(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _on(self, event, *args, fn=None, inputs=None, outputs=None, cancels=None, **kw):
        names = dict(zip(("fn", "inputs", "outputs"), args))
        h = dict(event=event, fn=names.get("fn", fn), inputs=list(names.get("inputs", inputs) or []), outputs=list(names.get("outputs", outputs) or []))
        self.handlers.append(h)
        return h

    def __getattr__(self, name):
        if name in ("click", "change", "load", "submit", "select", "input"):
            return lambda *a, **k: self._on(name, *a, **k)
        if name == "launch":
            return lambda *a, **k: None
        raise AttributeError(name)


class UI:
    """The form as its user sees it."""
    current = None

    def __init__(self):
        self.components, self.request = [], None

    def add(self, c):
        self.components.append(c)

    def by(self, label, kind=None):
        found = [c for c in self.components if c.label == label and (kind is None or c.kind == kind)]
        assert len(found) == 1, (label, len(found))
        return found[0]

    def set(self, c, value):
        """The user gives a component a value."""
        changed = c.value != value
        c.value = value
        if changed:
            self.fire(c, "change")

    def fire(self, c, event):
        for h in [h for h in c.handlers if h["event"] == event]:
            fn = h["fn"]
            args = [i.value for i in h["inputs"]]
            kw = {k: self.request for k, p in inspect.signature(fn).parameters.items() if p.annotation is sys.modules["gradio"].Request}
            out = fn(*args, **kw)
            outs = out if len(h["outputs"]) > 1 else (out,)
            assert len(outs) == len(h["outputs"]), f"{len(outs)} values for {len(h['outputs'])} outputs"
            changed = []
            for o, v in zip(h["outputs"], outs):
                old = o.value
                if isinstance(v, dict) and v.get("__update__"):
                    for k, x in v.items():
                        if k != "__update__":
                            setattr(o, k, x)
                else:
                    o.value = v
                if o.kind in ("Dropdown", "Textbox", "Number", "Slider") and old != o.value:
                    changed.append(o)
            for o in changed:
                self.fire(o, "change")


class Request:
    def __init__(self, cookie=None):
        self.headers = {} if cookie is None else {"cookie": cookie}


def gradio():
    m = types.ModuleType("gradio")
    m.update = lambda **k: dict(k, __update__=True)
    m.Request = Request
    m.themes = types.SimpleNamespace(Soft=lambda *a, **k: None, Default=lambda *a, **k: None)
    for kind in ("Blocks", "Tabs", "TabItem", "Tab", "Row", "Column", "Group", "Markdown", "Dropdown", "Number", "Textbox", "Slider", "Button", "Plot", "State"):
        setattr(m, kind, (lambda kind: lambda *a, **k: Component(kind, *a, **k))(kind))
    return m


# ---------------------------------------------------------------- job platform


class Platform:
    """Jobs in a folder; `run(id)` does what the platform does with a job."""
    current = None

    def __init__(self, root, projects=(7,)):
        self.root, self.projects, self.jobs, self.fail, self.count = str(root), list(projects), {}, {}, itertools.count(101)
        self.logins = []

    def submit(self, app_key, sub_model_name, project_id, inputs, upload_files):
        if self.fail.get("submit"):
            raise ConnectionError("platform unavailable")
        jid = next(self.count)
        d = os.path.join(self.root, f"job{jid}")
        os.makedirs(d)
        files = {}
        for i, f in enumerate(upload_files):
            files[f.input_field] = f"in{i}_" + os.path.basename(f.src)
            shutil.copyfile(f.src, os.path.join(d, files[f.input_field]))
        self.jobs[jid] = dict(app_key=app_key, sub_model_name=sub_model_name, project_id=project_id, inputs=dict(inputs), files=files, dir=d, status=0, spend="", sources=[f.src for f in upload_files], by=self.logins[-1])
        return {"data": {"jobId": jid}}

    def run(self, jid):
        """Run a job to its end; the exit code of the runner."""
        import kd.runner
        j = self.jobs[jid]
        argv, cwd = sys.argv, os.getcwd()
        sys.argv = ["kd.runner", "--config", j["files"]["config"], "--output_dir", j["inputs"]["output_dir"]]
        os.chdir(j["dir"])
        try:
            kd.runner.main()
            return 0
        except SystemExit as e:
            return e.code or 0
        finally:
            sys.argv = argv
            os.chdir(cwd)

    def detail(self, jid):
        if self.fail.get("detail"):
            raise ConnectionError("platform unavailable")
        return {"data": {"status": self.jobs[jid]["status"], "spendTime": self.jobs[jid]["spend"]}}

    def download(self, jid, remote_target, save_path):
        if self.fail.get("download"):
            raise ConnectionError("platform unavailable")
        src = os.path.join(self.jobs[jid]["dir"], remote_target)
        if os.path.isdir(src):
            shutil.copytree(src, save_path, dirs_exist_ok=True)


def sdk():
    m = types.ModuleType("bohrium_open_sdk")

    class OpenSDK:
        def __init__(self, access_key, app_key):
            p = Platform.current
            p.logins.append((access_key, app_key))
            job = types.SimpleNamespace(submit=lambda app_key, sub_model_name, project_id, inputs, upload_files: p.submit(app_key, sub_model_name, project_id, inputs, upload_files), detail=lambda job_id: p.detail(job_id))
            self.app = types.SimpleNamespace(job=job)
            self.user = types.SimpleNamespace(list_project=lambda: {"data": {"items": [{"project_id": i} for i in p.projects]}})
            self.web = types.SimpleNamespace(sub_model=types.SimpleNamespace(download=lambda job_id, remote_target, save_path: p.download(job_id, remote_target, save_path)))

    class UploadInputItem:
        def __init__(self, input_field, src):
            self.input_field, self.src = input_field, src

    m.OpenSDK, m.UploadInputItem = OpenSDK, UploadInputItem
    return m


_loaded = {}


def outputs_dir():
    return os.environ["KD_JOB_OUTPUT_DIR"]


def job():
    """kd.job with the stand-in platform SDK; results are downloaded below the current (scratch) folder."""
    if "job" not in _loaded:
        os.environ["KD_JOB_OUTPUT_DIR"] = os.path.abspath("job_outputs")
        sys.modules["bohrium_open_sdk"] = sdk()
        import kd.job
        _loaded["job"] = kd.job
    return _loaded["job"]


def app():
    """The web application's module."""
    if "app" not in _loaded:
        job()
        sys.modules["gradio"] = gradio()
        import kd
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(kd.__file__))), "app.py")
        spec = importlib.util.spec_from_file_location("kd_web_app", path)
        m = importlib.util.module_from_spec(spec)
        sys.modules["kd_web_app"] = m
        spec.loader.exec_module(m)
        _loaded["app"] = m
    return _loaded["app"]


def open_form():
    """A page of the application as a user finds it."""
    ui = UI.current = UI()
    blocks = app().build_app()
    ui.fire(blocks, "load")
    return ui


# ---------------------------------------------------------------- recorders


class Run:
    def __init__(self, model, how, dataset, kwargs):
        self.model, self.cls, self.how, self.dataset = model, type(model).__name__, how, dataset
        self.params = dict(model.get_params(deep=False)) if hasattr(model, "get_params") else dict(vars(model))
        self.kwargs, self.draw = kwargs, np.random.RandomState()
        self.draw.set_state(np.random.get_state())
        self.draw = float(self.draw.rand())


@contextlib.contextmanager
def recording(outcome):
    """Fits are noted instead of run.  `outcome(run)` says how one ends: an exception to raise, or the equation found."""
    from kd.model.kd_dlga import KD_DLGA
    from kd.model.kd_discover import KD_Discover, KD_Discover_SPR
    from kd.model.kd_eqgpt import KD_EqGPT
    from kd.model.kd_sga import KD_SGA
    runs = []

    def note(self, how, dataset, kwargs):
        run = Run(self, how, dataset, kwargs)
        runs.append(run)
        got = outcome(run)
        if isinstance(got, Exception):
            raise got
        return got

    def stub(cls, name, end):
        sig = inspect.signature(getattr(cls, name))

        def fit(self, *a, **k):
            b = sig.bind(self, *a, **k)
            b.apply_defaults()
            args = dict(b.arguments)
            args.pop("self", None)
            return end(self, note(self, name, args.pop("dataset", None), args))
        return fit

    def dlga(self, eq):
        self.eq_latex = eq
        return self

    def sga(self, eq):
        from kd.model.sga.sgapde.equation import SGAEquationDetails, SGAEquationTerm
        self.best_equation_details_ = SGAEquationDetails(lhs="u_t", terms=tuple(SGAEquationTerm(e, "default", c) for e, c in eq), predicted_rhs=np.zeros((3, 3)))
        return self

    table = [(KD_DLGA, "fit_dataset", dlga), (KD_SGA, "fit_dataset", sga), (KD_Discover, "fit_dataset", lambda self, eq: eq and {"expression": eq}),
             (KD_Discover_SPR, "fit_dataset", lambda self, eq: eq and {"expression": eq}), (KD_EqGPT, "fit_pretrained", lambda self, eq: {"best_equation": eq, "equations": [eq]})]
    stubs = [(c, n, stub(c, n, e)) for c, n, e in table]
    old = [(c, n, c.__dict__[n]) for c, n, _ in stubs]
    try:
        for c, n, f in stubs:
            setattr(c, n, f)
        yield runs
    finally:
        for c, n, f in old:
            setattr(c, n, f)


def result_file(d):
    with open(os.path.join(d, "result.json")) as f:
        return json.load(f)


def picture(path):
    import matplotlib.image as mpimg
    return mpimg.imread(str(path))
