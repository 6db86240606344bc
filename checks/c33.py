"""C33: an offline job runs exactly what its configuration names, and its result file reports it."""
import triton._C.libtriton  # noqa: F401
import contextlib
import io
import json
import os
import shutil
import sys
import tempfile

import numpy as np
import scipy.io as sio
from hypothesis import strategies as st

from vlib import gens as G
from vlib import vizmodels as V
from vlib import webapp as W
from vlib.core import arr_eq, check, eq, facet
from vlib.sgaref import quiet

TECHNIQUE = ("model-based property testing: generated job configurations and data files are run through the command line entry point with the fits recorded, "
             "generated histories of submitting, running, polling and downloading several jobs are replayed against an emulated platform, and whole jobs are run with the real model")
RULE = "non-trivial: the job named a data file, gave options of its own, failed, or was one of several"
ASSUMPTIONS = "bohrium_open_sdk is not installed: the platform is emulated in a scratch folder (uploads copied at submission, output folder downloaded). Most runs replace only the models' fit methods by recorders; the `real` facet runs the models."
BUILTIN = ["burgers", "kdv", "chafee-infante", "PDE_divide"]
OPS = {"dlga": ["u", "u_x", "u_xx", "u_xxx", "u_tt"], "bin": ["add_t", "mul_t", "div_t", "diff_t", "diff2_t"], "un": ["n2_t", "n3_t"]}
text = st.text("abcuxt_ =+-*^{}0123456789.αβ∂²", min_size=1, max_size=20)


@contextlib.contextmanager
def folder():
    d, cwd = tempfile.mkdtemp(), os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- data files


@st.composite
def files(draw):
    nx, nt = draw(st.integers(2, 7)), draw(st.integers(2, 7))
    if draw(st.integers(0, 3)) == 0:
        nt = nx
    kind = draw(st.sampled_from(["mat", "mat", "mat", "npy", "npy"]))
    c = {"kind": kind, "nx": nx, "nt": nt, "seed": draw(G.seeds), "ext": draw(st.sampled_from([kind, kind, kind.upper()])),
         "stem": draw(st.sampled_from(["data", "my data", "up.load", "dönnees"]))}
    if kind == "mat":
        keys = draw(st.lists(st.sampled_from(["x", "t", "usol", "u", "tt", "uu", "X", "data", "time"]), min_size=3, max_size=3, unique=True))
        c["keys"] = draw(st.sampled_from([None, None, keys]))
        c["own"] = draw(st.lists(st.integers(0, 2), unique=True, min_size=1, max_size=3)) if c["keys"] else []
        c["swap"] = draw(st.booleans()) and nx != nt
        c["vec"] = draw(st.sampled_from(["row", "col", "flat"]))
        c["dtype"] = draw(st.sampled_from(["float64", "float32", "int32", "complex"]))
    else:
        c["stored"] = draw(st.sampled_from(["grid", "grid", "flat", "row"]))
        dom = {k: draw(st.lists(st.floats(-5, 5), min_size=2, max_size=2)) for k in draw(st.sampled_from([[], ["x"], ["t"], ["x", "t"]]))}
        c["domain"] = draw(st.sampled_from([dom, dom, None]))
        c["dtype"] = "float64"
    return c


def write(c, d):
    """The file, what the configuration says about it, and the data it holds."""
    r = np.random.RandomState(c["seed"])
    nx, nt = c["nx"], c["nt"]
    u = r.standard_normal((nx, nt)) * 10
    u = u + 1j * r.standard_normal((nx, nt)) if c["dtype"] == "complex" else u.astype(c["dtype"])
    path = os.path.join(d, f"{c['stem']}.{c['ext']}")
    conf = {}
    if c["kind"] == "mat":
        x, t = np.cumsum(r.uniform(0.1, 1, nx)) - 2, np.cumsum(r.uniform(0.1, 1, nt))
        names = ["x", "t", "usol"]
        for i in c.get("own", range(3)) if c["keys"] else ():
            if c["keys"][i] not in names:
                names[i] = c["keys"][i]
        shape = {"row": lambda v: v[None, :], "col": lambda v: v[:, None], "flat": lambda v: v}[c["vec"]]
        with open(path, "wb") as f:
            sio.savemat(f, {names[0]: shape(x), names[1]: shape(t), names[2]: u.T if c["swap"] else u})
        conf = {k: n for k, n, usual in zip(("x_key", "t_key", "u_key"), names, ("x", "t", "usol")) if c["keys"] and (n != usual or c["seed"] % 2)}
    else:
        with open(path, "wb") as f:
            np.save(f, {"grid": u, "flat": u.ravel(), "row": u.reshape(1, -1)}[c["stored"]])
        conf = {"shape": [nx, nt]}
        if c["domain"] is not None:
            conf["domain"] = c["domain"]
        dom = c["domain"] or {}
        x, t = np.linspace(*dom.get("x", (0, 1)), nx), np.linspace(*dom.get("t", (0, 1)), nt)
    return path, conf, (x, t, np.real(u))


def same_data(ds, want, what):
    x, t, u = want
    arr_eq(np.asarray(ds.x, float).ravel(), np.asarray(x, float).ravel(), f"{what}: x")
    arr_eq(np.asarray(ds.t, float).ravel(), np.asarray(t, float).ravel(), f"{what}: t")
    arr_eq(np.asarray(ds.usol, float), np.asarray(u, float), f"{what}: field u(x, t)")


def builtin(name):
    from kd.dataset import load_pde
    with quiet():
        ds = load_pde(name)
    return ds.x, ds.t, ds.usol


# ---------------------------------------------------------------- configurations


def oplist(draw, pool):
    ops = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4, unique=True))
    form = draw(st.sampled_from(["list", "tight", "spaced", "ragged"]))
    return {"list": ops, "tight": ",".join(ops), "spaced": ", ".join(ops), "ragged": " , ".join(ops) + " ,, "}[form]


def as_list(ops):
    return [o.strip() for o in ops.split(",") if o.strip()] if isinstance(ops, str) else list(ops)


@st.composite
def params(draw, model):
    if model == "dlga":
        space = {"operators": lambda: oplist(draw, OPS["dlga"]), "epi": lambda: draw(st.floats(0.001, 1)), "input_dim": lambda: draw(st.integers(1, 3)),
                 "max_iter": lambda: draw(st.integers(1, 9999)), "sample": lambda: draw(st.sampled_from([None, 1, 17, 500]))}
    else:
        space = {"binary_operators": lambda: oplist(draw, OPS["bin"]), "unary_operators": lambda: oplist(draw, OPS["un"]), "n_samples_per_batch": lambda: draw(st.integers(1, 999)),
                 "seed": lambda: draw(st.integers(0, 9999)), "n_epochs": lambda: draw(st.integers(1, 99)), "sample_ratio": lambda: draw(st.floats(0.001, 1))}
    ks = draw(st.one_of(st.just(sorted(space)), st.lists(st.sampled_from(sorted(space)), unique=True, max_size=len(space))))
    return {k: space[k]() for k in ks}


def expect_run(run, model, given, what):
    """The recorded fit is the one the options name."""
    eq(run.cls, {"dlga": "KD_DLGA", "dscv_spr": "KD_Discover_SPR"}[model], f"{what}: model class")
    where = {"sample": "kwargs", "n_epochs": "kwargs", "sample_ratio": "kwargs"}
    for k, v in given.items():
        got = (run.kwargs if where.get(k) else run.params)[k]
        if k.endswith("operators"):
            v, got = as_list(v), list(got)
        eq(got, v, f"{what}: option {k}")
    if "seed" in given:
        eq(run.draw, float(np.random.RandomState(given["seed"]).rand()), f"{what}: random numbers do not follow the given seed")


@st.composite
def jobs(draw):
    model = draw(st.sampled_from(["dlga", "dscv_spr"]))
    p = draw(params(model))
    data = draw(st.sampled_from(["name", "name", "file", "file", "both", "missing", "missing+name", "none", "ext", "unknown", "noshape"]))
    end = draw(st.sampled_from(["ok", "ok", "ok", "raise", "nothing"]))
    return {"model": model, "params": p, "with_params": bool(p) or draw(st.booleans()), "data": data, "name": draw(st.sampled_from(BUILTIN)), "file": draw(files()), "end": end, "equation": draw(text),
            "config_dir": draw(st.sampled_from([None, "res", "deep/er/res"])), "cli_dir": draw(st.sampled_from([None, "cli out", "a/b"])), "nulls": draw(st.booleans()),
            "bad_model": draw(st.sampled_from([None] * 9 + ["", "sga", "DLGA", "missing"]))}


def run_main(argv):
    """Exit code and printed text of the command line entry point."""
    import kd.runner
    out, old = io.StringIO(), sys.argv
    sys.argv = ["kd.runner"] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            kd.runner.main()
        return 0, out.getvalue()
    except SystemExit as e:
        return e.code or 0, out.getvalue()
    finally:
        sys.argv = old


@facet(jobs(), quick=250, thorough=6000, shards=2)
def configured(c, ctx):
    """A configuration file run by the command line entry point: data, options, result file, exit code."""
    bad = c["data"] in ("missing", "missing+name", "none", "ext", "unknown", "noshape")
    ctx.nontrivial(c["data"] != "name" or len(c["params"]) > 1 or c["end"] != "ok")
    ctx.label("data=" + c["data"])
    ctx.label("model=" + c["model"])
    with folder() as d:
        conf = {"model": c["model"]}
        if c["with_params"]:
            conf["params"] = c["params"]
        named = None
        if c["data"] in ("name", "both", "missing+name"):
            conf["dataset_name"] = named = c["name"]
            want = builtin(c["name"])
        elif c["data"] == "unknown":
            conf["dataset_name"] = "no-such-dataset"
        elif c["nulls"]:
            conf["dataset_name"] = None
        if c["data"] in ("file", "both", "noshape", "ext"):
            path, fc, want = write(c["file"] if c["data"] != "noshape" else dict(c["file"], kind="npy", ext="npy", stored="grid", domain=None, dtype="float64"), d)
            if c["data"] == "noshape":
                fc.pop("shape")
            if c["data"] == "ext":
                os.rename(path, path + ".txt")
                path += ".txt"
            conf["dataset_file"] = named = path
            if fc or c["nulls"]:
                conf["file_config"] = fc
        elif c["data"].startswith("missing"):
            conf["dataset_file"] = os.path.join(d, "gone.mat")
        elif c["nulls"]:
            conf["dataset_file"] = None
        if c["config_dir"]:
            conf["output_dir"] = c["config_dir"]
        if c["bad_model"] == "missing":
            conf.pop("model")
        elif c["bad_model"] is not None:
            conf["model"] = c["bad_model"]
        with open("config.json", "w") as f:
            json.dump(conf, f)
        out = c["cli_dir"] or c["config_dir"] or "output"

        def outcome(run):
            if c["end"] == "raise":
                return ValueError("cannot fit " + c["equation"])
            return c["equation"] if c["end"] == "ok" else None
        with W.recording(outcome) as runs, quiet():
            code, said = run_main(["--config", "config.json"] + (["--output_dir", c["cli_dir"]] if c["cli_dir"] else []))
        if c["bad_model"] is not None:
            check(code != 0, f"a job for model {c['bad_model']!r} ended with exit code 0")
            check(not runs, "a job with no valid model trained one")
            return
        check(os.path.isfile(os.path.join(out, "result.json")), f"no result.json in the output folder {out!r}: {sorted(os.listdir(d))}")
        elsewhere = [os.path.join(p, f) for p, _, fs in os.walk(".") for f in fs if f == "result.json" and os.path.normpath(p) != os.path.normpath(out)]
        eq(elsewhere, [], "result files outside the named output folder")
        res = W.result_file(out)
        eq(res["model"], c["model"], "result: model")
        eq(res["params"], c["params"] if c["with_params"] else {}, "result: params")
        check(isinstance(res["elapsed_seconds"], (int, float)) and 0 <= res["elapsed_seconds"] < 600, f"result: elapsed_seconds {res['elapsed_seconds']}")
        if bad:
            check(not runs, f"a job whose data cannot be found or read ({c['data']}) trained a model all the same")
            eq((code != 0, res["status"]), (True, "error"), f"outcome of a job with {c['data']} data")
            check(res.get("error"), "a failed job's result names no error")
            return
        eq(len(runs), 1, "number of fits")
        expect_run(runs[0], c["model"], c["params"], "job")
        same_data(runs[0].dataset, want, "job data")
        eq(res["dataset"], named, "result: dataset")
        if c["end"] == "raise":
            eq((code != 0, res["status"]), (True, "error"), "outcome of a job whose fit failed")
            check("cannot fit " + c["equation"] in res.get("error", ""), f"the result does not name the error: {res.get('error')!r}")
            check(res["equation"] != c["equation"], "a failed job reports an equation")
        else:
            eq((code, res["status"], "error" in res), (0, "success", False), "outcome of a successful job")
            if c["end"] == "ok":
                eq(res["equation"], c["equation"], "result: equation")
            else:
                check(isinstance(res["equation"], str) and res["equation"].startswith("("), f"equation of a fit that found none: {res['equation']!r}")


@facet(files(), quick=200, thorough=5000)
def uploads(c, ctx):
    """Data files as named by a configuration."""
    import kd.runner
    with folder() as d:
        path, fc, want = write(c, d)
        ctx.nontrivial(bool(fc))
        ctx.label(f"{c['kind']} with {sorted(fc)}")
        with quiet():
            ds = kd.runner.load_dataset({"dataset_file": path, "file_config": fc} if fc else {"dataset_file": path})
        same_data(ds, want, c["kind"])


# ---------------------------------------------------------------- images


@st.composite
def trained(draw):
    kind = draw(st.sampled_from(["dlga", "dlga", "discover", "sga"]))
    return {"kind": kind, "seed": draw(G.seeds), "n": draw(st.integers(1, 6)), "drop": draw(st.lists(st.sampled_from(["train_loss_history", "evolution_history", "Chrom"]), unique=True, max_size=2))}


def viz_model(c):
    if c["kind"] == "dlga":
        m = V.dlga(c["seed"], generations=c["n"])
        m.eq_latex = "$u_t = u$"
        for k in c["drop"]:
            m.__dict__[k] = [] if k != "Chrom" else None
        return m
    return V.sga(c["seed"]) if c["kind"] == "sga" else V.discover(c["seed"], iterations=c["n"])


KINDS = ("equation", "search_evolution", "training_curve")


@facet(trained(), quick=24, thorough=400, shards=2)
def images(c, ctx):
    """The pictures next to the result file are those the plotting facade draws for the model."""
    import matplotlib.pyplot as plt
    import kd.runner
    from kd.viz._style import get_config
    from kd.viz.core import VizRequest, configure, list_capabilities, render
    m = viz_model(c)
    with folder(), quiet():
        want = {}
        configure(save_dir="expected")
        for k in KINDS:
            if k not in list_capabilities(m):
                continue
            try:
                vr = render(VizRequest(k, m))
            except Exception:
                continue
            if vr.paths and os.path.exists(vr.paths[0]):
                want[k] = W.picture(vr.paths[0])
        configure(save_dir=None)
        os.makedirs("out")
        kd.runner.save_viz("out", m)
        ctx.nontrivial(len(want) > 0)
        ctx.label(f"{c['kind']}: {len(want)} pictures")
        got = sorted(f for f in os.listdir("out") if f.endswith(".png"))
        eq(got, sorted(f"{k}.png" for k in want), "pictures saved next to the result")
        for k, img in want.items():
            arr_eq(W.picture(f"out/{k}.png"), img, f"picture {k}.png")
        check(get_config().save_dir is None, f"plots of later models would go to {get_config().save_dir}")
        plt.close("all")


# ---------------------------------------------------------------- jobs on the platform


@st.composite
def history(draw):
    steps, n = [], 0
    for _ in range(draw(st.integers(2, 9))):
        op = draw(st.sampled_from(["submit", "submit", "run", "run", "status", "check", "check", "download", "download", "break", "projects"] if n else ["submit", "projects"]))
        if op == "submit":
            model = draw(st.sampled_from(["dlga", "dscv_spr"]))
            steps.append(["submit", {"model": model, "params": draw(params(model)), "name": draw(st.sampled_from(BUILTIN)), "project": draw(st.sampled_from([None, None, 0, 42])),
                                     "file": draw(st.sampled_from([None, None, "here", "gone"])), "key": draw(st.sampled_from(["k1", "AK-2_x", "a.b"])), "client": draw(st.sampled_from(["me", "kd-app"])),
                                     "extra": draw(st.booleans()), "end": draw(st.sampled_from(["ok", "ok", "raise"])), "equation": draw(text)}])
            n += 1
            if draw(st.booleans()):
                steps.append(["run", -1])
                steps.append(["download", -1, draw(st.booleans())])
        elif op == "break":
            steps.append(["break", draw(st.sampled_from(["submit", "detail", "download"])), draw(st.booleans())])
        elif op == "projects":
            steps.append(["projects", draw(st.lists(st.integers(1, 9), max_size=3))])
        elif op == "status":
            steps.append(["status", draw(st.integers(0, 5)), draw(st.integers(0, 14)), draw(st.sampled_from(["", "3s", "1h"]))])
        elif op == "download":
            steps.append(["download", draw(st.integers(0, 5)), draw(st.booleans())])
        else:
            steps.append([op, draw(st.integers(0, 5))])
    return {"steps": steps}


@facet(None, enum=lambda: [{"code": c, "spend": s} for c in range(-1, 21) for s in ("", "12s")])
def codes(c, ctx):
    """Each status code of the platform: running, finished (10, 11) or failed (12, 13), never two of them."""
    J = W.job()
    ctx.nontrivial()
    with folder() as d:
        P = W.Platform.current = W.Platform(os.path.join(d, "cloud"))
        P.jobs[3] = dict(status=c["code"], spend=c["spend"])
        got = J.check_job(3, W.Request("appAccessKey=a; clientName=b"))
        eq((got["status_code"], got["finished"], got["failed"], got["spend_time"]), (c["code"], c["code"] in (10, 11), c["code"] in (12, 13), c["spend"]), f"status code {c['code']}")
        eq((got["status_text"] == "Finished", got["status_text"] in ("Failed", "Error")), (got["finished"], got["failed"]), f"status text {got['status_text']!r} of code {c['code']}")


def cookie(s):
    c = f"appAccessKey={s['key']}; clientName={s['client']}"
    return f"theme=dark; {c}; lang=en" if s["extra"] else c


@facet(history(), quick=120, thorough=3000, shards=2)
def platform(c, ctx):
    """Several jobs submitted, run, polled and downloaded in any order: each is run as submitted and returns its own result."""
    J = W.job()
    with folder() as d:
        os.makedirs("tmp")
        tmp, tempfile.tempdir = tempfile.tempdir, os.path.join(d, "tmp")
        P = W.Platform.current = W.Platform(os.path.join(d, "cloud"))
        jobs, done, tried = [], {}, []
        shutil.rmtree(W.outputs_dir(), ignore_errors=True)
        out_dirs = {}
        try:
            for step in c["steps"]:
                if step[0] == "submit":
                    s = step[1]
                    data = None
                    if s["file"]:
                        data = os.path.join(d, f"up{len(tried)}.npy")
                        tried.append(data)
                        if s["file"] == "here":
                            np.save(data, np.arange(float(len(jobs) + 3)))
                    before = set(P.jobs)
                    call = lambda: J.submit_gpu_job(s["model"], s["name"], s["params"], W.Request(cookie(s)), project_id=s["project"], dataset_file=data)  # noqa: E731
                    if P.fail.get("submit") or not (s["project"] or P.projects):
                        try:
                            call()
                            check(False, "a submission the platform refused returned a job")
                        except (ConnectionError, RuntimeError):
                            pass
                        eq(set(P.jobs), before, "jobs after a refused submission")
                    else:
                        jid = call()
                        eq(set(P.jobs) - before, {jid}, "job created by a submission")
                        j = P.jobs[jid]
                        jobs.append((jid, s))
                        eq((j["app_key"], j["sub_model_name"]), (J.KD_GPU_APP_KEY, J.KD_GPU_SUB_MODEL), "application the job was submitted to")
                        eq(j["project_id"], s["project"] or P.projects[0], "project of the job")
                        eq(j["by"], (s["key"], s["client"]), "credentials the job was submitted with")
                        eq(sorted(j["files"]), ["config"] + (["dataset_file"] if s["file"] == "here" else []), "files uploaded with the job")
                        if s["file"] == "here":
                            arr_eq(np.load(os.path.join(j["dir"], j["files"]["dataset_file"])), np.load(data), "uploaded data file")
                    eq(os.listdir("tmp"), [], "temporary files left behind by a submission")
                    continue
                if step[0] == "break":
                    P.fail[step[1]] = step[2]
                    continue
                if step[0] == "projects":
                    P.projects = step[1]
                    continue
                if not jobs:
                    continue
                jid, s = jobs[step[1] % len(jobs)]
                req = W.Request(cookie(s))
                if step[0] == "run":
                    def outcome(run):
                        return ValueError("cannot fit " + s["equation"]) if s["end"] == "raise" else s["equation"]
                    with W.recording(outcome) as runs, quiet():
                        code = P.run(jid)
                    eq(len(runs), 1, "fits of a job")
                    expect_run(runs[0], s["model"], s["params"], f"job {jid}")
                    same_data(runs[0].dataset, builtin(s["name"]), f"job {jid} data")
                    eq(code != 0, s["end"] == "raise", "exit code of the job")
                    done[jid] = s
                elif step[0] == "status":
                    P.jobs[jid].update(status=step[2], spend=step[3])
                elif step[0] == "check":
                    if P.fail.get("detail"):
                        continue
                    got = J.check_job(jid, req)
                    code = P.jobs[jid]["status"]
                    eq((got["status_code"], got["finished"], got["failed"], got["spend_time"]), (code, code in (10, 11), code in (12, 13), P.jobs[jid]["spend"]), f"status of job {jid}")
                    check(isinstance(got["status_text"], str) and got["status_text"], "a job's status has no text")
                    eq((got["status_text"] == "Finished", got["status_text"] in ("Failed", "Error")), (got["finished"], got["failed"]), f"status text {got['status_text']!r}")
                elif step[0] == "download":
                    if P.fail.get("download"):
                        continue
                    own = os.path.join(d, f"mine{jid}") if step[2] else None
                    res, where = J.download_result(jid, req, **({"save_dir": own} if own else {}))
                    if own:
                        eq(where, own, "download folder")
                    else:
                        check(os.path.abspath(where).startswith(W.outputs_dir()), f"job output went to {where}")
                        check(out_dirs.setdefault(os.path.abspath(where), jid) == jid, "two jobs' outputs share a folder")
                    if jid not in done:
                        eq(res.get("status"), "error", "result of a job that left no result file")
                    else:
                        eq(res, W.result_file(os.path.join(P.jobs[jid]["dir"], "output")), f"downloaded result of job {jid}")
                        eq((res["model"], res["dataset"], res["params"]), (s["model"], s["name"], s["params"]), f"what job {jid} says it ran")
                        eq(res["status"], "error" if s["end"] == "raise" else "success", f"outcome of job {jid}")
                        if s["end"] == "ok":
                            eq(res["equation"], s["equation"], f"equation of job {jid}")
        finally:
            tempfile.tempdir = tmp
            shutil.rmtree(W.outputs_dir(), ignore_errors=True)
        ctx.nontrivial(len(done) > 0)
        ctx.label(f"{min(len(jobs), 4)} jobs, {min(len(done), 3)} run")


# ---------------------------------------------------------------- the real model


@st.composite
def small(draw):
    return {"file": dict(draw(files()), nx=draw(st.integers(9, 12)), nt=draw(st.integers(9, 12)), dtype="float64", swap=False), "seed": draw(st.integers(0, 99)), "sample": draw(st.sampled_from([None, 40])), "epi": draw(st.sampled_from([0.01, 0.1])),
            "operators": draw(st.sampled_from(["u,u_x,u_xx", "u, u_x"]))}


@facet(small(), quick=6, thorough=40, shards=3, case_s=300)
def real(c, ctx):
    """A whole job with the real model: the result file holds the equation the model found, with its pictures."""
    import random
    import torch
    import kd.runner
    ctx.nontrivial()
    with folder() as d:
        path, fc, want = write(c["file"], d)
        conf = {"model": "dlga", "dataset_file": path, "file_config": fc, "params": {"operators": c["operators"], "epi": c["epi"], "max_iter": 2, "sample": c["sample"]}}
        with open("config.json", "w") as f:
            json.dump(conf, f)
        from kd.model.kd_dlga import KD_DLGA
        models, orig = [], KD_DLGA.fit_dataset

        def fit(self, *a, **k):
            models.append(self)
            return orig(self, *a, **k)
        KD_DLGA.fit_dataset = fit
        np.random.seed(c["seed"])
        random.seed(c["seed"])
        torch.manual_seed(c["seed"])
        try:
            with quiet():
                code, said = run_main(["--config", "config.json"])
        finally:
            KD_DLGA.fit_dataset = orig
        eq(code, 0, f"exit code of the job; it said {said[-600:]}")
        res = W.result_file("output")
        eq((res["status"], len(models)), ("success", 1), "outcome")
        eq(res["equation"], models[0].eq_latex, "equation in the result file")
        check(res["equation"].strip("$").startswith("u_"), f"equation {res['equation']!r}")
        same_data(models[0].dataset_, want, "job data")
        for k in KINDS:
            check(os.path.isfile(f"output/{k}.png") and W.picture(f"output/{k}.png").size > 0, f"no picture {k}.png next to the result: {sorted(os.listdir('output'))}")
