"""C03: catalogue names and data files load to what they contain."""
import os
import tempfile

import numpy as np
import scipy.io as sio
from hypothesis import strategies as st

import kd.dataset as D
from kd.dataset import _base as B
from kd.dataset._info import DatasetInfo
from vlib import gens as G
from vlib.core import arr_eq, check, close, eq, facet, raises, Skip

TECHNIQUE = ("property-based testing: generated files (npy/npz/csv/mat, orientations, key names, dtypes) round-trip "
             "through every loader; every catalogue name is compared with an independent read of its file")
RULE = ("non-trivial: a file round trip with more than one row and column of different length, a catalogue entry whose "
        "file was read independently, or a single-fault request that must be refused")

DATA = os.path.join("/repo/kd/dataset/data")
# file, x, t, u keys (or the rule that generates the coordinates) written down independently of the registry
CAT = {"chafee-infante": ("npy3", "chafee_infante_CI.npy", "chafee_infante_x.npy", "chafee_infante_t.npy"),
       "burgers": ("mat", "burgers2.mat", "x", "t", "usol"), "burgers-reflib": ("mat", "burgers_reflib.mat", "x", "t", "usol"),
       "kdv": ("mat", "KdV_equation.mat", "x", "tt", "uu"),
       "PDE_divide": ("npy", "PDE_divide.npy", (1, 2), (0, 1), (100, 251)),
       "PDE_compound": ("npy", "PDE_compound.npy", (1, 2), (0, 0.5), (100, 251)),
       "fisher": ("mat", "fisher_nonlin_groundtruth.mat", "x", "t", "U"),
       "fisher_linear": ("mat", "fisher_groundtruth.mat", "x", "t", "U")}
TRUE = {"chafee-infante": "add,add,u1,n3,u1,diff2,u1,x1", "burgers": "add,mul,u1,diff,u1,x1,diff2,u1,x1",
        "burgers-reflib": "add,mul,u1,diff,u1,x1,diff2,u1,x1", "kdv": "add,mul,u1,diff,u1,x1,diff3,u1,x1",
        "PDE_divide": "add,div,diff,u1,x1,x1,diff2,u1,x1",
        "PDE_compound": "add,mul,u1,diff2,u1,x1,mul,diff,u1,x1,diff,u1,x1",
        "fisher": "add,mul,u1,diff2,u1,x1,add,n2,diff,u1,x1,add,u1,n2,u1", "fisher_linear": "add,diff2,u1,x1,add,u1,n2,u1"}


def raw(name):
    e = CAT[name]
    p = lambda f: os.path.join(DATA, f)
    if e[0] == "npy3":
        u, x, t = np.load(p(e[1])), np.load(p(e[2])).ravel(), np.load(p(e[3])).ravel()
    elif e[0] == "mat":
        m = sio.loadmat(p(e[1]))
        x, t, u = m[e[2]].ravel(), m[e[3]].ravel(), np.real(m[e[4]])
    else:
        u = np.load(p(e[1]))
        x, t = np.linspace(*e[2], e[4][0]), np.linspace(*e[3], e[4][1])
    if u.shape != (len(x), len(t)):
        u = u.T
    return x, t, u


def catalogue(tier):
    return [{"name": n} for n in sorted(set(CAT) | set(D.list_available_datasets()))]


@facet(enum=catalogue)
def catalogue_names(c, ctx):
    n = c["name"]
    check(n in D.list_available_datasets(), f"{n} is no longer listed")
    if n not in CAT:
        info = D.PDE_REGISTRY[n]
        ds = D.load_pde(n)
        if info.get("status") == "pending":
            ctx.label("pending entry")
            check(ds is None, f"{n}: the file is not there, but a dataset was returned")
            return
        check(ds is not None, f"{n} does not load")
    else:
        ds = D.load_pde(n)
        check(ds is not None, f"{n} does not load")
        x, t, u = raw(n)
        arr_eq(np.asarray(ds.x, float), x.astype(float), f"{n}: x")
        arr_eq(np.asarray(ds.t, float), t.astype(float), f"{n}: t")
        arr_eq(np.asarray(ds.usol, float), u.astype(float), f"{n}: field")
        eq(D.get_dataset_sym_true(n), TRUE[n], f"{n}: true equation")
        ctx.nontrivial()
    for a in (ds.x, ds.t):
        check(np.isfinite(a).all() and (np.diff(a) > 0).all(), f"{n}: coordinates not finite and strictly increasing")
    eq(ds.usol.shape, (len(ds.x), len(ds.t)), f"{n}: field shape")
    check(np.isfinite(ds.usol).all(), f"{n}: field not finite")
    eq(ds.registry_name, n, "registry_name")
    eq(ds.legacy_name, ds.aliases.get("legacy", n), "legacy_name")
    keep = [a.copy() for a in (ds.x, ds.t, ds.usol)]
    ds.x[:] = -1; ds.t[:] = -1; ds.usol = np.array(ds.usol); ds.usol[:] = 7
    ds2 = D.load_pde(n)
    check(ds2 is not ds, f"{n}: the second load returns the same object")
    for a, b, w in zip((ds2.x, ds2.t, ds2.usol), keep, ("x", "t", "field")):
        arr_eq(a, b, f"{n}: second load, {w}")
    ds2.usol[...] = 3
    arr_eq(D.load_pde(n).usol, keep[2], f"{n}: third load, field")


@facet(enum=lambda: [{"name": n} for n in ("tlc_cc_t1", "tlc_cc_t2", "burgers_loader", "kdv_loader")])
def other_named(c, ctx):
    n = c["name"]
    ctx.nontrivial()
    if n.startswith("tlc"):
        f = {"tlc_cc_t1": "tlc_cc_Rf_t1.npy", "tlc_cc_t2": "tlc_cc_Rf_t2.npy"}[n]
        a = np.load(os.path.join(DATA, f))
        X, y, m = D.load_regression(n)
        arr_eq(X, a[:, :2], f"{n}: X"); arr_eq(y, a[:, 2], f"{n}: y")
        eq(m["var_names"], ["R_F", "r"], "var_names")
        eq(m["target_name"], {"tlc_cc_t1": "mean(V_S)", "tlc_cc_t2": "mean(V_E)"}[n], "target_name")
        X[:] = 0; y[:] = 0
        X2, y2, _ = D.load_regression(n)
        arr_eq(X2, a[:, :2], f"{n}: second load X"); arr_eq(y2, a[:, 2], f"{n}: second load y")
        return
    ds = D.load_burgers_equation() if n[0] == "b" else D.load_kdv_equation()
    x, t, u = raw("burgers" if n[0] == "b" else "kdv")
    arr_eq(ds.x, x.astype(float), "x"); arr_eq(ds.t, t.astype(float), "t"); arr_eq(ds.usol, u, "field")


@facet(st.text("abcdefghijklmnopqrstuvwxyzKBP_- 0123456789", max_size=12), quick=200, thorough=2000)
def unknown_names(name, ctx):
    if name in D.list_available_datasets() or name.startswith("tlc_cc"):
        raise Skip()
    ctx.nontrivial()
    raises((ValueError, KeyError), lambda: D.load_pde(name), f"load_pde({name!r})")
    raises((ValueError, KeyError), lambda: D.get_dataset_sym_true(name), f"get_dataset_sym_true({name!r})")
    raises((ValueError, KeyError), lambda: D.get_dataset_info(name), f"get_dataset_info({name!r})")
    raises((ValueError, KeyError), lambda: D.load_regression(name), f"load_regression({name!r})")


@st.composite
def filecase(draw):
    return {"nx": draw(st.integers(2, 9)), "nt": draw(st.integers(2, 9)), "seed": draw(G.seeds),
            "xk": draw(st.sampled_from(["uniform", "int", "irregular"])),
            "uk": draw(st.sampled_from(["normal", "int", "zeros", "big", "float32", "complex"])),
            "form": draw(st.sampled_from(["mat_args", "mat_reg", "npy3_reg", "npy_reg"])),
            "transp": draw(st.booleans()), "vec": draw(st.sampled_from(["row", "col"])),
            "keys": draw(st.sampled_from([["x", "t", "usol"], ["xx", "tt", "uu"], ["X", "T", "U"], ["x", "t", "u"]])),
            "dom": draw(st.booleans()), "epi": draw(st.sampled_from([1e-3, 0.2, 0.0])),
            "shape": draw(st.booleans()), "fault": draw(st.sampled_from([None, None, None, "key_x", "key_t", "key_u", "file", "size"]))}


@facet(filecase, quick=700, thorough=15000, shards=2)
def pde_files(c, ctx):
    """Files with known contents, every orientation and key naming, through load_pde and load_pde_dataset."""
    x, t = G.coords(c["nx"], c["seed"], c["xk"]).astype(float), G.coords(c["nt"], c["seed"] + 1).astype(float)
    u = G.values((c["nx"], c["nt"]), c["seed"] + 2, c["uk"])
    stored = u.T if c["transp"] else u
    kx, kt, ku = c["keys"]
    dom = {"x": (1.5, 4.0), "t": (0, 2.5)} if c["dom"] else None
    d = tempfile.mkdtemp()
    P = lambda f: os.path.join(d, f)
    vec = (lambda a: a.reshape(1, -1)) if c["vec"] == "row" else (lambda a: a.reshape(-1, 1))
    form, fault = c["form"], c["fault"]
    if c["nx"] == c["nt"] and c["transp"]:
        raise Skip()  # a square field does not say which way round it is stored
    if form.startswith("mat"):
        m = {kx: vec(x), kt: vec(t), ku: stored}
        if fault == "size":
            m[ku] = np.zeros((c["nx"] + c["nt"] + 1, 2))
        if fault and fault.startswith("key"):
            del m[{"x": kx, "t": kt, "u": ku}[fault[-1]]]
        sio.savemat(P("f.mat"), m)
        fn = P("f.mat") if fault != "file" else P("absent.mat")
        kw = dict(x_key=kx, t_key=kt, u_key=ku)
        if form == "mat_args":
            load = lambda: D.load_pde_dataset(fn, equation_name="my eq", domain=dom, epi=c["epi"], **kw)
        else:
            entry = {"file": fn, "keys": kw, "domain": dom, "status": "active", "aliases": {"legacy": "Zz"}}
    else:
        if fault not in (None, "file", "size"):
            raise Skip()
        if np.iscomplexobj(stored):
            stored = stored.real
        if form == "npy3_reg":
            np.save(P("u.npy"), stored if fault != "size" else np.zeros((c["nx"] + c["nt"] + 1, 2)))
            np.save(P("x.npy"), vec(x)); np.save(P("t.npy"), vec(t))
            entry = {"files": {"u": P("u.npy" if fault != "file" else "no.npy"), "x": P("x.npy"), "t": P("t.npy")},
                     "domain": dom, "status": "active"}
        else:
            if not c["shape"] and c["transp"]:
                raise Skip()  # without a declared shape the file is taken as (nx, nt)
            np.save(P("u.npy"), stored if fault != "size" else np.zeros((c["nx"] * c["nt"] + 1,)))
            entry = {"file": P("u.npy" if fault != "file" else "no.npy"), "domain": dom, "status": "active"}
            if c["shape"] or fault == "size":
                entry["shape"] = (c["nx"], c["nt"])
            b = dom or {"x": (0.0, 1.0), "t": (0.0, 1.0)}
            x, t = np.linspace(*b["x"], c["nx"]), np.linspace(*b["t"], c["nt"])
    if form != "mat_args":
        D.PDE_REGISTRY["zz_generated"] = entry
        load = lambda: D.load_pde("zz_generated")
    ctx.label(form); ctx.label(str(fault)); ctx.nontrivial(fault is not None or c["nx"] != c["nt"])
    try:
        if fault:
            try:
                ds = load()
            except Exception:
                return
            check(ds is None, f"{form}: a dataset was returned although the file has the fault {fault!r}")
            return
        ds = load()
        check(ds is not None, f"{form}: a well-formed file does not load")
        arr_eq(np.asarray(ds.x, float), x, "x"); arr_eq(np.asarray(ds.t, float), t, "t")
        arr_eq(np.asarray(ds.usol, float), np.real(u).astype(float), f"field ({form}, stored transposed: {c['transp']})")
        if form == "mat_args":
            eq(ds.equation_name, "my eq", "equation_name"); eq(ds.epi, c["epi"], "epi"); eq(ds.domain, dom, "domain")
        else:
            eq(ds.registry_name, "zz_generated", "registry_name")
            eq(ds.legacy_name, "Zz" if form == "mat_reg" else "zz_generated", "legacy_name")
            if dom is not None or form != "npy_reg":
                eq(ds.domain, dom, "domain")
        ds.usol[...] = 5; ds.x[:] = 0
        ds2 = load()
        arr_eq(np.asarray(ds2.usol, float), np.real(u).astype(float), "second load")
        arr_eq(np.asarray(ds2.x, float), x, "second load x")
    finally:
        D.PDE_REGISTRY.pop("zz_generated", None)


@st.composite
def table(draw):
    names = draw(st.lists(st.sampled_from(["a", "b", "x", "t", "usol", "Data", "m1", "field_2"]), min_size=1, max_size=4, unique=True))
    return {"names": names, "shapes": [[draw(st.integers(1, 6)), draw(st.integers(1, 6))] for _ in names],
            "kinds": [draw(st.sampled_from(["normal", "int", "big", "zeros", "float32", "complex"])) for _ in names],
            "seed": draw(G.seeds), "header": draw(st.booleans()),
            "ext": draw(st.sampled_from(["mat", "npz", "npy", "csv"])), "via": draw(st.sampled_from(["fn", "loader_file", "loader_name"]))}


@facet(table, quick=600, thorough=12000)
def array_files(c, ctx):
    d = tempfile.mkdtemp()
    A = {n: G.values(tuple(s), c["seed"] + i, k) for i, (n, s, k) in enumerate(zip(c["names"], c["shapes"], c["kinds"]))}
    p = os.path.join(d, "eqn." + c["ext"])
    first = A[c["names"][0]]
    if c["ext"] == "mat":
        sio.savemat(p, A)
    elif c["ext"] == "npz":
        np.savez(p, **A)
    elif c["ext"] == "npy":
        np.save(p, first)
    else:
        first = np.real(first).astype(float)
        hdr = c["header"] or c["via"] != "fn"
        with open(p, "w") as f:
            if hdr:
                f.write(",".join(f"c{i}" for i in range(first.shape[1])) + "\n")
            for r in first:
                f.write(",".join(repr(float(v)) for v in r) + "\n")
    if c["via"] == "loader_file":
        r = B.PDEDataLoader("/nonexistent").load_data(file=p)
    elif c["via"] == "loader_name":
        r = B.PDEDataLoader(d).load_data(equation_name="eqn")
    else:
        r = {"mat": lambda: B.load_mat_file(p), "npz": lambda: B.load_numpy_data(p), "npy": lambda: B.load_numpy_data(p),
             "csv": lambda: B.load_csv_data(p, has_header=c["header"])}[c["ext"]]()
    ctx.label(c["ext"]); ctx.nontrivial(first.shape[0] > 1 and first.shape[0] != first.shape[1])
    if c["ext"] in ("mat", "npz"):
        eq(sorted(r), sorted(A), f"{c['ext']} variables")
        for n in A:
            arr_eq(r[n], A[n], f"{c['ext']} variable {n}")
    elif c["ext"] == "npy":
        arr_eq(r, first, "npy")
    else:
        close(r, first, "csv", rtol=1e-6, atol=1e-12)   # the loader stores single precision
    L = B.PDEDataLoader(d)
    raises(FileNotFoundError, lambda: L.load_data(equation_name="other"), "missing equation file")
    raises(FileNotFoundError, lambda: L.load_data(file=p + ".gone"), "missing file")
    raises(ValueError, lambda: L.load_data(), "nothing requested")
    open(os.path.join(d, "a.txt"), "w").write("1,2\n")
    raises(ValueError, lambda: L.load_data(file=os.path.join(d, "a.txt")), "unsupported extension")
    raises(ValueError, lambda: B.load_numpy_data(os.path.join(d, "a.txt")), "unsupported extension")
    raises((FileNotFoundError, OSError), lambda: B.load_mat_file(os.path.join(d, "gone.mat")), "missing .mat")
    raises((FileNotFoundError, OSError), lambda: B.load_csv_data(os.path.join(d, "gone.csv")), "missing .csv")
    raises((FileNotFoundError, OSError), lambda: B.load_numpy_data(os.path.join(d, "gone.npy")), "missing .npy")


@facet(st.dictionaries(st.sampled_from(["description", "citation", "homepage", "license", "author", "version", "unknown"]),
                       st.text("abc ,é", max_size=8)), quick=200, thorough=3000)
def info_roundtrip(dct, ctx):
    ctx.nontrivial(len(dct) >= 2)
    i = DatasetInfo.from_dict(dct)
    for k, v in dct.items():
        if k != "unknown":
            eq(getattr(i, k), v, k)
    j = i.copy()
    check(j == i and j is not i, "copy differs")
    eq(DatasetInfo.from_dict(i.to_dict()), i, "to_dict/from_dict")
    j.update(version="9")
    eq(i.version, dct.get("version", ""), "copy is not independent")
    raises(AttributeError, lambda: j.update(nope=1), "update of an unknown attribute")


@facet(enum=lambda: [{"name": n} for n in D.__all__])
def public_names(c, ctx):
    """Every name the package advertises exists (otherwise `from kd.dataset import *` fails)."""
    check(hasattr(D, c["name"]), f"kd.dataset.__all__ lists {c['name']!r}, which does not exist")
