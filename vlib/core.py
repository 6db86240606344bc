"""Property-check harness: generated cases, explicit oracles, shrinking, replay files.

A check module (checks/cNN.py) declares facets:

    @facet(strategy, quick=300, thorough=6000)
    def roundtrip(case, ctx): ...

`strategy` yields JSON-able cases; the body raises Violation (via the helpers
below) when the property is broken, and calls ctx.nontrivial() for cases that
exercise the interesting part.  An exception that escapes from code under
/repo on an input the property covers is a violation too; an AttributeError /
ImportError raised by the check itself is a harness error (exit 2).
"""
import contextlib
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

import numpy as np

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig or ""


class HarnessError(Exception):
    pass


class CaseTimeout(Exception):
    pass


class StopSearch(BaseException):
    pass


class Skip(Exception):
    """The case is outside the property's domain."""


# ------------------------------------------------------------------ oracles
def fail(msg, sig=None):
    raise Violation(msg, sig)


def check(cond, msg, sig=None, **show):
    if not cond:
        m = msg() if callable(msg) else msg
        raise Violation(m + "".join(f"; {k}={v!r}" for k, v in show.items()), sig)


def eq(a, b, what, sig=None):
    if not (a == b):
        raise Violation(f"{what}: got {a!r}, expected {b!r}", sig)


def arr_eq(a, b, what, sig=None):
    """Exact equality of shape and values (NaN equal)."""
    try:
        a, b = np.asarray(a), np.asarray(b)
    except Exception as e:
        raise Violation(f"{what}: not an array ({e})", sig)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {b.shape}", sig)
    try:
        same = np.array_equal(a, b, equal_nan=True)
    except TypeError:
        same = np.array_equal(a, b)
    if not same:
        raise Violation(f"{what}: values differ: got {short(a)}, expected {short(b)}", sig)


def close(a, b, what, rtol=1e-8, atol=1e-10, sig=None, shape=True):
    """Numerical agreement; `atol` is relative to nothing, pass a scaled one."""
    try:
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except Exception as e:
        raise Violation(f"{what}: not numeric ({e})", sig)
    if shape and a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {b.shape}", sig)
    try:
        ok = np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    except ValueError as e:
        raise Violation(f"{what}: {e}", sig)
    if not ok:
        d = np.max(np.abs(np.where(np.isfinite(a) & np.isfinite(b), a - b, np.inf)))
        raise Violation(f"{what}: max difference {d}: got {short(a)}, expected {short(b)}", sig)


def short(a, n=12):
    a = np.asarray(a)
    s = np.array2string(a.reshape(-1)[:n], precision=6)
    return s + (f"...{a.shape}" if a.size > n else "")


def raises(types, fn, what, sig=None):
    try:
        r = fn()
    except types as e:
        return e
    except (CaseTimeout, StopSearch):
        raise
    except Exception as e:
        raise Violation(f"{what}: expected {names(types)}, got {type(e).__name__}: {e}", sig)
    raise Violation(f"{what}: expected {names(types)}, but it was accepted ({str(r)[:80]})", sig)


def names(t):
    return "/".join(x.__name__ for x in t) if isinstance(t, tuple) else t.__name__


class Frozen:
    """Snapshot of arrays / dicts / lists of arrays; verify() reports any change."""

    def __init__(self, **objs):
        self.objs = objs
        self.copy = {k: self._cp(v) for k, v in objs.items()}

    @classmethod
    def _cp(cls, v):
        if isinstance(v, np.ndarray):
            return v.copy()
        if isinstance(v, dict):
            return {k: cls._cp(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [cls._cp(x) for x in v]
        return v

    @classmethod
    def _diff(cls, a, b, path):
        if isinstance(b, np.ndarray):
            if not isinstance(a, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype \
                    or a.tobytes() != b.tobytes():
                return path
            return None
        if isinstance(b, dict):
            if not isinstance(a, dict) or list(a) != list(b):
                return path + " keys"
            for k in b:
                d = cls._diff(a[k], b[k], f"{path}[{k!r}]")
                if d:
                    return d
            return None
        if isinstance(b, list):
            if len(a) != len(b):
                return path + " length"
            for i, (x, y) in enumerate(zip(a, b)):
                d = cls._diff(x, y, f"{path}[{i}]")
                if d:
                    return d
            return None
        try:
            same = (a is b) or bool(a == b)
        except Exception:
            same = True
        return None if same else path

    def verify(self, what, sig=None):
        for k in self.objs:
            d = self._diff(self.objs[k], self.copy[k], k)
            if d:
                raise Violation(f"{what}: caller's data changed: {d}", sig)


@contextlib.contextmanager
def env(**kv):
    old = {k: os.environ.get(k) for k in kv}
    try:
        for k, v in kv.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


# ------------------------------------------------------------------ facets
class Ctx:
    def __init__(self):
        self.labels = {}
        self.nt = False
        self._note = None

    def nontrivial(self, cond=True):
        self.nt = self.nt or bool(cond)

    def label(self, s, cond=True):
        if cond:
            self.labels[s] = self.labels.get(s, 0) + 1

    def note(self, s):
        self._note = s


class Facet:
    def __init__(self, fn, strategy, quick, thorough, shards, case_s, enum):
        self.fn, self.name, self.strategy = fn, fn.__name__, strategy
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.case_s, self.enum = case_s, enum


_CURRENT = []


def facet(strategy=None, quick=200, thorough=4000, shards=1, case_s=90, enum=None):
    """Declare a facet.  enum: a callable giving a finite list of cases instead of a strategy."""
    def deco(fn):
        _CURRENT.append(Facet(fn, strategy, quick, thorough, shards, case_s, enum))
        return fn
    return deco


def load(pid):
    del _CURRENT[:]
    mod = importlib.import_module(f"checks.{pid.lower()}")
    return mod, list(_CURRENT)


def jdump(case):
    return json.dumps(case, sort_keys=True, default=_np_default)


def _np_default(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(f"case not JSON-able: {type(o)}")


def seed_all(n):
    random.seed(n)
    np.random.seed(n % (2**32))
    if "torch" in sys.modules:
        sys.modules["torch"].manual_seed(n)


def _from_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def run_case(f, case):
    """Run one case; returns ctx; raises Violation/HarnessError."""
    key = jdump(case)
    case = json.loads(key)  # what the replay will see
    seed_all(int(hashlib.sha1(key.encode()).hexdigest()[:7], 16))
    ctx = Ctx()

    def on_alarm(*_):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, f.case_s)
    try:
        f.fn(case, ctx)
    except Skip:
        ctx.nt = False
        ctx.label("skipped")
    except (Violation, StopSearch, KeyboardInterrupt, MemoryError):
        raise
    except CaseTimeout:
        raise Violation(f"no answer within {f.case_s} s (a case takes well under a second on the base code)",
                        "timeout")
    except BaseException as e:  # SystemExit from the code under test included
        tb = e.__traceback__
        where = traceback.extract_tb(tb)[-1]
        txt = f"{type(e).__name__}: {e} at {where.filename}:{where.lineno}"
        inrepo = _from_repo(tb)
        harness = isinstance(e, (ImportError, NameError))
        if isinstance(e, AttributeError):
            # a plain value without the expected attribute is a wrong result; a module or
            # class of the repository without it is something this check does not know
            o = getattr(e, "obj", None)
            m = getattr(o, "__name__", "") if isinstance(o, type(sys)) else \
                (o if isinstance(o, type) else type(o)).__module__
            harness = o is None and "NoneType" not in str(e) or str(m).split(".")[0] in ("kd", "checks", "vlib")
        if not inrepo and harness:
            raise HarnessError("".join(traceback.format_exception(type(e), e, tb)[-6:]))
        raise Violation(("unexpected exception " if inrepo else "unusable result, ") + txt,
                        "exc:" + type(e).__name__)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return ctx


def run_facet(pid, f, tier, seed, shard, budget_s, known):
    """Search one facet (one shard). Returns a result dict."""
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    t0 = time.time()
    res = {"facet": f.name, "shard": shard, "evaluations": 0, "keys": set(), "samples": [],
           "labels": {}, "known": {}, "violation": None, "error": None, "budget_hit": False}
    st = {"best": None, "t_fail": None}

    def body(case):
        if st["t_fail"] is not None:
            if time.time() - st["t_fail"] > 45:
                raise StopSearch()
        elif time.time() - t0 > budget_s:
            res["budget_hit"] = True
            raise StopSearch()
        key = jdump(case)
        try:
            ctx = run_case(f, case)
        except Violation as v:
            res["evaluations"] += 1
            kf = match_known(known, pid, f.name, v, case)
            if kf is not None:
                res["known"][kf] = res["known"].get(kf, 0) + 1
                return
            if st["t_fail"] is None:
                st["t_fail"] = time.time()
            if st["best"] is None or len(key) <= len(st["best"][0]):
                st["best"] = (key, str(v), v.sig)
            raise
        res["evaluations"] += 1
        for k, n in ctx.labels.items():
            res["labels"][k] = res["labels"].get(k, 0) + n
        if ctx.nt:
            h = hashlib.sha1(key.encode()).hexdigest()[:16]
            if h not in res["keys"]:
                res["keys"].add(h)
                if len(res["samples"]) < 2 and len(key) < 3000:
                    s = {"facet": f.name, "case": json.loads(key)}
                    if ctx._note:
                        s["note"] = ctx._note
                    res["samples"].append(s)

    try:
        if f.enum is not None:
            cases = f.enum(tier) if f.enum.__code__.co_argcount else f.enum()
            n = max(1, f.shards)
            for i, c in enumerate(cases):
                if i % n == shard:
                    body(c)
        else:
            n = f.quick if tier == "quick" else f.thorough
            n = max(1, n // max(1, f.shards))
            s = int(hashlib.sha1(f"{seed}/{pid}/{f.name}/{shard}".encode()).hexdigest()[:8], 16)
            strat = f.strategy() if callable(f.strategy) else f.strategy
            test = hseed(s)(settings(
                max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck), print_blob=False,
                phases=[Phase.generate, Phase.shrink])(given(strat)(body)))
            test()
    except StopSearch:
        pass
    except Violation:
        pass
    except HarnessError as e:
        res["error"] = str(e)
    except BaseException as e:
        if st["best"] is None:
            res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
    if st["best"] is not None:
        key, msg, sig = st["best"]
        res["violation"] = {"facet": f.name, "case": json.loads(key), "message": msg, "sig": sig}
    res["keys"] = sorted(res["keys"])
    res["wall_s"] = round(time.time() - t0, 2)
    return res


# ------------------------------------------------------------------ known findings
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"]]


def match_known(known, pid, fname, v, case):
    for k in known:
        if k["property"] == pid and k["facet"] == fname and k["sig"] and k["sig"] == v.sig:
            return k["id"]
    return None
