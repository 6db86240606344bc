"""Reference model of the DISCOVER expression language (token lists in prefix order); no code of kd involved in the
reference parts.  Expressions are drawn as lists of integers decoded against the library, so that they shrink well."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G

BIN = ["add", "sub", "mul", "div"]
UN = ["sin", "cos", "tan", "exp", "log", "sqrt", "n2", "neg", "abs", "tanh", "inv", "logabs", "expneg", "n3", "n4", "n5", "sigmoid"]
DIFF1 = ["diff", "diff2", "diff3", "diff4"]
DIFF2 = ["Diff", "Diff2"]
DIFF3 = ["Diff_3", "Diff2_3"]
LAP = {2: ["lap"], 3: ["lap_3"]}
ARITY = {**{n: 2 for n in BIN + DIFF1 + DIFF2 + DIFF3}, **{n: 1 for n in UN + ["lap", "lap_3"]}}
DIFFS = set(DIFF1 + DIFF2 + DIFF3)
ADDITIVE = {"add": 1, "sub": -1}


def base(name):
    """The operator behind a name of the physics-informed mode (diff_t -> diff)."""
    return name[:-2] if name.endswith("_t") else name


def diffs_of(dim):
    return {1: DIFF1, 2: DIFF2 + ["lap"], 3: DIFF3 + ["lap_3"]}[dim]


@st.composite
def lib_specs(draw, pde=None, consts=True, params=True, need=(), funs=None, torch=False):
    """{pde, dim, nu, params, functions, protected}; torch=True: operators of the physics-informed mode"""
    if torch:
        fs = list(need) + [n for n in draw(st.permutations(["add_t", "sub_t", "mul_t", "div_t", "n2_t", "n3_t"]))[:draw(st.integers(1, 6))] if n not in need]
        fs = list(draw(st.permutations(fs)))
        dim = draw(st.sampled_from([1, 1, 2, 3]))
        fs += draw(st.permutations(["diff_t", "diff2_t", "diff3_t", "diff4_t", "lap_t"]))[:draw(st.integers(1, 4))]
        return {"pde": True, "dim": dim, "nu": draw(st.integers(1, 2)), "params": draw(st.permutations(["nu", "kappa"]))[:draw(st.integers(0, 1))] if params else [], "functions": fs, "protected": False}
    pde = draw(st.booleans()) if pde is None else pde
    dim = draw(st.sampled_from([1, 1, 2, 3]))
    pool = list(funs) if funs else BIN + UN
    k = draw(st.integers(1, 7))
    fs = draw(st.permutations(pool))[:k]
    for n in need:
        if n not in fs:
            fs.insert(draw(st.integers(0, len(fs))), n)
    if pde and draw(st.booleans()):
        fs += draw(st.permutations(diffs_of(dim)))[:draw(st.integers(1, 3))]
    if consts and not pde and draw(st.booleans()):
        fs.append("const")
    return {"pde": pde, "dim": dim, "nu": draw(st.integers(1, 2)) if pde else 0,
            "params": draw(st.permutations(["nu", "kappa", "alpha", "p1"]))[:draw(st.integers(0, 2))] if pde and params else [],
            "functions": fs, "protected": draw(st.booleans())}


def all_libs(need=(), **kw):
    """Libraries of all modes: tables, grids and (one in four) physics-informed."""
    return st.integers(0, 3).flatmap(lambda k: lib_specs(need=tuple(n + "_t" for n in need if n in BIN), torch=True) if k == 3 else lib_specs(need=need, **kw))


def names_of(spec):
    """Token names in library order: coordinates, fields, parameters, functions."""
    return ([f"x{i + 1}" for i in range(spec["dim"])] + [f"u{i + 1}" for i in range(spec["nu"])] + list(spec["params"]) + list(spec["functions"]))


def arity(name):
    return ARITY.get(name, ARITY.get(base(name), 0))


def library(spec):
    from kd.model.discover.functions import create_tokens
    from kd.model.discover.library import Library
    return Library(create_tokens(n_input_var=spec["dim"], function_set=list(spec["functions"]), protected=spec["protected"],
                                 n_state_var=spec["nu"], task_type="pde" if spec["pde"] else "regression",
                                 n_param_var=len(spec["params"]), param_names=list(spec["params"]) or None))


ints = st.lists(st.integers(0, 9999), min_size=0, max_size=24)


def decode(nums, names, max_len=30, typed=True, leaf=None, root=None):
    """A complete prefix expression over `names`; with typed=True the second operand of a derivative is a coordinate."""
    ar = [arity(n) for n in names]
    terms = [i for i, a in enumerate(ar) if a == 0]
    xs = [i for i, n in enumerate(names) if n[0] == "x" and n[1:].isdigit()]
    leaf = terms if leaf is None else leaf
    out, open_, i = [], ["any"], 0
    while open_:
        kind = open_.pop()
        v = nums[i] if i < len(nums) else None
        i += 1
        if kind == "x" and typed:
            out.append(xs[(v or 0) % len(xs)])
            continue
        room = v is not None and len(out) + len(open_) + 4 <= max_len
        pool = list(range(len(names))) if room else leaf
        if root is not None and not out and room:
            pool = root
        t = pool[(v or 0) % len(pool)]
        out.append(t)
        if ar[t] == 2:
            open_ += ["x" if base(names[t]) in DIFFS else "any", "any"]
        elif ar[t] == 1:
            open_.append("any")
    return out


def tree(tokens):
    """Nested tuples (name, child, ...) from a prefix list of names."""
    it = iter(tokens)

    def rec():
        n = next(it)
        return (n,) + tuple(rec() for _ in range(arity(n)))
    t = rec()
    rest = list(it)
    assert not rest, rest
    return t


def prefix(t):
    return [t[0]] + [n for c in t[1:] for n in prefix(c)]


def text(t):
    return t[0] if len(t) == 1 else f"{t[0]}({','.join(text(c) for c in t[1:])})"


def depth(t):
    return 1 + max((depth(c) for c in t[1:]), default=0)


def split(t, sign=1):
    """[(sign, term)] of the top-level additive structure."""
    if base(t[0]) in ADDITIVE:
        return split(t[1], sign) + split(t[2], sign * ADDITIVE[base(t[0])])
    return [(sign, t)]


def complete_length(tokens, arities):
    """Length of the first complete expression in `tokens`, or None; and the number of open slots at the end."""
    need = 1
    for k, t in enumerate(tokens):
        need += arities[t] - 1
        if need == 0:
            return k + 1, 0
    return None, need


def set_program(lib, **task):
    """Point the Program class at a library (fresh caches)."""
    from types import SimpleNamespace
    from kd.model.discover.program import Program
    t = SimpleNamespace(library=lib, stochastic=False, **task)
    Program.clear_cache()
    Program.set_n_objects(1)
    Program.set_default_terms([])
    Program.set_task(t)
    Program.set_execute(False, False)
    Program.set_complexity("length")
    Program.set_const_optimizer("dummy")
    return t


# ---------------------------------------------------------------- values
def op(name, protected):
    """The documented value of an operator; `protected` variants replace the undefined or huge results."""
    e = np.errstate(all="ignore")

    def w(f):
        def g(*a):
            with e:
                return f(*[np.asarray(x, float) for x in a])
        return g
    plain = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide, "sin": np.sin, "cos": np.cos, "tan": np.tan,
             "exp": np.exp, "log": np.log, "sqrt": np.sqrt, "n2": lambda x: x * x, "neg": lambda x: -x, "abs": np.abs, "tanh": np.tanh,
             "inv": lambda x: 1 / x, "logabs": lambda x: np.log(np.abs(x)), "expneg": lambda x: np.exp(-x), "n3": lambda x: x * x * x,
             "n4": lambda x: x ** 4, "n5": lambda x: x ** 5, "sigmoid": lambda x: 1 / (1 + np.exp(-x))}
    prot = {"div": lambda a, b: np.where(np.abs(b) > 0.001, a / b, 1.0), "exp": lambda x: np.where(x < 100, np.exp(x), 0.0),
            "log": lambda x: np.where(np.abs(x) > 0.001, np.log(np.abs(x)), 0.0),
            "logabs": lambda x: np.where(np.abs(x) > 0.001, np.log(np.abs(x)), 0.0), "sqrt": lambda x: np.sqrt(np.abs(x)),
            "inv": lambda x: np.where(np.abs(x) > 0.001, 1 / x, 0.0), "expneg": lambda x: np.where(x > -100, np.exp(-x), 0.0),
            "n2": lambda x: np.where(np.abs(x) < 1e6, x * x, 0.0), "n3": lambda x: np.where(np.abs(x) < 1e6, x * x * x, 0.0),
            "n4": lambda x: np.where(np.abs(x) < 1e6, x ** 4, 0.0),
            "sigmoid": lambda x: 1 / (1 + np.where(x > -100, np.exp(-x), 0.0))}
    return w(prot[name] if protected and name in prot else plain[name])


def _mask(name, protected, a):
    """Where a protected operator really evaluates its formula."""
    if not protected:
        return None
    m = {"div": lambda: np.abs(a[1]) > 0.001, "exp": lambda: a[0] < 100, "log": lambda: np.abs(a[0]) > 0.001,
         "logabs": lambda: np.abs(a[0]) > 0.001, "inv": lambda: np.abs(a[0]) > 0.001, "expneg": lambda: a[0] > -100,
         "sigmoid": lambda: a[0] > -100, "n2": lambda: np.abs(a[0]) < 1e6, "n3": lambda: np.abs(a[0]) < 1e6, "n4": lambda: np.abs(a[0]) < 1e6}
    return m[name]() if name in m else None


def fd1(u, h, axis, periodic):
    v = np.moveaxis(np.asarray(u, float), axis, 0)
    o = np.empty_like(v)
    if v.shape[0] < 3:
        raise ValueError("grid")
    o[1:-1] = (v[2:] - v[:-2]) / (2 * h)
    if periodic:
        o[0], o[-1] = (v[1] - v[-1]) / (2 * h), (v[0] - v[-2]) / (2 * h)
    else:
        o[0], o[-1] = (-3 * v[0] + 4 * v[1] - v[2]) / (2 * h), (3 * v[-1] - 4 * v[-2] + v[-3]) / (2 * h)
    return np.moveaxis(o, 0, axis)


def fd2(u, h, axis, periodic):
    v = np.moveaxis(np.asarray(u, float), axis, 0)
    o = np.empty_like(v)
    o[1:-1] = (v[2:] - 2 * v[1:-1] + v[:-2]) / h ** 2
    if periodic:
        o[0], o[-1] = (v[1] + v[-1] - 2 * v[0]) / h ** 2, (v[0] + v[-2] - 2 * v[-1]) / h ** 2
    else:
        o[0], o[-1] = (2 * v[0] - 5 * v[1] + 4 * v[2] - v[3]) / h ** 2, (2 * v[-1] - 5 * v[-2] + 4 * v[-3] - v[-4]) / h ** 2
    return np.moveaxis(o, 0, axis)


class Fields:
    """Grid data of a `dim`-dimensional problem: fields and parameters on (x, t) or (t, x, y[, z]); a coordinate varies
    along its own axis only."""

    def __init__(self, dim, x, u, params=None, protected=False, consts=()):
        self.dim, self.x, self.u, self.params, self.protected = dim, [np.asarray(c, float).ravel() for c in x], u, params or {}, protected
        self.consts, self.jitter = list(consts), None
        self.trouble = False        # a floating-point error or a non-finite value occurred somewhere

    def jit(self):
        return 2e-7 * self.jitter.uniform(-1, 1) if self.jitter else 0.0

    def axis(self, i):
        return 0 if self.dim == 1 else i + 1

    def coord(self, i):
        if not self.u:
            return self.x[i].reshape(-1, 1)
        s = [1] * self.u[0].ndim
        s[self.axis(i)] = -1
        v = self.x[i].reshape(s)
        return v * (1 + 1e-12 * self.jitter.uniform(-1, 1, v.shape)) if self.jitter else v

    def derivative(self, name, f, i):
        if f.ndim < self.u[0].ndim:
            f = f.reshape(f.shape + (1,) * (self.u[0].ndim - f.ndim))
        h, ax, per = self.x[i][2] - self.x[i][1], self.axis(i), self.dim == 2
        full = list(f.shape)
        if full[ax] == 1:
            full[ax] = len(self.x[i])
            f = np.broadcast_to(f, full)
        k = {"diff": 1, "diff2": 2, "diff3": 3, "diff4": 4, "Diff": 1, "Diff2": 2, "Diff_3": 1, "Diff2_3": 2}[name]
        for step in {1: [fd1], 2: [fd2], 3: [fd2, fd1], 4: [fd2, fd2]}[k]:
            f = step(f, h, ax, per)
        return f

    def ev(self, t):
        n = t[0]
        if n in DIFFS:
            i = int(t[2][0][1:]) - 1
            return self.note(self.derivative(n, self.ev(t[1]), i))
        if n in ("lap", "lap_3"):
            f = self.ev(t[1])
            f = np.broadcast_to(f, self.u[0].shape)
            return self.note(sum(fd2(f, self.x[i][2] - self.x[i][1], self.axis(i), self.dim == 2) for i in range(self.dim)))
        if len(t) == 1:
            if n == "const":
                return np.asarray(self.consts.pop(0))
            if n in self.params:
                return self.note(self.params[n])
            if n[0] == "x":
                return self.coord(int(n[1:]) - 1)
            if n[0] == "u":
                return self.note(self.u[int(n[1:]) - 1])
            return np.asarray(float(np.float32(float(n))) * (1 + self.jit()))      # hard-coded constants are single precision
        a = [np.asarray(self.ev(c), float) for c in t[1:]]
        m = _mask(n, self.protected, a)
        b = np.broadcast_arrays(*a)
        if m is not None:
            m = np.broadcast_to(m, b[0].shape)
            b = [v[m] for v in b]
        f = op(n, False)
        try:
            with np.errstate(all="raise"):
                g = {"n2": lambda x: x * x, "exp": np.exp, "add": np.add}.get(n)
                self._raw(n, b, g)
        except FloatingPointError:
            self.trouble = True
        del f
        v = op(n, self.protected)(*a)
        if constant(t) and (np.any(np.abs(v) > 1e36) or np.any((np.abs(v) < 1e-36) & (v != 0))):
            self.trouble = True
        return self.note(v * (1 + self.jit()) if constant(t) else v)       # ... and stay so until they meet data

    def _raw(self, n, b, g):
        raw = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide, "sin": np.sin, "cos": np.cos, "tan": np.tan,
               "exp": np.exp, "log": np.log, "sqrt": np.sqrt, "n2": np.square, "neg": np.negative, "abs": np.abs, "tanh": np.tanh,
               "inv": np.reciprocal, "logabs": lambda x: np.log(np.abs(x)), "expneg": lambda x: np.exp(-x),
               "n3": lambda x: np.power(x, 3), "n4": lambda x: np.power(x, 4), "n5": lambda x: np.power(x, 5),
               "sigmoid": lambda x: 1 / (1 + np.exp(-x))}[n]
        if n == "sqrt" and self.protected:
            b = [np.abs(b[0])]
        if n == "log" and self.protected:
            b = [np.abs(b[0])]
        raw(*b)

    def note(self, v):
        if not np.all(np.isfinite(v)):
            self.trouble = True
        return v


def constant(t):
    return all(constant(c) for c in t[1:]) if len(t) > 1 else not (t[0][0].isalpha())


def evaluate(F, t):
    """(value, spread, trouble): the value of the expression, its sensitivity to rounding-size changes of the data, and whether a
    floating-point error occurred."""
    c0 = list(F.consts)
    with np.errstate(all="ignore"):
        v = np.asarray(F.ev(t), float)
        tr = F.trouble
        spread = np.zeros_like(v)
        for k in range(3):
            r = np.random.RandomState(k)
            P = Fields(F.dim, F.x, [f * (1 + 1e-12 * r.uniform(-1, 1, f.shape)) for f in F.u],
                       {n: f * (1 + 1e-12 * r.uniform(-1, 1, f.shape)) for n, f in F.params.items()}, F.protected, c0)
            P.jitter = np.random.RandomState(10 + k)
            if not F.u:
                P.x = [c * (1 + 1e-12 * r.uniform(-1, 1, c.shape)) for c in P.x]
            w = np.asarray(P.ev(t), float)
            d = np.abs(w - v)
            spread = np.maximum(spread, np.where(np.isfinite(d), d, np.inf))
    return v, spread, tr


def agree(got, want, spread, what):
    from vlib.core import check
    got, want, spread = np.broadcast_arrays(np.asarray(got, float), want, spread)
    tol = 1e-9 * (np.abs(want) + 1e-3) + 1e4 * spread
    with np.errstate(all="ignore"):
        bad = np.isfinite(tol) & ~(np.abs(got - want) <= tol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        check(False, f"{what}: value at {i} is {got[i]!r}, expected {want[i]!r} (tolerance {tol[i]:.2e})")
    return float(np.mean(np.isfinite(tol)))


# ---------------------------------------------------------------- partial expressions
class Partial:
    """The partial tree of a prefix sequence: what the next token will be attached to."""

    def __init__(self, tokens, arities):
        self.n, self.open = len(tokens), []          # open: [token, operands still missing, operands so far]
        self.done = self.n > 0
        self.first_complete = None
        self.dangling = 1
        for i, t in enumerate(tokens):
            self.dangling += int(arities[t]) - 1
            if arities[t] > 0:
                self.open.append([int(t), int(arities[t]), []])
            else:
                node = int(t)
                while self.open:
                    self.open[-1][1] -= 1
                    self.open[-1][2].append(node)
                    if self.open[-1][1]:
                        break
                    node = self.open.pop()[0]
            if self.dangling == 0 and self.first_complete is None:
                self.first_complete = i + 1

    @property
    def parent(self):
        return self.open[-1][0] if self.open else None

    @property
    def sibling(self):
        return self.open[-1][2][-1] if self.open and self.open[-1][2] else None

    @property
    def ancestors(self):
        return {o[0] for o in self.open}
