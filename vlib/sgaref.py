"""Reference model of the SGA solver's problem context and terms (no code of kd involved)."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vlib import gens as G

AXES = ["x", "t", "y", "z", "r", "lat"]
FIELDS = ["u", "v", "w", "rho", "T2", "u2"]


def d1(u, h, ax):
    u = np.moveaxis(np.asarray(u, float), ax, 0)
    g = np.empty(u.shape)
    g[1:-1] = (u[2:] - u[:-2]) / (2 * h)
    g[0] = (-3 * u[0] + 4 * u[1] - u[2]) / (2 * h)
    g[-1] = (3 * u[-1] - 4 * u[-2] + u[-3]) / (2 * h)
    return np.moveaxis(g, 0, ax)


def d2(u, h, ax):
    u = np.moveaxis(np.asarray(u, float), ax, 0)
    g = np.empty(u.shape)
    g[1:-1] = (u[2:] - 2 * u[1:-1] + u[:-2]) / h ** 2
    g[0] = (2 * u[0] - 5 * u[1] + 4 * u[2] - u[3]) / h ** 2
    g[-1] = (2 * u[-1] - 5 * u[-2] + 4 * u[-3] - u[-4]) / h ** 2
    return np.moveaxis(g, 0, ax)


@st.composite
def problem(draw, min_axes=2, max_axes=3, min_n=4, max_n=6, legacy=None, maxfields=2, params=True, xt=False):
    """A problem specification: axis order, target field, lhs axis, grid and field content."""
    leg = draw(st.booleans()) if legacy is None else legacy
    if leg:
        order, fields, target, lhs = ["x", "t"], ["u"], "u", "t"
    else:
        k = draw(st.integers(min_axes, max_axes))
        order = draw(st.lists(st.sampled_from(AXES), min_size=k, max_size=k, unique=True))
        if xt:
            order = draw(st.permutations(["x", "t"]))
        fields = draw(st.lists(st.sampled_from(FIELDS), min_size=1, max_size=maxfields, unique=True))
        target = draw(st.sampled_from(fields))
        lhs = draw(st.sampled_from(list(order)))
    return {"legacy": leg, "order": list(order), "shape": [draw(st.integers(min_n, max_n)) for _ in order], "fields": fields,
            "target": target, "lhs": lhs, "seed": draw(G.seeds), "params": draw(st.lists(st.sampled_from(["nu", "kap"]), max_size=2, unique=True)) if params else [],
            "x0": [draw(st.sampled_from([0.0, 1.0, -0.5, 2.0, "centred"])) for _ in order], "h": [draw(st.sampled_from([0.25, 0.5, 0.1, 1.0])) for _ in order],
            "kind": draw(st.sampled_from(["smooth", "smooth", "normal", "zeros"]))}


def arrays(s):
    c = {a: (-h * (n - 1) / 2 if x0 == "centred" else x0) + h * np.arange(n) for a, n, x0, h in zip(s["order"], s["shape"], s["x0"], s["h"])}
    ax = [c[a] for a in s["order"]]
    mk = lambda i: G.smooth(ax, s["seed"] + 31 * i) if s["kind"] == "smooth" else G.values(tuple(s["shape"]), s["seed"] + 31 * i, s["kind"])
    f = {n: mk(i) for i, n in enumerate(s["fields"])}
    p = {n: 0.5 + np.abs(G.values(tuple(s["shape"]), s["seed"] + 997 * (i + 1))) for i, n in enumerate(s["params"])}
    return c, f, p


class Ref:
    """What the prepared problem has to contain."""

    def __init__(self, s, arr=None):
        self.c, self.f, self.p = arr or arrays(s)
        self.order, self.target, self.lhs = s["order"], s["target"], s["lhs"]
        self.ax = {a: i for i, a in enumerate(self.order)}
        self.h = {a: float(self.c[a][1] - self.c[a][0]) for a in self.order}
        self.shape = tuple(len(self.c[a]) for a in self.order)
        self.spatial = [a for a in self.order if a != self.lhs]
        self.grid = {a: np.broadcast_to(self.c[a].reshape([-1 if i == self.ax[a] else 1 for i in range(len(self.order))]), self.shape)
                     for a in self.order}
        self.ut = self.diff(self.f[self.target], self.lhs)
        self.grads = {f"{n}_{a}": self.diff(v, a) for n, v in self.f.items() for a in self.spatial}
        self.leaves = {**self.f, **{a: self.grid[a] for a in self.spatial}, **self.p, "0": np.zeros(self.shape), **self.grads}
        self.primary = "x" if "x" in self.spatial else self.spatial[0]

    def diff(self, v, a, k=1):
        return (d1 if k == 1 else d2)(v, self.h[a], self.ax[a])


def make_dataset(s, arr=None):
    from kd.dataset import PDEDataset
    c, f, p = arr or arrays(s)
    if s["legacy"]:
        return PDEDataset("made_up", x=c["x"], t=c["t"], usol=f["u"], param_fields=p or None)
    return PDEDataset("made_up", fields_data=f, coords_1d=c, axis_order=s["order"], target_field=s["target"], lhs_axis=s["lhs"],
                      param_fields=p or None)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def make_context(s, arr=None, **over):
    from kd.model.sga.adapter import SGADataAdapter
    from kd.model.sga.sgapde.config import SolverConfig
    from kd.model.sga.sgapde.context import ProblemContext
    with quiet():
        kw = SGADataAdapter(make_dataset(s, arr)).to_solver_kwargs()
        kw.update(over)
        return ProblemContext(SolverConfig(**kw))


# ------------------------------------------------------------------ trees
def expr(tree, depth=0, idx=0):
    """Nested-list form of a solver tree, read from its node links."""
    n = tree.tree[depth][idx]
    if n.child_num == 0:
        return n.name
    return [n.name] + [expr(tree, depth + 1, n.child_st + k) for k in range(n.child_num)]


def prefix(e):
    return [e] if isinstance(e, str) else [e[0]] + [t for c in e[1:] for t in prefix(c)]


def parse_prefix(tokens, arity):
    def go(i):
        k = arity.get(tokens[i], 0)
        if k == 0:
            return tokens[i], i + 1
        out = [tokens[i]]
        i += 1
        for _ in range(k):
            c, i = go(i)
            out.append(c)
        return out, i
    e, i = go(0)
    if i != len(tokens):
        raise ValueError("trailing tokens")
    return e


def parse_infix(s):
    """'(a op b)' / '( op a)' as printed by the solver."""
    tok = s.replace("(", " ( ").replace(")", " ) ").split()

    def go(i):
        if tok[i] != "(":
            return tok[i], i + 1
        if tok[i + 1] in ("^2", "^3"):
            a, j = go(i + 2)
            if tok[j] != ")":
                raise ValueError(f"expected ) at {j} in {s}")
            return [tok[i + 1], a], j + 1
        a, j = go(i + 1)
        op = tok[j]
        b, j = go(j + 1)
        if tok[j] != ")":
            raise ValueError(f"expected ) at {j} in {s}")
        return [op, a, b], j + 1
    e, i = go(0)
    if i != len(tok):
        raise ValueError(f"trailing text in {s}")
    return e


class Dropped(Exception):
    pass


def evaluate(e, ref, guard=False):
    """Value of an expression on the grid; Dropped when the solver is documented to discard it."""
    if isinstance(e, str):
        return np.asarray(ref.leaves[e], float) if e in ref.leaves else np.asarray(ref.grid[e], float)
    op = e[0]
    if op in ("d", "d^2"):
        if e[2] == ref.lhs:
            raise Dropped("lhs derivative")
        return ref.diff(evaluate(e[1], ref, guard), e[2], 1 if op == "d" else 2)
    a = evaluate(e[1], ref, guard)
    if op == "^2":
        return a ** 2
    if op == "^3":
        return a ** 3
    b = evaluate(e[2], ref, guard)
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        if np.all(np.abs(b) <= 1e-10):
            if guard:
                raise Dropped("zero division")
            b = b + 1e-6
        while np.any(b == 0):
            b = b + 1e-10
        return a / b
    raise KeyError(op)


ARITY = {"+": 2, "-": 2, "*": 2, "/": 2, "d": 2, "d^2": 2, "^2": 1, "^3": 1}
ROOTS = {"*", "d", "d^2", "/", "^2", "^3"}


def depth_of(e):
    return 1 if isinstance(e, str) else 1 + max(depth_of(c) for c in e[1:])


def problems(e, ref, root=True):
    """Why an expression is not a legal candidate term (None when it is)."""
    if isinstance(e, str):
        if root:
            return f"the root is the leaf {e}"
        return None if e in ref.leaves else f"unknown leaf {e!r}"
    op = e[0]
    if op not in ARITY:
        return f"unknown operator {op!r}"
    if len(e) - 1 != ARITY[op]:
        return f"{op} has {len(e) - 1} operands"
    if root and op not in ROOTS:
        return f"root operator {op!r}"
    if op in ("d", "d^2"):
        if not isinstance(e[2], str) or e[2] not in ref.grid:
            return f"derivative with respect to {e[2]!r}"
        if e[2] == ref.lhs:
            return f"derivative with respect to the left-hand axis {e[2]!r}"
        return problems(e[1], ref, False)
    for c in e[1:]:
        p = problems(c, ref, False)
        if p:
            return p
    return None


def build_tree(e, context, max_depth=None):
    """A solver tree holding expression `e` (layered node layout as the solver's own trees)."""
    from kd.model.sga.sgapde.tree import Node, Tree
    rows = {r[0]: r for r in context.OPS}
    rows.update({r[0]: r for r in context.ROOT})
    leaves = {r[0]: r for r in context.VARS}
    den = {r[0]: r for r in context.den}
    need = depth_of(e)
    max_depth = max(max_depth or need, need)
    t = Tree(context, 2, 1.0)
    t.max_depth = max_depth
    layers = [[] for _ in range(max_depth)]

    def row(name, axis):
        if name in rows:
            return rows[name]
        if axis and name in den:
            return den[name]
        if name in leaves:
            return leaves[name]
        return np.array([name, 0, np.asarray(context.coord_grids[name], float)], dtype=object)

    level = [(e, None, False)]
    d = 0
    while level:
        nxt, cnt = [], 0
        for i, (x, parent, axis) in enumerate(level):
            name = x if isinstance(x, str) else x[0]
            kids = [] if isinstance(x, str) else x[1:]
            r = row(name, axis)
            layers[d].append(Node(depth=d, idx=i, parent_idx=parent, name=r[0], full=r, child_num=len(kids),
                                  child_st=cnt if kids else None, var=r[2]))
            cnt += len(kids)
            nxt += [(k, i, name in ("d", "d^2") and j == 1) for j, k in enumerate(kids)]
        level, d = nxt, d + 1
    t.tree = layers
    t.preorder = " ".join(prefix(e))
    t.inorder = infix(e)
    return t


def infix(e):
    if isinstance(e, str):
        return e
    if len(e) == 2:
        return f"( {e[0]} {infix(e[1])})"
    return f"({infix(e[1])} {e[0]} {infix(e[2])})"


def exprs(leaves, axes, max_depth=4):
    """Strategy of candidate expressions with the given leaves and derivative axes."""
    leaf = st.sampled_from(leaves)

    def node(child):
        return st.one_of(
            st.tuples(st.sampled_from(["*", "/", "+", "-", "*"]), child, child).map(list),
            st.tuples(st.sampled_from(["^2", "^3"]), child).map(list),
            st.tuples(st.sampled_from(["d", "d^2"]), child, st.sampled_from(axes)).map(list))
    lev = leaf
    for _ in range(max_depth - 2):
        lev = st.one_of(leaf, node(lev))
    return st.one_of(
        st.tuples(st.sampled_from(["*", "/"]), lev, lev).map(list),
        st.tuples(st.sampled_from(["^2", "^3"]), lev).map(list),
        st.tuples(st.sampled_from(["d", "d^2"]), lev, st.sampled_from(axes)).map(list))


class Noisy:
    """The reference with rounding-sized noise in every operation, to find ill-conditioned terms."""

    def __init__(self, ref, seed):
        self.__dict__.update(ref.__dict__)
        self.r = np.random.RandomState(seed)
        self.leaves = {k: np.asarray(v, float) for k, v in ref.leaves.items()}

    def diff(self, v, a, k=1):
        s = np.max(np.abs(v)) / self.h[a] ** k if np.size(v) else 0.0
        g = (d1 if k == 1 else d2)(v, self.h[a], self.ax[a])
        return g + 1e-14 * s * self.r.uniform(-1, 1, self.shape) if np.isfinite(s) else g


def value(e, ref, guard=False, tol=1e-5):
    """('ok', column) | ('drop', why) | ('unclear', why) | ('inf', None)."""
    outs = []
    with np.errstate(all="ignore"):
        for k in range(3):
            try:
                outs.append(evaluate(e, ref if k == 0 else Noisy(ref, k), guard))
            except Dropped as ex:
                outs.append(str(ex))
    if any(isinstance(o, str) for o in outs):
        return ("drop", outs[0]) if len({o if isinstance(o, str) else "" for o in outs}) == 1 else ("unclear", "division guard")
    v = np.asarray(outs[0], float)
    if not all(np.all(np.isfinite(o)) for o in outs):
        return ("inf", None) if not any(np.all(np.isfinite(o)) for o in outs) else ("unclear", "overflow")
    s = max(np.max(np.abs(v)), 1e-300)
    if np.max(np.abs(v)) > 1e150:
        return "unclear", "huge"
    if any(np.max(np.abs(o - v)) > tol * s for o in outs[1:]):
        return "unclear", "ill-conditioned"
    if not np.any(v):
        return "drop", "zero"
    return "ok", np.broadcast_to(v, ref.shape).reshape(-1)


def candidate(c, terms, extra=0):
    from kd.model.sga.sgapde.pde import PDE
    p = PDE(c, 3, 1, 0.5)
    p.elements = [build_tree(e, c, depth_of(e) + extra) for e in terms]
    p.W = len(p.elements)
    return p
