"""C16: Discover token sequences and programs correspond one to one."""
import triton._C.libtriton  # noqa: F401
import copy
import pickle

import numpy as np
import sympy
from hypothesis import strategies as st

from vlib import discref as R, gens as G
from vlib.core import check, close, eq, facet, raises
from vlib.sgaref import quiet

TECHNIQUE = ("property-based testing: random token libraries and random token sequences (complete, over-long and cut short), against a reference prefix-expression "
             "parser: completion/truncation, identity of programs, agreement of tokens/tree/text/length, value-preserving additive splitting with an "
             "independent evaluator, and pickle / deep-copy round trips")
RULE = "non-trivial: a sequence of at least 3 tokens with a function token (most facets); at least one nested subtraction (splitting)"


def nums(lo=1, hi=40):
    return st.lists(st.integers(0, 9999), min_size=lo, max_size=hi)


def task_type(s):
    return "pde" if s["pde"] else "regression"


@facet(st.tuples(R.all_libs(), nums(), G.seeds), quick=400, thorough=12000, shards=2)
def completion(case, ctx):
    """Raw sequences: cut after the first complete expression, or completed with input tokens."""
    s, ns, seed = case
    from kd.model.discover.program import Program, from_tokens
    lib = R.library(s)
    R.set_program(lib, task_type=task_type(s))
    toks = np.array([n % lib.L for n in ns], dtype=np.int32)
    raw = toks.copy()
    L, missing = R.complete_length(toks.tolist(), lib.arities)
    np.random.seed(seed)
    p = from_tokens(toks)
    eq(toks.tolist(), raw.tolist(), "argument of from_tokens (unchanged)")
    got = [int(t) for t in p.tokens]
    if L is not None:
        eq(got, raw[:L].tolist(), f"program of {raw.tolist()} (complete after {L})")
    else:
        eq(got[:len(raw)], raw.tolist(), "prefix of a completed program")
        eq(len(got), len(raw) + missing, "number of tokens appended")
        check(all(lib.tokens[t].input_var is not None for t in got[len(raw):]), f"completed with {got[len(raw):]}")
    names = [lib.names[t] for t in got]
    R.tree(names)
    eq([t.name for t in p.traversal], names, "traversal of the program")
    check(all(t is lib.tokens[i] for t, i in zip(p.traversal, got)), "traversal holds the library's own tokens")
    eq(p.len_traversal, len(got), "length")
    # finish_tokens=False keeps a complete sequence as it is
    q = from_tokens(np.array(got, dtype=np.int32), finish_tokens=False)
    check(q is p, "the completed sequence is a different program")
    # policy counts
    r = from_tokens(np.array(got, dtype=np.int32), on_policy=False)
    check(r is p, "off-policy sample of the same sequence is a different program")
    eq((p.on_policy_count, p.off_policy_count, p.originally_on_policy), (2, 1, True), "sampling counts")
    z = from_tokens(np.array(got, dtype=np.int32), skip_cache=True)
    check(z is not p and z.tokens.tolist() == got, "skip_cache")
    Program.clear_cache()
    check(from_tokens(np.array(got, dtype=np.int32)) is not p, "cache cleared, same object")
    ctx.nontrivial(len(got) >= 3 and any(R.arity(n) for n in names))
    ctx.label("cut" if L is not None and L < len(raw) else ("complete" if L else "completed"))


@facet(st.tuples(R.all_libs(), st.lists(nums(1, 8), min_size=2, max_size=6), G.seeds, st.integers(0, 24)), quick=200, thorough=6000, shards=1)
def sharing(case, ctx):
    """Programs are shared exactly by equal (finished) sequences; constants of one program never reach another."""
    s, many, seed, common = case
    from kd.model.discover.program import from_str_tokens, from_tokens
    lib = R.library(s)
    R.set_program(lib, task_type=task_type(s))
    names = R.names_of(s)
    seqs = [R.decode(ns, names, typed=False) for ns in many]
    if common % 3 == 0:                     # long sequences that agree up to their last tokens
        fn = [i for i, n in enumerate(names) if R.arity(n)]
        seqs = [[t for k in range(4 * common) for t in [fn[(seed + k) % len(fn)]] + [k % s["dim"]] * (R.arity(names[fn[(seed + k) % len(fn)]]) - 1)] + q for q in seqs]
        ctx.label("long common prefix", common >= 6)
    seqs += seqs[:2]
    progs = [from_tokens(np.array(q + [0, 1][:len(q) % 3], dtype=np.int32)) for q in seqs]
    for a, p in zip(seqs, progs):
        for b, q in zip(seqs, progs):
            check((p is q) == (a == b), f"{a} and {b}: same program {p is q}")
            if a == b:
                eq(p.str, q.str, "identifiers of equal programs")
            else:
                check(p.str != q.str, f"identifier shared by {a} and {b}")
    if "const" in names:
        r = np.random.RandomState(seed)
        base = ["x1"] + [n for n in names if R.arity(n) == 2][:1]
        expr = ([base[-1], "%r", "x1"] if len(base) > 1 else ["%r"])
        vals = [round(float(v), 4) for v in r.uniform(-5, 5, 3)]
        ps = [from_str_tokens(",".join(expr).replace("%r", repr(v))) for v in vals]
        for p, v in zip(ps, vals):
            eq(p.get_constants(), [v], "constants of a program made from text")
        ctx.label("constants")
    ctx.nontrivial(len({tuple(q) for q in seqs}) > 1)


def plain_names(node, ren):
    return (ren.get(node[0], node[0]),) + tuple(plain_names(c, ren) for c in node[1:])


def sym(t, F):
    """The expression as sympy; operators sympy does not know stay opaque functions."""
    a = [sym(c, F) for c in t[1:]]
    n = t[0]
    known = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y, "neg": lambda x: -x,
             "inv": lambda x: 1 / x, "n2": lambda x: x ** 2, "n3": lambda x: x ** 3, "n4": lambda x: x ** 4, "sin": sympy.sin, "cos": sympy.cos,
             "tan": sympy.tan, "exp": sympy.exp, "log": sympy.log, "sqrt": sympy.sqrt, "abs": sympy.Abs, "tanh": sympy.tanh}
    if n in known:
        return known[n](*a)
    if a:
        return sympy.Function(n)(*a)
    return F(n)


@facet(st.tuples(R.lib_specs(), nums(2, 30)), quick=300, thorough=8000, shards=2)
def representations(case, ctx):
    """Tokens, tree, text forms, symbolic form, constants and complexity describe one expression."""
    s, ns = case
    from kd.model.discover.program import Program, build_tree, from_str_tokens, from_tokens
    lib = R.library(s)
    R.set_program(lib, task_type=task_type(s))
    names = R.names_of(s)
    toks = R.decode(ns, names, max_len=26)
    nm = [names[t] for t in toks]
    t = R.tree(nm)
    p = from_tokens(np.array(toks, dtype=np.int32))
    eq(repr(p), ",".join(nm), "text of the program")
    check(from_str_tokens(repr(p)) is p, "reading the program's text gives another program")
    check(from_str_tokens(repr(p).split(",")) is p, "reading the program's token list gives another program")
    eq(lib.actionize(repr(p)).tolist(), toks, "actionize(text)")
    eq([k.name for k in lib.tokenize(",".join(nm))], nm, "tokenize(text)")
    eq(p.const_pos, [i for i, n in enumerate(nm) if n == "const"], "positions of constants")
    Program.set_complexity("length"); eq(p.__dict__.pop("complexity", None) or p.complexity, len(nm), "length complexity")
    Program.set_complexity("token"); p.__dict__.pop("complexity", None)
    eq(p.complexity, sum(k.complexity for k in p.traversal), "token complexity")
    trav = list(p.traversal)
    cap = plain_names(t, {"add": "Add", "mul": "Mul"})
    eq(repr(build_tree(list(trav))), R.text(cap), "tree of the traversal")
    eq(p.traversal, trav, "traversal (unchanged)")
    if not any(n == "const" for n in nm):
        F = sympy.Symbol
        e = p.sympy_expr[0]
        want = sym(t, F)
        if not isinstance(e, str):
            # operators sympy does not know stay functions; derivatives stay unevaluated
            e = e.subs({}) if hasattr(e, "subs") else e
            have = {f.func.__name__ for f in e.atoms(sympy.Function)} if hasattr(e, "atoms") else set()
            ctx.label("opaque", bool(have - {"sin", "cos", "tan", "exp", "log", "Abs", "tanh"}))
            check(same_expr(e, want), f"symbolic form of {R.text(t)} is {e}")
        else:
            fail_text = R.text(t)
            check(not set(n for n in nm if R.arity(n)) <= {"add", "sub", "mul", "div", "n2", "n3", "n4", "neg", "inv", "sin", "cos", "exp", "log"},
                  f"symbolic form of {fail_text} stays text: {e}")
    if s["pde"]:
        eq([k.name for k in p.STRidge.traversal_copy], nm, "traversal kept by the regression")
    raises((ValueError,), lambda: from_str_tokens("add,nonsense,x1"), "unknown token text")
    raises((ValueError,), lambda: from_str_tokens(3), "text of the wrong type")
    ctx.nontrivial(len(nm) >= 3 and len(t) > 1)
    ctx.label("pde" if s["pde"] else "regression"); ctx.label("derivative", any(n in R.DIFFS for n in nm))


def same_expr(a, b):
    """Equality of two sympy expressions by value at random points (opaque functions are compared as functions)."""
    if a == b:
        return True
    syms = sorted(a.free_symbols | b.free_symbols, key=str)
    fns = {f.func for f in a.atoms(sympy.core.function.AppliedUndef) | b.atoms(sympy.core.function.AppliedUndef)}
    z = [sympy.Symbol(f"z{i}") for i in range(4)]

    def subst(e):
        def op(f):
            k = sum(map(ord, f.func.__name__))
            # an arbitrary non-symmetric numeric function for each unknown name
            return sympy.sin(k * sympy.Rational(1, 7) + sum((i + 2) * v for i, v in enumerate(f.args))) * 2 + k % 5
        while e.atoms(sympy.core.function.AppliedUndef):
            f = min(e.atoms(sympy.core.function.AppliedUndef), key=lambda q: sympy.count_ops(q))
            e = e.xreplace({f: op(f)})
        return e
    try:
        a, b = subst(a), subst(b)
    except Exception:
        return False
    del fns, z
    bad = 0
    for k in range(4):
        r = np.random.RandomState(k)
        pt = {v: float(r.uniform(0.3, 1.4)) for v in syms}
        try:
            x, y = complex(a.subs(pt).evalf(30, chop=False)), complex(b.subs(pt).evalf(30))
        except (TypeError, ValueError, OverflowError):
            bad += 1
            continue
        if not (np.isfinite(x) and np.isfinite(y)) or abs(x) > 1e12:
            bad += 1
            continue
        if abs(x - y) > 1e-6 * max(1, abs(x), abs(y)):
            return False
    return True


@facet(st.tuples(R.all_libs(pde=True, need=("add", "sub")), nums(3, 34), st.integers(0, 2), G.seeds), quick=400, thorough=12000, shards=2)
def additive_split(case, ctx):
    """Signed terms of the split: in order, complete, and adding up to the expression."""
    s, ns, ndef, seed = case
    from kd.model.discover.program import Program, from_tokens
    lib = R.library(s)
    R.set_program(lib, task_type="pde")
    names = R.names_of(s)
    defaults = [names.index("u1")][:ndef]
    Program.set_default_terms([[d] for d in defaults])
    try:
        pick = [i for i, n in enumerate(names) if R.base(n) in ("add", "sub")]
        toks = R.decode(ns, names, max_len=30, root=pick if ns[0] % 3 else None)
        nm = [names[t] for t in toks]
        t = R.tree(nm)
        p = from_tokens(np.array(toks, dtype=np.int32))
        S = p.STRidge
        want = R.split(t)
        got = [([k.name for k in tok], n.symbol) for tok, n in zip(S.terms_token, S.terms)]
        n = len(want)
        eq(len(S.terms), n + len(defaults), f"number of terms of {R.text(t)}")
        eq([g[0] for g in got[:n]], [R.prefix(w) for _, w in want], f"terms of {R.text(t)}")
        eq([g[1] for g in got[:n]], [sg for sg, _ in want], f"signs of the terms of {R.text(t)}")
        eq([g[0] for g in got[n:]], [["u1"]] * len(defaults), "default terms")
        eq([repr(k) for k in S.terms[:n]], [R.text(w) for _, w in want], "printed terms")
        eq(list(S.terms_len), [len(g[0]) for g in got], "term lengths")
        eq([float(d) for d in S.depth], [float(np.ceil(np.log2(len(g[0])))) for g in got], "term depths")
        eq(p.funcion_expression, " |".join([R.text(w) for _, w in want] + ["u1"] * len(defaults)), "list of terms as text")
        # value of the signed sum
        vals = {}
        r = np.random.RandomState(seed)

        def ev(tr):
            if len(tr) == 1:
                return vals.setdefault(tr[0], r.uniform(-2, 2, 5))
            a = [ev(c) for c in tr[1:]]
            if R.base(tr[0]) in ("add", "sub"):
                return a[0] + a[1] if R.base(tr[0]) == "add" else a[0] - a[1]
            return np.sin(sum((i + 1.3) * v for i, v in enumerate(a)) + len(tr[0]))
        close(sum(sg * ev(R.tree(g)) for g, sg in got[:n]), ev(t), "signed sum of the terms", rtol=1e-9, atol=1e-9)
        ctx.nontrivial(any(sg < 0 for sg, _ in want))
        ctx.label(f"{min(n, 6)} terms")
    finally:
        Program.set_default_terms([])


@facet(st.tuples(R.all_libs(), nums(1, 20), st.integers(0, 3), st.sampled_from(["pickle", "deepcopy"]), G.seeds), quick=300, thorough=8000, shards=1)
def reload(case, ctx):
    """A reloaded program is the same expression with the same constants, validity and counts."""
    s, ns, extra, how, seed = case
    from kd.model.discover.program import from_tokens
    lib = R.library(s)
    R.set_program(lib, task_type=task_type(s))
    names = R.names_of(s)
    toks = np.array(R.decode(ns, names), dtype=np.int32)
    p = from_tokens(toks)
    for _ in range(extra):
        from_tokens(toks)
    if seed % 3 == 0:
        from kd.model.discover.program import Program
        Program.clear_cache()
        p = from_tokens(toks, on_policy=False)          # a program met off policy only
        ctx.label("off policy")
    r = np.random.RandomState(seed)
    consts = [float(v) for v in r.uniform(-3, 3, len(p.const_pos))]
    if consts:
        p.set_constants(consts)
    p.invalid = bool(r.randint(2))
    p.error_node, p.error_type = [(None, "execute_returned_none"), ("log", "invalid"), (None, None)][r.randint(3)] if p.invalid else (None, None)
    q = pickle.loads(pickle.dumps(p)) if how == "pickle" else copy.deepcopy(p)
    check(q is not p, "reloading returned the same object")
    eq(q.tokens.tolist(), p.tokens.tolist(), "tokens"); eq(q.str, p.str, "identifier"); eq(repr(q), repr(p), "text")
    eq(q.get_constants(), consts, "constants")
    eq(q.invalid, p.invalid, "validity")
    eq(bool(q.on_policy_count), bool(p.on_policy_count), "sampled on policy")
    eq(q.originally_on_policy, p.originally_on_policy, "originally on policy")
    if s["pde"]:
        eq(q.funcion_expression, p.funcion_expression, "terms")
    ctx.nontrivial(len(toks) >= 3 or bool(consts)); ctx.label("constants", bool(consts)); ctx.label("invalid", p.invalid)


@facet(R.all_libs(), quick=150, thorough=3000, shards=1)
def libraries(case, ctx):
    """Token classes and indices of a library follow its token names."""
    s = case
    lib = R.library(s)
    names = R.names_of(s)
    eq(lib.names, names, "token order"); eq(lib.L, len(names), "size")
    ar = [R.arity(n) for n in names]
    eq(lib.arities.tolist(), ar, "arities")
    nx, nu, npar = s["dim"], s["nu"], len(s["params"])
    eq(lib.input_tokens.tolist(), list(range(nx)), "coordinate tokens")
    eq(lib.state_tokens.tolist(), list(range(nx, nx + nu)), "field tokens")
    eq(lib.param_tokens.tolist(), list(range(nx + nu, nx + nu + npar)), "parameter tokens")
    eq([t.input_var for t in lib.tokens[:nx]], list(range(nx)), "coordinate indices")
    eq([t.state_var for t in lib.tokens[nx:nx + nu]], list(range(nu)), "field indices")
    eq([t.param_var for t in lib.tokens[nx + nu:nx + nu + npar]], list(range(npar)), "parameter indices")
    for k, arr in ((0, lib.terminal_tokens), (1, lib.unary_tokens), (2, lib.binary_tokens)):
        eq(np.asarray(arr).tolist(), [i for i, a in enumerate(ar) if a == k], f"tokens of arity {k}")
    eq(lib.diff_tokens.tolist(), [i for i, n in enumerate(names) if R.base(n) in R.DIFFS], "derivative tokens")
    funcs = [i for i, a in enumerate(ar) if a]
    eq(lib.parent_adjust.tolist(), [funcs.index(i) if i in funcs else -1 for i in range(len(ar))], "parent indices")
    inv = {"inv": "inv", "neg": "neg", "exp": "log", "log": "exp", "sqrt": "n2", "n2": "sqrt"}
    eq({names[k]: names[v] for k, v in lib.inverse_tokens.items()}, {k: v for k, v in inv.items() if k in names and v in names}, "inverse pairs")
    eq((lib.EMPTY_ACTION, lib.EMPTY_PARENT, lib.EMPTY_SIBLING), (len(names), len(funcs), len(names)), "empty tokens")
    for i, n in enumerate(names):
        check(lib[n] is lib.tokens[i] and lib[i] is lib.tokens[i], f"lookup of {n}")
    from kd.model.discover.library import TokenNotFoundError
    raises((TokenNotFoundError,), lambda: lib["no such"], "unknown name"); raises((TokenNotFoundError,), lambda: lib[len(names)], "index beyond the end")
    from kd.model.discover.functions import create_tokens
    for bad in ("x1", "u1", "add", "const"):
        if s["pde"]:
            raises((ValueError,), lambda: create_tokens(s["dim"], list(s["functions"]), s["protected"], max(1, s["nu"]), task_type="pde",
                                                        n_param_var=1, param_names=[bad]), f"parameter named {bad}")
    raises((ValueError,), lambda: create_tokens(s["dim"], ["no such operator"], s["protected"]), "unknown operator")
    ctx.nontrivial(len(names) >= 4)
