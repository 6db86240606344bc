"""Reference meaning of the EqGPT vocabulary: a word is parsed as the mathematical expression it spells and evaluated with Taylor
jets of the surrogate (no automatic differentiation, no table of words)."""
import re

import numpy as np

from vlib.jets import Jet

FUN = ("BiLaplace", "Laplace", "Div", "sinh", "sin", "sqrt", "exp")


def parse(word):
    """-> tuple tree: ('u',) ('x',) ('num', v) ('d', e, axis) ('^', e, n) ('+', a, b) ('-', e) ('*', a, b) ('/', a, b) (fun, e)"""
    m = re.fullmatch(r"sin([xt])", word)
    if m:
        return ("sin", (m.group(1),))
    e, k = _sum(word, 0)
    if k != len(word):
        raise ValueError(f"cannot read {word!r} at {k}")
    return e


def _sum(s, k):
    if s[k] == "-":
        e, k = _prod(s, k + 1)
        e = ("-", e)
    else:
        e, k = _prod(s, k)
    while k < len(s) and s[k] == "+":
        r, k = _prod(s, k + 1)
        e = ("+", e, r)
    return e, k


def _prod(s, k):
    e, k = _factor(s, k)
    while k < len(s) and s[k] not in "+)":
        if s[k] in "*/":
            r, k2 = _factor(s, k + 1)
            e, k = (s[k], e, r), k2
        else:                                   # juxtaposition: uux, u(u^2)xx
            r, k = _factor(s, k)
            e = ("*", e, r)
    return e, k


def _factor(s, k):
    for f in FUN:
        if s.startswith(f + "(", k):
            e, k = _sum(s, k + len(f) + 1)
            assert s[k] == ")"
            e, k = (f, e), k + 1
            break
    else:
        if s[k] == "(":
            e, k = _sum(s, k + 1)
            assert s[k] == ")"
            k += 1
            e, k = _subs(e, s, k)
        elif s[k] == "u":
            e, k = _subs(("u",), s, k + 1)
        elif s[k] in "txyz":
            e, k = (s[k],), k + 1
        else:
            m = re.compile(r"\d+").match(s, k)
            e, k = ("num", float(m.group())), m.end()
    if k < len(s) and s[k] == "^":
        m = re.compile(r"-?\d+").match(s, k + 1)
        e, k = ("^", e, int(m.group())), m.end()
    return e, k


def _subs(e, s, k):
    while k < len(s) and s[k] in "txyz":
        e, k = ("d", e, s[k]), k + 1
    return e, k


def order(e):
    h = {"d": 1, "Laplace": 2, "Div": 1, "BiLaplace": 4}.get(e[0], 0)
    return h + max((order(c) for c in e[1:] if isinstance(c, tuple)), default=0)


def axes(e):
    """Coordinates an expression needs by name."""
    s = {e[2]} if e[0] == "d" else {e[0]} if e[0] in "txyz" and len(e) == 1 else set()
    if e[0] in ("Laplace", "Div", "BiLaplace"):
        s |= {"x", "y"}
    for c in e[1:]:
        if isinstance(c, tuple):
            s |= axes(c)
    return s


def _lap(j, ix):
    r = j.diff(ix["x"]).diff(ix["x"])
    for a in "yz":
        if a in ix:
            r = r + j.diff(ix[a]).diff(ix[a])
    return r


def evaluate(e, u, coords, ix):
    """u: jet; coords: list of coordinate jets; ix: axis name -> position"""
    h, go = e[0], lambda c: evaluate(c, u, coords, ix)
    if h == "u":
        return u
    if h in "txyz" and len(e) == 1:
        return coords[ix[h]]
    if h == "num":
        return Jet.const(e[1], u.dims, u.deg, len(u.c))
    a = go(e[1])
    if h == "d":
        return a.diff(ix[e[2]])
    if h == "^":
        p = a
        for _ in range(abs(e[2]) - 1):
            p = p * a
        return p if e[2] > 0 else p.inverse()
    if h == "-":
        return -a
    if h == "+":
        return a + go(e[2])
    if h == "*":
        return a * go(e[2])
    if h == "/":
        return a / go(e[2])
    if h == "sin":
        return a.sin()
    if h == "sinh":
        return a.sinh()
    if h == "exp":
        return a.exp()
    if h == "sqrt":
        return a.power(0.5)
    if h == "Div":
        r = a.diff(ix["x"])
        for k in "yz":
            if k in ix:
                r = r + a.diff(ix[k])
        return r
    if h == "Laplace":
        return _lap(a, ix)
    if h == "BiLaplace":
        return _lap(_lap(a, ix), ix)
    raise ValueError(h)


def net_jet(params, act, pts, deg):
    """The surrogate network (list of (W, b)) as jets around each point of the raw input columns."""
    n, d = pts.shape
    xs = [Jet.var(i, pts[:, i], d, deg) for i in range(d)]
    h = xs
    for k, (W, b) in enumerate(params):
        C = np.stack([v.c for v in h], axis=-1) @ W.T          # (n, coeffs, out)
        C[:, 0, :] += b
        z = [Jet(d, deg, C[:, :, i]) for i in range(len(W))]
        h = z if k == len(params) - 1 else [getattr(v, act)() for v in z]
    return h[0], xs


def value(word, params, act, pts, variables):
    e = parse(word)
    u, xs = net_jet(params, act, pts, order(e))
    ix = {v: i for i, v in enumerate(variables)}
    return evaluate(e, u, xs, ix).value, u.value
