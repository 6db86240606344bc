"""Reading LaTeX equations back into sympy expressions over concrete functions."""
import re

import numpy as np
import sympy as sp

TOK = re.compile(r"\s*(\\left|\\right|\\,|\\;|\\!|\\ |\\[A-Za-z]+|[0-9]*\.?[0-9]+(?:[eE][+-]?[0-9]+)?|[A-Za-z][A-Za-z0-9]*|[{}()\[\]^_+\-*/=,|])")


class ParseError(Exception):
    pass


def tokenize(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise ParseError(f"cannot read {s[i:i + 20]!r}")
        i = m.end()
        if m.group(1) not in ("\\left", "\\right", "\\!"):
            out.append(m.group(1))
    return out


GREEK = {"alpha", "beta", "gamma", "delta", "epsilon", "kappa", "lambda", "mu", "nu", "rho", "sigma"}


class Reader:
    """env: name -> sympy expression (fields, coordinates, parameters); axes: name -> symbol."""

    def __init__(self, env, axes):
        self.env, self.axes = env, axes

    # ---- helpers
    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, x=None):
        if self.i >= len(self.t):
            raise ParseError(f"unexpected end, wanted {x}")
        t = self.t[self.i]
        if x is not None and t != x:
            raise ParseError(f"found {t!r}, wanted {x!r} in {' '.join(self.t)}")
        self.i += 1
        return t

    def split_axes(self, word):
        if word == "":
            return []
        for a in sorted(self.axes, key=len, reverse=True):
            if word.startswith(a):
                try:
                    return [a] + self.split_axes(word[len(a):])
                except ParseError:
                    pass
        raise ParseError(f"subscript {word!r} is not made of axes {sorted(self.axes)}")

    def diff(self, v, axes):
        for a in axes:
            v = sp.diff(v, self.axes[a])
        return v

    def group_text(self):
        """Raw text of a {...} group or a single token."""
        if self.peek() != "{":
            return self.take()
        self.take("{")
        out = ""
        while self.peek() != "}":
            if self.peek() is None:
                raise ParseError("unclosed group")
            out += self.take()
        self.take("}")
        return out

    # ---- grammar
    def read(self, s):
        self.t, self.i = tokenize(s), 0
        v = self.additive()
        if self.i != len(self.t):
            raise ParseError(f"left over {self.t[self.i:]} in {s!r}")
        return v

    def terms(self, s):
        """Top-level signed terms of s, as expressions."""
        self.t, self.i = tokenize(s), 0
        out = []
        sign = 1
        while self.peek() in ("+", "-"):
            sign *= -1 if self.take() == "-" else 1
        while True:
            out.append(sign * self.mul())
            if self.peek() is None:
                return out
            if self.peek() not in ("+", "-"):
                raise ParseError(f"left over {self.t[self.i:]} in {s!r}")
            sign = 1
            while self.peek() in ("+", "-"):
                sign *= -1 if self.take() == "-" else 1

    def additive(self, stop=()):
        sign = 1
        while self.peek() in ("+", "-"):
            sign *= -1 if self.take() == "-" else 1
        v = sign * self.mul()
        while self.peek() in ("+", "-"):
            s = -1 if self.take() == "-" else 1
            v = v + s * self.mul()
        return v

    def mul(self):
        v = self.factor()
        while True:
            p = self.peek()
            if p in ("\\cdot", "\\,", "*", "\\;", "\\ "):
                self.take()
                if self.peek() in ("-",):
                    self.take()
                    v = v * -self.factor()
                    continue
                v = v * self.factor()
            elif p == "/":
                self.take()
                v = v / self.factor()
            elif p is not None and p not in ("+", "-", ")", "}", "]", "=", ",", "^", "_", "|"):
                v = v * self.factor()
            else:
                return v

    def derivative_operator(self):
        """\\frac{\\partial^{n} [operand]}{\\partial a^{m} \\partial b ...} [operand]"""
        self.take("{")
        self.take_partial()
        n = 1
        if self.peek() == "^":
            self.take()
            n = int(self.group_text())
        inner = None
        if self.peek() != "}":
            inner = self.additive()
        self.take("}")
        self.take("{")
        axes = []
        while self.peek() != "}":
            if self.peek() in ("\\,", "\\ "):
                self.take()
                continue
            self.take_partial()
            a = self.axis_name()
            k = 1
            if self.peek() == "^":
                self.take()
                k = int(self.group_text())
            axes += [a] * k
        self.take("}")
        if len(axes) != n:
            raise ParseError(f"derivative of order {n} with respect to {axes}")
        if inner is None:
            inner = self.factor()
        return self.diff(inner, axes)

    def take_partial(self):
        t = self.take()
        if t not in ("\\partial", "d"):
            raise ParseError(f"found {t}, wanted a derivative sign")

    def axis_name(self):
        a = self.take()
        if a == "{":
            a = self.take()
            self.take("}")
        a = a.lstrip("\\")
        if a + "_" in {x[:len(a) + 1] for x in self.axes} and self.peek() == "_":
            self.take()
            a = a + "_" + self.group_text()
        if self.peek() == "_" and f"{a}{self.t[self.i + 1]}" in self.axes:
            self.take()
            a += self.group_text()
        elif self.peek() == "_" and self.i + 2 < len(self.t) and self.t[self.i + 1] == "{":
            self.take()
            a += self.group_text()
        if a not in self.axes:
            raise ParseError(f"derivative with respect to {a!r}")
        return a

    def factor(self):
        v = self.atom()
        while True:
            p = self.peek()
            if p == "^":
                self.take()
                if self.peek() == "{":
                    self.take()
                    e = self.additive()
                    self.take("}")
                else:
                    e = self.atom()
                v = v ** e
            elif p == "_":
                self.take()
                v = self.diff(v, self.split_axes(self.group_text()))
            else:
                return v

    FUNCS = {"\\sin": sp.sin, "\\cos": sp.cos, "\\tan": sp.tan, "\\exp": sp.exp, "\\log": sp.log, "\\ln": sp.log, "\\sinh": sp.sinh,
             "\\tanh": sp.tanh, "\\cosh": sp.cosh}

    def atom(self):
        t = self.peek()
        if t is None:
            raise ParseError("unexpected end")
        if t == "(":
            self.take()
            v = self.additive()
            self.take(")")
            return v
        if t == "[":
            self.take()
            v = self.additive()
            self.take("]")
            return v
        if t == "{":
            self.take()
            v = self.additive()
            self.take("}")
            return v
        if t == "|":
            self.take()
            v = self.additive()
            self.take("|")
            return sp.Abs(v)
        if t == "\\frac":
            self.take()
            if self.t[self.i + 1] == "\\partial" or self.t[self.i + 1] == "d" and self.t[self.i + 2] in ("}", "^"):
                return self.derivative_operator()
            self.take("{")
            a = self.additive()
            self.take("}")
            self.take("{")
            b = self.additive()
            self.take("}")
            return a / b
        if t == "\\sqrt":
            self.take()
            n = 2
            if self.peek() == "[":
                self.take()
                n = self.additive()
                self.take("]")
            self.take("{")
            v = self.additive()
            self.take("}")
            return sp.sqrt(v) if n == 2 else v ** (1 / sp.sympify(n))
        if t in self.FUNCS:
            self.take()
            power = None
            if self.peek() == "^":
                self.take()
                power = int(self.group_text())
            if self.peek() in ("(", "{"):
                v = self.atom()
            else:
                v = self.factor()
            r = self.FUNCS[t](v)
            return r if power is None else r ** power
        if t in ("\\nabla", "\\Delta"):
            self.take()
            if t == "\\nabla":
                self.take("^")
                if self.group_text() != "2":
                    raise ParseError("nabla without square")
            if not self.laplacian_axes:
                raise ParseError("no Laplacian here")
            v = self.atom()
            while self.peek() == "^":
                self.take()
                v = v ** int(self.group_text())
            return sum(sp.diff(v, self.axes[a], 2) for a in self.laplacian_axes)
        if re.match(r"[0-9.]", t):
            self.take()
            return sp.Float(t, 17) if ("." in t or "e" in t.lower()) else sp.Integer(int(t))
        if re.match(r"\\?[A-Za-z]", t):
            self.take()
            name = t.lstrip("\\")
            if self.peek() == "_":
                # a name containing its own subscript: x_{1}
                j = self.i
                self.take()
                try:
                    sub = self.group_text()
                except ParseError:
                    sub = None
                for cand in (f"{name}_{sub}", f"{name}{sub}"):
                    if cand in self.env:
                        return self.env[cand]
                self.i = j
            if name in self.env:
                return self.env[name]
            if t == "e" or t == "\\e":
                return sp.E
            raise ParseError(f"unknown symbol {t!r}")
        raise ParseError(f"unexpected {t!r}")

    laplacian_axes = ()


def poly_fields(names, axes, seed, deg=3):
    """Random concrete functions of the axes, one per name."""
    r = np.random.RandomState(seed)
    out = {}
    syms = [axes[a] for a in sorted(axes)]
    for n in names:
        e = sp.Rational(int(r.randint(5, 20)), 7)
        for _ in range(4):
            m = sp.Rational(int(r.randint(-9, 10) or 1), int(r.randint(3, 9)))
            for s in syms:
                m = m * s ** int(r.randint(0, deg + 1))
            e = e + m
        for s in syms:
            e = e + sp.Rational(int(r.randint(1, 9)), 11) * s ** 2 + sp.Rational(int(r.randint(1, 9)), 13) * s
        out[n] = e
    return out


def points(axes, seed, n=3):
    r = np.random.RandomState(seed + 1)
    return [{axes[a]: sp.Rational(int(r.randint(3, 15)), 10) for a in sorted(axes)} for _ in range(n)]


def number(e, pt):
    try:
        v = complex(sp.N(sp.sympify(e).subs(pt), 20))
    except (TypeError, ZeroDivisionError, ValueError):
        return None
    if not np.isfinite(v):
        return None
    return v


def tree_to_sympy(e, env, axes):
    """SGA nested-list expression -> sympy over concrete functions."""
    if isinstance(e, str):
        if e in env:
            return env[e]
        if e == "0":
            return sp.Integer(0)
        f, _, a = e.rpartition("_")
        return sp.diff(env[f], axes[a])
    op = e[0]
    a = tree_to_sympy(e[1], env, axes)
    if op == "d":
        return sp.diff(a, axes[e[2]])
    if op == "d^2":
        return sp.diff(a, axes[e[2]], 2)
    if op == "^2":
        return a ** 2
    if op == "^3":
        return a ** 3
    b = tree_to_sympy(e[2], env, axes)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()
