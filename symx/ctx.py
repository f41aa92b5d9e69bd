"""What a harness sees.  The same harness function runs in two modes:

  SymCtx   - inputs are solver variables, `eq/le/...` are proof obligations on the current path;
  RealCtx  - inputs come from a concrete case (solver model), the unpatched project code runs on floats,
             `eq/le/...` are checked with a tolerance.
"""
import math
import random
import zlib
from fractions import Fraction

import numpy as np
import pandas as pd

from . import sym
from .sym import Sym, SymBool


class Skip(Exception):
    """the case violates an assumption of the harness"""


class Base:
    def flag(self, name):
        return self.choose(name, 2) == 1

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choose(name, len(seq))] if len(seq) > 1 else seq[0]

    def same(self, got, want, label):
        """plain (non-numeric) equality"""
        self.true(got == want, "%s: got %r, expected %r" % (label, got, want) if not self.symbolic else label)

    def eqs(self, got, want, label):
        got, want = list(got), list(want)
        if len(got) != len(want):
            self.true(False, label + " (length %d != %d)" % (len(got), len(want)))
            return
        for i, (g, w) in enumerate(zip(got, want)):
            self.eq(g, w, "%s[%d]" % (label, i))

    def call(self, fn, *a, **k):
        """('ok', value) or ('raise', exception)"""
        try:
            return "ok", fn(*a, **k)
        except Exception as e:      # noqa - engine signals are BaseException
            if isinstance(e, sym.Unsupported):
                raise
            return "raise", e

    # numerics shared by the reference formulas
    def mean(self, v):
        v = list(v)
        return sum(v) / len(v)

    def var(self, v, ddof=0):
        v = list(v)
        m = self.mean(v)
        return sum((x - m) * (x - m) for x in v) / (len(v) - ddof)

    def std(self, v, ddof=0):
        return self.sqrt(self.var(v, ddof))

    def center(self, v):
        m = self.mean(v)
        return [x - m for x in v]


class SymCtx(Base):
    symbolic = True

    def __init__(self, path):
        self.path = path
        self.outputs = {}

    def real(self, name):
        return self.path.var(name)

    def int(self, name, lo, hi):
        v = self.path.var(name, is_int=True)
        self.path.assume(v >= lo)
        self.path.assume(v <= hi)
        return v

    def choose(self, name, n):
        return self.path.choose(name, n)

    def assume(self, c):
        self.path.assume(c)

    def sqrt(self, x):
        return x.sqrt() if isinstance(x, Sym) else (math.sqrt(x) if x >= 0 else float("nan"))

    def out(self, name, v):
        self.outputs[name] = v

    # -- obligations
    def _bad(self, label):
        self.path.fail(label)

    def _rel(self, a, b, op, label):
        ca, cb = Sym._coerce(a), Sym._coerce(b)
        if ca is None or cb is None:
            if op == "==" and not isinstance(a, Sym) and not isinstance(b, Sym):
                if a is b or (a == b) is True:
                    self.path.stats.bump("assertions_concrete")
                    return
            return self._bad(label)
        if isinstance(ca, float) or isinstance(cb, float):      # nan / inf on one side
            fa = ca if isinstance(ca, float) else 0.0
            fb = cb if isinstance(cb, float) else 0.0
            if op == "==":
                ok = isinstance(ca, float) and isinstance(cb, float) and (fa == fb or fa != fa and fb != fb)
            else:
                ok = fa < fb or op == "<=" and fa == fb
            if ok:
                self.path.stats.bump("assertions_concrete")
                return
            return self._bad(label)
        self.path.require_sign(sym.p_add(ca, cb, -1), op, label)

    def eq(self, a, b, label):
        self._rel(a, b, "==", label)

    def le(self, a, b, label):
        self._rel(a, b, "<=", label)

    def lt(self, a, b, label):
        self._rel(a, b, "<", label)

    def true(self, c, label):
        if isinstance(c, SymBool):
            if c.kind == "sign":
                return self.path.require_signs(c.a, c.b, label)
            c = bool(c)
        if isinstance(c, np.bool_):
            c = bool(c)
        self.path.stats.bump("assertions_concrete")
        if c is not True:
            self._bad(label)


class RealCtx(Base):
    symbolic = False

    def __init__(self, case, tol=1e-6):
        self.vars = case.get("vars", {})
        self.choices = case.get("choices", {})
        self.salt = case.get("salt", 0)
        self.failures = []
        self.outputs = {}
        self.tol = tol
        self.checked = 0

    def _default(self, name):
        return zlib.crc32(("%s/%s" % (self.salt, name)).encode())

    def real(self, name):
        if name in self.vars:
            return float(Fraction(self.vars[name]))
        return ((self._default(name) >> 3) % 17 - 8) * 6 / 1.0

    def int(self, name, lo, hi):
        if name in self.vars:
            return int(Fraction(self.vars[name]))
        return lo + self._default(name) % (hi - lo + 1)

    def choose(self, name, n):
        if name in self.choices:
            return int(self.choices[name]) % n
        return (self._default(name) >> 5) % n

    def assume(self, c):
        if not c:
            raise Skip()

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else (0.0 if x > -1e-9 else float("nan"))

    def out(self, name, v):
        self.outputs[name] = v

    def _num(self, v):
        try:
            return float(v)
        except (TypeError, ValueError):
            return None

    def _close(self, a, b):
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= self.tol * (1 + abs(a) + abs(b))

    def fail(self, label, detail=""):
        self.failures.append((label, detail))

    def eq(self, a, b, label):
        self.checked += 1
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if not (a is b or a == b):
                self.fail(label, "%r != %r" % (a, b))
            return
        x, y = self._num(a), self._num(b)
        if x is None or y is None or not self._close(x, y):
            self.fail(label, "got %r, expected %r" % (a, b))

    def le(self, a, b, label):
        self.checked += 1
        x, y = self._num(a), self._num(b)
        if x is None or y is None or not (x <= y or self._close(x, y)):
            self.fail(label, "%r > %r" % (a, b))

    def lt(self, a, b, label):
        self.checked += 1
        x, y = self._num(a), self._num(b)
        if x is None or y is None or not x < y:
            self.fail(label, "%r >= %r" % (a, b))

    def true(self, c, label):
        self.checked += 1
        if not bool(c):
            self.fail(label, "condition false")
