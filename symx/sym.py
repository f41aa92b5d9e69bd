"""Symbolic real numbers that the project's own code computes with.

A `Sym` is a polynomial with rational coefficients over *atoms*.  Atoms are input variables, or
definitional variables introduced for operations that leave the polynomial ring:

    quotient  q = N / D      with  q*D == N, D != 0   (D == 0 is a separate path)
    root      r = sqrt(t)    with  r >= 0, r*r == t   (t < 0 is a separate path, unless t is PSD)
    absolute  a = |x|        with  a == ite(x >= 0, x, -x)
    rounding  k = round(x,d) with  |k - x| <= 10^-d / 2

Comparisons yield `SymBool`; forcing one to a Python bool asks the engine to decide the branch.
Everything is real arithmetic: machine rounding is outside every claim made with this module.
"""
import math
import numbers
from fractions import Fraction

from .z3load import z3

_ENGINE = None          # the engine of the running path


def set_engine(e):
    global _ENGINE
    _ENGINE = e


def engine():
    return _ENGINE


class Unsupported(Exception):
    pass


_frac_cache = {}


def to_frac(v):
    """Exact rational for a Python/numpy number; a float is read as the simplest rational
    that rounds to it (so 1/3 computed concretely stays 1/3)."""
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    if isinstance(v, numbers.Integral):
        return Fraction(int(v))
    f = float(v)
    r = _frac_cache.get(f)
    if r is None:
        exact = Fraction(f)
        r = exact
        if exact.denominator > 1000:
            for lim in (1000, 10 ** 6):
                s = exact.limit_denominator(lim)
                if float(s) == f:
                    r = s
                    break
        _frac_cache[f] = r
    return r


def is_number(v):
    return isinstance(v, (int, float, Fraction, numbers.Real)) or type(v).__module__ == "numpy" and hasattr(v, "dtype") and getattr(v, "ndim", 1) == 0 and v.dtype.kind in "biuf"


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + c * k
        if n == 0:
            r.pop(m, None)
        else:
            r[m] = n
    return r


def p_scale(a, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


MAX_TERMS = 60000


def p_mul(a, b):
    if len(a) * len(b) > 4 * MAX_TERMS:
        raise Unsupported("polynomial too large")
    if len(b) == 1 and () in b:
        return p_scale(a, b[()])
    if len(a) == 1 and () in a:
        return p_scale(b, a[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                m = tuple(sorted(m1 + m2))
            n = r.get(m, 0) + c1 * c2
            r[m] = n
    return {m: c for m, c in r.items() if c != 0}


def p_const(a):
    """The rational value if the polynomial is constant, else None."""
    if not a:
        return Fraction(0)
    if len(a) == 1 and () in a:
        return a[()]
    return None


def p_degree(a):
    return max((len(m) for m in a), default=0)


def p_key(a):
    return tuple(sorted(a.items()))


def p_normal(a):
    """(scale, primitive) with a == scale * primitive, primitive's leading coefficient 1."""
    c = a[max(a)]
    return c, {m: v / c for m, v in a.items()}


class Atom:
    __slots__ = ("idx", "name", "z", "kind", "args", "is_int")

    def __init__(self, idx, name, z, kind, args=None, is_int=False):
        self.idx, self.name, self.z, self.kind, self.args, self.is_int = idx, name, z, kind, args, is_int


class Sym:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    # -- arithmetic -----------------------------------------------------------------------
    @staticmethod
    def _coerce(o):
        """poly dict, or a float nan/inf marker, or None if not a number"""
        if isinstance(o, Sym):
            return o.p
        if isinstance(o, SymBool):
            return {(): Fraction(1)} if bool(o) else {}
        if is_number(o):
            if isinstance(o, (float,)) or type(o).__module__ == "numpy":
                f = float(o)
                if math.isnan(f) or math.isinf(f):
                    return f
            c = to_frac(o)
            return {(): c} if c else {}
        return None

    def __add__(self, o):
        b = Sym._coerce(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return b
        return Sym(p_add(self.p, b))
    __radd__ = __add__

    def __sub__(self, o):
        b = Sym._coerce(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return -b
        return Sym(p_add(self.p, b, -1))

    def __rsub__(self, o):
        b = Sym._coerce(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return b
        return Sym(p_add(b, self.p, -1))

    def __mul__(self, o):
        b = Sym._coerce(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            if math.isnan(b):
                return b
            if bool(self == 0):
                return float("nan")
            return b if bool(self > 0) else -b
        return Sym(p_mul(self.p, b))
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = Sym._coerce(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return b if math.isnan(b) else Sym({})
        return _div(self.p, b)

    def __rtruediv__(self, o):
        b = Sym._coerce(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            if math.isnan(b):
                return b
            return b if bool(self >= 0) else -b
        return _div(b, self.p)

    def __floordiv__(self, o):
        raise Unsupported("floordiv")

    def __mod__(self, o):
        raise Unsupported("mod")

    def __neg__(self):
        return Sym(p_scale(self.p, -1))

    def __pos__(self):
        return self

    def __pow__(self, k, mod=None):
        if isinstance(k, Sym):
            c = p_const(k.p)
            if c is None:
                raise Unsupported("symbolic exponent")
            k = c
        if not is_number(k):
            return NotImplemented
        f = to_frac(k)
        if f.denominator == 1:
            n = int(f)
            if n < 0:
                return 1 / (self ** (-n))
            r = Sym({(): Fraction(1)})
            for _ in range(n):
                r = r * self
            return r
        if f == Fraction(1, 2):
            return self.sqrt()
        raise Unsupported("fractional power")

    def __abs__(self):
        c = p_const(self.p)
        if c is not None:
            return Sym({(): abs(c)}) if c else self
        return _ENGINE.abs_atom(self.p)

    def sqrt(self):
        return _ENGINE.sqrt_of(self.p)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def is_integer(self):
        return False

    def __round__(self, n=None):
        c = p_const(self.p)
        if c is not None:
            return round(float(c), n) if n is not None else round(float(c))
        return _ENGINE.round_atom(self.p, 0 if n is None else n)

    # -- comparisons ----------------------------------------------------------------------
    def _cmp(self, o, op):
        b = Sym._coerce(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            if math.isnan(b):
                return op == "!="
            pos = b > 0
            return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
        return SymBool.compare(p_add(self.p, b, -1), op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(self._cmp(0, "!="))

    def __hash__(self):
        c = p_const(self.p)
        if c is not None:
            return hash(c)
        if all(v.denominator == 1 and all(_ENGINE.atoms[i].is_int for i in m) for m, v in self.p.items()):
            return hash(_ENGINE.concretise_int(self))       # hash tables need the integer: one path per feasible value
        return 7919

    # -- leaving the symbolic domain --------------------------------------------------------
    def __float__(self):
        c = p_const(self.p)
        if c is not None:
            return float(c)
        return _ENGINE.concretise(self)

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        c = p_const(self.p)
        if c is not None:
            return int(c)
        return _ENGINE.concretise_int(self)

    def __index__(self):
        c = p_const(self.p)
        if c is not None and c.denominator == 1:
            return int(c)
        return _ENGINE.concretise_int(self)

    def __trunc__(self):
        return int(self)

    def __repr__(self):
        return "Sym(%s)" % show(self.p)

    def __format__(self, spec):
        return "<sym>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


numbers.Real.register(Sym)


def show(p, limit=8):
    if not p:
        return "0"
    parts = []
    for m, c in sorted(p.items())[:limit]:
        parts.append("%s%s" % (c, "".join("*" + _ENGINE.atoms[i].name for i in m) if _ENGINE else m))
    return " + ".join(parts) + (" + ..." if len(p) > limit else "")


def _div(n, d):
    c = p_const(d)
    if c is not None:
        if c == 0:
            return _div_zero(n)
        return Sym(p_scale(n, 1 / c))
    if bool(SymBool.compare(d, "==")):
        return _div_zero(n)
    if not n:
        return Sym({})
    return _ENGINE.quotient(n, d)


def _div_zero(n):
    """numpy float semantics of x/0"""
    c = p_const(n)
    if c is not None:
        return float("nan") if c == 0 else math.copysign(float("inf"), c)
    if bool(SymBool.compare(n, "==")):
        return float("nan")
    return float("inf") if bool(SymBool.compare(n, ">")) else float("-inf")


class SymBool:
    """A branch condition: a sign condition on one polynomial, or a boolean combination."""
    __slots__ = ("kind", "a", "b")

    def __init__(self, kind, a, b=None):
        self.kind, self.a, self.b = kind, a, b

    @staticmethod
    def compare(p, op):
        """p op 0"""
        c = p_const(p)
        if c is not None:
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
        scale, q = p_normal(p)
        signs = {"<": "-", "<=": "-0", ">": "+", ">=": "0+", "==": "0", "!=": "-+"}[op]
        if scale < 0:
            signs = "".join({"-": "+", "+": "-", "0": "0"}[s] for s in signs)
        return SymBool("sign", q, frozenset(signs))

    def __bool__(self):
        return _ENGINE.decide(self)

    def _wrap(self, o):
        if isinstance(o, SymBool):
            return o
        return SymBool("const", bool(o))

    def __and__(self, o):
        return SymBool("and", self, self._wrap(o))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool("or", self, self._wrap(o))
    __ror__ = __or__

    def __invert__(self):
        return SymBool("not", self)

    def __xor__(self, o):
        return bool(self) != bool(o)
    __rxor__ = __xor__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def item(self):
        return self
