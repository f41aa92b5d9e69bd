"""Path-exploring symbolic execution over the project's own code.

One `Path` is one execution of a harness with symbolic inputs.  Branches on symbolic conditions are
resolved from a decision prefix; fresh branches ask the solver which outcomes are feasible, take one
and hand the other back as a new prefix.  `require` poses the negated property to the solver together
with the path condition.
"""
import random
import time
import zlib
from fractions import Fraction

from . import sym
from .sym import (Sym, SymBool, Atom, Unsupported, p_add, p_const, p_degree, p_key, p_mul, p_normal,
                  p_scale)
from .z3load import z3


class PathAbort(BaseException):
    """This path ends here (infeasible assumption, or budget)."""


class Stats(dict):
    def bump(self, k, n=1):
        self[k] = self.get(k, 0) + n


class Candidate:
    def __init__(self, label, case, detail, margin=None):
        self.label, self.case, self.detail, self.margin = label, case, detail, margin


def psd_decompose(p):
    """p as a sum d_i * l_i^2 with d_i > 0 and linear (affine) l_i, or None."""
    if p_degree(p) != 2:
        return None
    vs = sorted({v for m in p for v in m})
    if len(vs) > 80:
        return None
    one = -1
    order = vs[::-1] + [one]

    def coef(a, b):
        if a == one and b == one:
            return p.get((), Fraction(0))
        if a == one or b == one:
            return p.get((b if a == one else a,), Fraction(0)) / 2
        if a == b:
            return p.get((a, a), Fraction(0))
        return p.get((a, b) if a < b else (b, a), Fraction(0)) / 2

    n = len(order)
    A = [[coef(a, b) for b in order] for a in order]
    out = []
    for k in range(n):
        d = A[k][k]
        if d < 0:
            return None
        if d == 0:
            if any(A[k][j] != 0 for j in range(k + 1, n)):
                return None
            continue
        row = [A[k][j] / d for j in range(n)]
        l = {}
        for j in range(k, n):
            if row[j] != 0:
                l[() if order[j] == one else (order[j],)] = row[j]
        out.append((d, l))
        for i in range(k + 1, n):
            if A[i][k] == 0:
                continue
            f = A[i][k]
            Ai = A[i]
            for j in range(k + 1, n):
                if row[j] != 0:
                    Ai[j] = Ai[j] - f * row[j]
        for i in range(k + 1, n):
            A[i][k] = Fraction(0)
    return out


ALL = frozenset("-0+")
_TRUE = {"-": lambda z: z < 0, "0": lambda z: z == 0, "+": lambda z: z > 0}


class Path:
    """One execution."""

    def __init__(self, prefix, stats, seed=1, nl_timeout=8000):
        self.prefix = list(prefix)
        self.log = []
        self.pending = []
        self.atoms = []
        self.by_name = {}
        self.defkeys = {}
        self.known = {}
        self.psd = {}
        self.conds = []            # (poly, signs) decisions, for numeric evaluation
        self.nl = []               # nonlinear path conditions (z3)
        self.defs = []             # definitional constraints (z3, nonlinear)
        self.choices = {}
        self.stats = stats
        self.candidates = []
        self.outputs = []
        self.incomplete = False
        self.inconclusive = []
        self.nl_timeout = nl_timeout
        self.seed = seed
        h = zlib.crc32(repr((seed, self.prefix)).encode())
        self.rng = random.Random(h)
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", 4000)
        self.lin = []
        self._last_model = None
        self.ints = {}

    # -- atoms ------------------------------------------------------------------------------
    def _atom(self, name, kind, args=None, is_int=False):
        z = z3.Int(name) if is_int else z3.Real(name)
        a = Atom(len(self.atoms), name, z, kind, args, is_int)
        self.atoms.append(a)
        self.by_name[name] = a
        return a

    def var(self, name, is_int=False):
        a = self.by_name.get(name)
        if a is None:
            a = self._atom(name, "input", None, is_int)
        return Sym({(a.idx,): Fraction(1)})

    def z(self, p):
        """z3 term of a polynomial"""
        terms = []
        for m, c in p.items():
            t = z3.RealVal(str(c)) if c != 1 or not m else None
            for i in m:
                a = self.atoms[i]
                f = z3.ToReal(a.z) if a.is_int else a.z
                t = f if t is None else t * f
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def quotient(self, n, d):
        cn, n1 = p_normal(n)
        cd, d1 = p_normal(d)
        k = ("q", p_key(n1), p_key(d1))
        a = self.defkeys.get(k)
        if a is None:
            a = self._atom("q!%d" % len(self.atoms), "quot", (n1, d1))
            self.defkeys[k] = a
            self.defs.append(a.z * self.z(d1) == self.z(n1))
            self.defs.append(self.z(d1) != 0)
            sn, sd = self.sign_of(n1), self.sign_of(d1) - {"0"}
            if sn <= {"0", "+"} and sd == {"+"} or sn <= {"0", "-"} and sd == {"-"}:
                self._assert(a.z >= 0)
            elif sn <= {"0", "-"} and sd == {"+"} or sn <= {"0", "+"} and sd == {"-"}:
                self._assert(a.z <= 0)
        return Sym({(a.idx,): cn / cd})

    def sqrt_of(self, t):
        c = p_const(t)
        if c is not None:
            if c < 0:
                return float("nan")
            if c == 0:
                return Sym({})
            return self._sqrt_rat(c)
        cc, prim = p_normal(t)
        if cc < 0:
            cc, prim = -cc, p_scale(prim, -1)
        k = ("r", p_key(prim))
        ent = self.defkeys.get(k)
        if ent is None:
            sg = self.sign_of(t)
            if "-" in sg:
                if bool(SymBool.compare(t, "<")):
                    return float("nan")
            elif sg == {"0"}:
                return Sym({})
            kk, sf = _square_part(cc)
            arg = p_scale(prim, sf)
            a = self._atom("r!%d" % len(self.atoms), "root", (arg,))
            self.defkeys[k] = (a, Fraction(sf))
            self._assert(a.z >= 0)
            self.defs.append(a.z * a.z == self.z(arg))
            # a root is zero exactly when its argument is: linear facts for PSD arguments
            dec = self._psd(prim)
            if dec is not None:
                zero = z3.And([self.z(l) == 0 for _, l in dec])
                self._assert((a.z == 0) == zero)
            return Sym({(a.idx,): kk})
        a, sf = ent
        return self._sqrt_rat(cc / sf) * Sym({(a.idx,): Fraction(1)})

    def _sqrt_rat(self, c):
        coef, s = _square_part(c)
        if s == 1:
            return Sym({(): coef})
        k = ("s", s)
        a = self.defkeys.get(k)
        if a is None:
            a = self._atom("sqrt!%d" % s, "root", ({(): Fraction(s)},))
            self.defkeys[k] = a
            self._assert(a.z > 0)
            self.defs.append(a.z * a.z == s)
        return Sym({(a.idx,): coef})

    def abs_atom(self, p):
        if p_const(p) is not None:
            return Sym({(): abs(p_const(p))} if p_const(p) else {})
        c, prim = p_normal(p)
        k = ("a", p_key(prim))
        a = self.defkeys.get(k)
        if a is None:
            s = self.sign_of(p)
            if s <= {"0", "+"}:
                return Sym(p)
            if s <= {"0", "-"}:
                return Sym(p_scale(p, -1))
            a = self._atom("abs!%d" % len(self.atoms), "abs", (prim,))
            self.defkeys[k] = a
            zp = self.z(prim)
            d = a.z == z3.If(zp >= 0, zp, -zp)
            self._assert(a.z >= 0)
            if p_degree(prim) <= 1:
                self._assert(d)
            else:
                self.defs.append(d)
        return Sym({(a.idx,): abs(c)})

    def round_atom(self, p, nd):
        k = ("round", nd, p_key(p))
        a = self.defkeys.get(k)
        if a is None:
            a = self._atom("round!%d" % len(self.atoms), "round", (p, nd))
            self.defkeys[k] = a
            zp, h = self.z(p), z3.RealVal(str(Fraction(1, 2 * 10 ** nd)))
            d = z3.And(a.z - zp <= h, zp - a.z <= h)
            (self._assert if p_degree(p) <= 1 else self.defs.append)(d)
        return Sym({(a.idx,): Fraction(1)})

    # -- sign knowledge ------------------------------------------------------------------------
    def _psd(self, q):
        k = p_key(q)
        if k not in self.psd:
            self.psd[k] = psd_decompose(q)
        return self.psd[k]

    def sign_of(self, p):
        c = p_const(p)
        if c is not None:
            return frozenset("0" if c == 0 else "+" if c > 0 else "-")
        s, q = p_normal(p)
        r = self._known(q)
        if s < 0:
            r = frozenset({"-": "+", "+": "-", "0": "0"}[x] for x in r)
        return r

    def _known(self, q):
        k = p_key(q)
        r = self.known.get(k)
        if r is None:
            r = ALL
            if p_degree(q) == 2:
                d = self._psd(q)
                if d is not None:
                    r = frozenset("0+")
                    if any(p_const(l) is not None for _, l in d):
                        r = frozenset("+")
                else:
                    d = self._psd(p_scale(q, -1))
                    if d is not None:
                        r = frozenset("-0")
                        if any(p_const(l) is not None for _, l in d):
                            r = frozenset("-")
            elif p_degree(q) == 1 and len(q) == 1:
                a = self.atoms[next(iter(q))[0]]
                if a.kind in ("root", "abs"):
                    r = frozenset("0+")
            self.known[k] = r
        return r

    def _cond(self, q, signs):
        """(z3 formula, is_linear) for sign(q) in signs"""
        if p_degree(q) == 2:
            for s in (1, -1):
                d = self._psd(q if s == 1 else p_scale(q, -1))
                if d is not None:
                    zero = z3.And([self.z(l) == 0 for _, l in d])
                    nz = "+" if s == 1 else "-"
                    has0, hasn = "0" in signs, nz in signs
                    f = z3.BoolVal(True) if has0 and hasn else zero if has0 else z3.Not(zero) if hasn else z3.BoolVal(False)
                    return f, True
        zq = self.z(q)
        signs = frozenset(signs)
        f = {frozenset("-"): lambda: zq < 0, frozenset("-0"): lambda: zq <= 0, frozenset("0"): lambda: zq == 0,
             frozenset("0+"): lambda: zq >= 0, frozenset("+"): lambda: zq > 0, frozenset("-+"): lambda: zq != 0,
             ALL: lambda: z3.BoolVal(True), frozenset(): lambda: z3.BoolVal(False)}[signs]()
        return f, p_degree(q) <= 1

    def _assert(self, f):
        self.solver.add(f)
        self.lin.append(f)

    def _check(self, *fs, solver=None):
        s = solver or self.solver
        t = time.time()
        r = s.check(*fs)
        dt = time.time() - t
        self.stats.bump("queries")
        self.stats["solver_s"] = self.stats.get("solver_s", 0.0) + dt
        self.stats.bump("q_" + str(r))
        return r

    # -- branching -----------------------------------------------------------------------------
    def decide(self, b):
        k = b.kind
        if k == "const":
            return b.a
        if k == "not":
            return not bool(b.a)
        if k == "and":
            return bool(b.a) and bool(b.b)
        if k == "or":
            return bool(b.a) or bool(b.b)
        q, signs = b.a, b.b
        kn = self._known(q)
        if kn <= signs:
            return True
        if not (kn & signs):
            return False
        yes, no = kn & signs, kn - signs
        fy, lin = self._cond(q, yes)
        fn, _ = self._cond(q, no)
        i = len(self.log)
        if i < len(self.prefix):
            e = self.prefix[i]
            out = e[1]
            assert e[0] == "b", "replay mismatch"
            self.log.append(e)
        else:
            if lin:
                ry = self._check(fy)
                rn = self._check(fn) if ry != z3.unsat else z3.sat
                can_y, can_n = ry != z3.unsat, rn != z3.unsat
                if not can_y and not can_n:
                    raise PathAbort("infeasible")
            else:
                can_y = can_n = True
            self.stats.bump("branch_points")
            if can_y and can_n:
                out = True
                self.pending.append(self.log + [("b", False)])
                self.stats.bump("forks")
            else:
                out = can_y
            self.log.append(("b", out))
        self.known[p_key(q)] = yes if out else no
        self.conds.append((q, yes if out else no))
        f = fy if out else fn
        if lin:
            self._assert(f)
        else:
            self.nl.append(f)
        return out

    def choose(self, name, n):
        """An arbitrary value of a finite configuration variable, by case split."""
        if name in self.choices:
            return self.choices[name]
        i = len(self.log)
        if i < len(self.prefix):
            e = self.prefix[i]
            assert e[0] == "c", "replay mismatch"
            v = e[1]
            self.log.append(e)
        else:
            for j in range(n - 1, 0, -1):
                self.pending.append(self.log + [("c", j)])
            v = 0
            self.log.append(("c", 0))
            self.stats.bump("case_splits", max(0, n - 1))
        self.choices[name] = v
        return v

    def assume(self, cond):
        if isinstance(cond, SymBool):
            if cond.kind == "sign":
                q, signs = cond.a, cond.b
                kn = self._known(q) & signs
                if not kn:
                    raise PathAbort("assumption false")
                f, lin = self._cond(q, kn)
                self.known[p_key(q)] = kn
                self.conds.append((q, kn))
                (self._assert if lin else self.nl.append)(f)
                return
            if not bool(cond):
                raise PathAbort("assumption false")
        elif not cond:
            raise PathAbort("assumption false")

    def concretise(self, s):
        """The code forces a symbolic real into a machine number: continue with one feasible value.
        Exploration beyond this point is no longer exhaustive; counted and reported."""
        self.incomplete = True
        self.stats.bump("concretised")
        i = len(self.log)
        if i < len(self.prefix):
            e = self.prefix[i]
            assert e[0] == "v", "replay mismatch"
            v = e[1]
        else:
            v = self._pick(s.p)
            e = ("v", v)
        self.log.append(e)
        q = p_add(s.p, {(): v} if v else {}, -1)
        if q:
            c, qq = p_normal(q)
            f, lin = self._cond(qq, frozenset("0"))
            self.known[p_key(qq)] = frozenset("0")
            (self._assert if lin else self.nl.append)(f)
            self.conds.append((qq, frozenset("0")))
        return float(v)

    def _pick(self, p):
        zp = self.z(p)
        for _ in range(6):
            v = Fraction(self.rng.randint(-40, 40), self.rng.choice((1, 2, 4)))
            if self._check(zp == z3.RealVal(str(v))) == z3.sat:
                return v
        if self._check() != z3.sat:
            raise PathAbort("infeasible")
        return _frac(self.solver.model().eval(zp, model_completion=True))

    def concretise_int(self, s):
        """Every feasible integer value, one path each (solver-enumerated)."""
        key = p_key(s.p)
        if key in self.ints:
            return self.ints[key]
        for _ in range(200):
            i = len(self.log)
            if i < len(self.prefix):
                e = self.prefix[i]
                assert e[0] == "i", "replay mismatch"
                v, out = e[1], e[2]
                self.log.append(e)
            else:
                if self._check() != z3.sat:
                    raise PathAbort("infeasible")
                v = _frac(self.solver.model().eval(self.z(s.p), model_completion=True))
                if v.denominator != 1:
                    return int(self.concretise(s))
                self.stats.bump("branch_points")
                if self._check(self.z(s.p) != z3.RealVal(str(v))) != z3.unsat:
                    self.pending.append(self.log + [("i", v, False)])
                    self.stats.bump("forks")
                out = True
                self.log.append(("i", v, True))
            q = p_add(s.p, {(): v} if v else {}, -1)
            c, qq = p_normal(q)
            signs = self._known(qq) & (frozenset("0") if out else frozenset("-+"))
            f, lin = self._cond(qq, signs)
            self.known[p_key(qq)] = signs
            self.conds.append((qq, signs))
            (self._assert if lin else self.nl.append)(f)
            if out:
                self.ints[key] = int(v)
                return int(v)
        raise Unsupported("too many integer values")

    # -- properties ----------------------------------------------------------------------------
    def eliminate(self, p):
        """Clears quotients (all denominators are nonzero on this path) and even powers of roots:
        the result is zero on this path iff p is."""
        done = set()
        while True:
            idx = max((v for m in p for v in m if v not in done and self.atoms[v].kind in ("quot", "root")),
                      default=None)
            if idx is None:
                return p
            a = self.atoms[idx]
            parts = {}
            for m, c in p.items():
                j = m.count(idx)
                rest = tuple(v for v in m if v != idx)
                parts.setdefault(j, {})
                parts[j][rest] = parts[j].get(rest, 0) + c
            if a.kind == "quot":
                n, d = a.args
                k = max(parts)
                npow, dpow = [{(): Fraction(1)}], [{(): Fraction(1)}]
                for _ in range(k):
                    npow.append(p_mul(npow[-1], n))
                    dpow.append(p_mul(dpow[-1], d))
                r = {}
                for j, pj in parts.items():
                    r = p_add(r, p_mul(p_mul(pj, npow[j]), dpow[k - j]))
                p = r
            else:
                t = a.args[0]
                r = {}
                tp = {(): Fraction(1)}
                for j in range(max(parts) + 1):
                    if j and j % 2 == 0:
                        tp = p_mul(tp, t)
                    if j in parts:
                        x = p_mul(parts[j], tp)
                        if j % 2:
                            x = p_mul(x, {(idx,): Fraction(1)})
                        r = p_add(r, x)
                p = r
                done.add(idx)

    def require_sign(self, p, op, label):
        """The property `p op 0` on this path, decided by the solver for every remaining value."""
        self.stats.bump("assertions")
        c = p_const(p)
        if op == "==" and c is None:
            e = self.eliminate(p)
            goal_p = e
        else:
            goal_p = p
        cc = p_const(goal_p)
        if cc is not None:
            holds = {"==": cc == 0, "<=": cc <= 0, "<": cc < 0, ">=": cc >= 0, ">": cc > 0, "!=": cc != 0}[op]
            neg = z3.Not(z3.BoolVal(holds)) if cc == 0 else {
                "==": z3.RealVal(str(cc)) != 0, "<=": z3.RealVal(str(cc)) > 0, "<": z3.RealVal(str(cc)) >= 0,
                ">=": z3.RealVal(str(cc)) < 0, ">": z3.RealVal(str(cc)) <= 0, "!=": z3.RealVal(str(cc)) == 0}[op]
            return self._verdict(neg, True, None, op, label)
        scale, q = p_normal(goal_p)
        signs = {"<": "-", "<=": "-0", ">": "+", ">=": "0+", "==": "0", "!=": "-+"}[op]
        if scale < 0:
            signs = "".join({"-": "+", "+": "-", "0": "0"}[s] for s in signs)
        kn = self._known(q)
        bad = kn - frozenset(signs)
        f, lin = self._cond(q, bad)
        return self._verdict(f, lin, (p, goal_p, op), op, label)

    def require_signs(self, q, signs, label):
        """sign(q) in signs, for every remaining value"""
        self.stats.bump("assertions")
        bad = self._known(q) - frozenset(signs)
        if not bad:
            f, lin = z3.BoolVal(False), True
        else:
            f, lin = self._cond(q, bad)
        return self._verdict(f, lin, None, None, label)

    def fail(self, label):
        """The property is violated on every completion of this path: ask for one."""
        self.stats.bump("assertions")
        return self._verdict(z3.BoolVal(True), True, None, None, label)

    def _verdict(self, neg, lin, goal, op, label):
        if lin or True:
            # over-approximation: nonlinear atoms constrained only by their linear facts
            r = self._check(neg)
            if r == z3.unsat:
                self.stats.bump("discharged")
                return True
        # full constraint set
        s = z3.Solver()
        s.set("timeout", self.nl_timeout)
        for f in self.lin:
            s.add(f)
        for f in self.nl:
            s.add(f)
        for f in self.defs:
            s.add(f)
        trivially = not self.nl and not self.defs
        margins = []
        if goal is not None:
            p = goal[0]
            zp = self.z(p)
            for mg in ("1", "1/50"):
                m = z3.RealVal(mg)
                margins.append({"==": z3.Or(zp >= m, zp <= -m), "<=": zp >= m, "<": zp >= m, ">=": zp <= -m,
                                ">": zp <= -m, "!=": neg}[op])
        margins.append(neg)
        got = None
        if not trivially and goal is not None:
            case = self._search(goal, op, neg, 6)
            if case is not None:
                self.candidates.append(Candidate(label, case, "numeric completion of the path condition"))
                return False
            if op == "==":
                margins = [neg]
        if not trivially and goal is None and neg.eq(z3.BoolVal(True)):
            case = self.sample_case(6)
            if case is not None:
                self.candidates.append(Candidate(label, case, "numeric completion of the failing path"))
                return False
        for mi, mf in enumerate(margins):
            last = mi == len(margins) - 1
            s.set("timeout", self.nl_timeout if last else min(self.nl_timeout, 3000))
            r = self._check(mf, solver=s)
            if r == z3.sat:
                got = (s.model(), mf)
                break
            if r == z3.unsat and last:
                self.stats.bump("discharged")
                return True
        if got is None:
            case = self._search(goal, op, neg)
            if case is None:
                self.stats.bump("inconclusive_vcs")
                self.inconclusive.append(label)
                self.incomplete = True
                return None
            self.candidates.append(Candidate(label, case, "numeric repair of an undecided query"))
            return False
        model, mf = got
        base = self._case_from_model(model)
        if trivially:
            alt = self._randomise([mf])
            if alt is not None:
                self.candidates.append(Candidate(label, alt, "solver model (generic values)"))
        self.candidates.append(Candidate(label, base, "solver model"))
        return False

    def _case_from_model(self, model):
        vals = {}
        for a in self.atoms:
            if a.kind == "input":
                vals[a.name] = _frac(model.eval(a.z, model_completion=True))
        return {"vars": vals, "choices": dict(self.choices)}

    def _randomise(self, extra):
        """A model of the linear path condition (and `extra`) with generic values."""
        s = self.solver
        s.push()
        try:
            for f in extra:
                s.add(f)
            if self._check() != z3.sat:
                return None
            vals = {}
            for a in self.atoms:
                if a.kind != "input":
                    continue
                done = False
                for scale in ((1, 1) if a.is_int else (6, 6, 1, Fraction(1, 4))):
                    v = Fraction(self.rng.randint(-9, 9) * scale)
                    if s.check(a.z == (z3.IntVal(int(v)) if a.is_int else z3.RealVal(str(v)))) == z3.sat:
                        s.add(a.z == (z3.IntVal(int(v)) if a.is_int else z3.RealVal(str(v))))
                        vals[a.name] = v
                        done = True
                        break
                if not done:
                    if s.check() != z3.sat:
                        return None
                    v = _frac(s.model().eval(a.z, model_completion=True))
                    s.add(a.z == (z3.IntVal(int(v)) if a.is_int else z3.RealVal(str(v))))
                    vals[a.name] = v
            return {"vars": vals, "choices": dict(self.choices)}
        finally:
            s.pop()

    # -- numeric evaluation (sample models, validation) ------------------------------------------
    def numeric(self, vals):
        cache = {}

        def atom(i):
            if i in cache:
                return cache[i]
            a = self.atoms[i]
            if a.kind == "input":
                r = float(vals[a.name])
            elif a.kind == "quot":
                d = ev(a.args[1])
                r = ev(a.args[0]) / d if d else float("nan")
            elif a.kind == "root":
                r = max(ev(a.args[0]), 0.0) ** 0.5
            elif a.kind == "abs":
                r = abs(ev(a.args[0]))
            elif a.kind == "round":
                r = round(ev(a.args[0]), a.args[1])
            cache[i] = r
            return r

        def ev(p):
            t = 0.0
            for m, c in p.items():
                x = float(c)
                for i in m:
                    x *= atom(i)
                t += x
            return t
        return ev

    def degenerate(self):
        """the path needs an exact zero of a derived quantity, which machine floats rarely hit"""
        return any(signs == frozenset("0") and
                   (p_degree(q) > 1 or len(q) > 2 or any(self.atoms[v].kind != "input" for m in q for v in m))
                   for q, signs in self.conds)

    def sample_case(self, tries=6):
        """Concrete inputs that follow this path (generic values), or None."""
        for _ in range(tries):
            case = self._randomise([])
            if case is None:
                return None
            if not self.nl and not any(self.atoms[v].kind != "input" for q, _ in self.conds for m in q for v in m):
                return case
            ev = self.numeric(case["vars"])
            ok = True
            for q, signs in self.conds:
                v = ev(q)
                s = "0" if abs(v) < 1e-9 else "+" if v > 0 else "-"
                if s not in signs:
                    ok = False
                    break
            if ok:
                return case
        return None

    def _search(self, goal, op, neg, n=20):
        if goal is None:
            return None
        for _ in range(n):
            case = self.sample_case(1)
            if case is None:
                continue
            v = self.numeric(case["vars"])(goal[0])
            bad = {"==": abs(v) > 1e-6, "<=": v > 1e-6, "<": v >= 1e-6, ">=": v < -1e-6, ">": v <= -1e-6,
                   "!=": abs(v) < 1e-9}[op]
            if bad:
                return case
        return None


def _square_part(c):
    """c == k^2 * s with k rational and s a squarefree positive integer (up to a search bound)"""
    n = c.numerator * c.denominator
    out, s, f = 1, n, 2
    while f * f <= s and f < 2000:
        while s % (f * f) == 0:
            s //= f * f
            out *= f
        f += 1
    return Fraction(out, c.denominator), s


def _frac(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)
