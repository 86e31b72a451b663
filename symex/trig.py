"""Angles for the symbolic executor.

An angle is an ordinary symbolic real; its sine and cosine are algebraic terms.
An input angle is n * 2*atan(t) for an input t, so the sine and cosine of
angle/n are variables on the unit circle and every multiple expands into a
polynomial in them.  asin, acos, atan and atan2 make new angles whose sine and
cosine are given by square roots of earlier terms.

Conditions are brought to a normal form modulo s^2 + c^2 = 1 and r^2 = P (r a
square root) by exact rational arithmetic before they go to the solver.
This module imports without z3 for the concrete replay.
"""

from __future__ import annotations

import math
from fractions import Fraction
from typing import Any

try:
    import numpy as np
    import z3
    from sympy import QQ
    from sympy.polys.rings import ring

    from . import engine as eng
    from .engine import SymReal
except ImportError:  # pragma: no cover
    z3 = None  # type: ignore

_m = {k: getattr(math, k) for k in ("sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sqrt")}
PI = Fraction(math.pi)
NGEN = 64


class ConcreteTrig:
    """The same interface on floats."""

    def __init__(self, ctx: Any) -> None:
        self.ctx = ctx

    def angle(self, name: str, n: int, lo: Any, hi: Any) -> Any:
        return n * 2 * _m["atan"](self.ctx.real(name, lo, hi))

    def unit(self, *vecs: Any) -> None:
        pass

    def quantity(self, *xs: Any) -> None:
        pass

    def nonneg(self, *xs: Any) -> None:
        pass

    def known(self, *angles: Any) -> None:
        pass

    def zero(self, x: Any, tol: float = 1e-6) -> Any:
        return abs(x) <= tol

    def posi(self, x: Any, tol: float = 1e-6) -> Any:
        return x >= -tol


def make(ctx: Any) -> Any:
    t = Trig(ctx) if ctx.symbolic else ConcreteTrig(ctx)
    if ctx.symbolic:
        ctx.trig = t
        ctx.E.trig = t
    return t


if z3 is not None:
    _CMP = {z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT}


class Frac:
    """num / product of den factors."""

    __slots__ = ("num", "den")

    def __init__(self, num: Any, den: dict[Any, int] | None = None) -> None:
        self.num, self.den = num, den or {}


class Trig:
    def __init__(self, ctx: Any) -> None:
        self.ctx, self.E = ctx, ctx.E
        self.R = _ring()
        self.gens = self.R.gens
        self.idx: dict[str, int] = {}
        self.atoms: list[Any] = []
        self.rule: dict[int, Frac] = {}
        self.pos: set[int] = set()
        self.angles: dict[str, dict[str, Any]] = {}
        self.quant: list[tuple[Any, list[float]]] = []
        self.known_angles: list[Any] = []
        self.free: dict[str, Any] = {}
        self.memo: dict[int, Any] = {}
        self.rnd = np.random.default_rng(5)
        self.K = 4000
        self.ok = np.ones(self.K, dtype=bool)
        self.num: dict[str, Any] = {}
        self.vmemo: dict[int, Any] = {}
        self.red: dict[Any, Any] = {}
        self.lra = z3.SolverFor("QF_LRA")
        self.lra.set("timeout", 4000)
        self.mono: dict[Any, Any] = {}
        self.defining = False
        self.bnd: dict[int, Any] = {}
        self.strict: list[tuple[Any, Any]] = []
        self.signs: dict[Any, int | None] = {}
        self.trigs: list[tuple[Any, Any]] = []

    # ----------------------------------------------------------- inputs
    def angle(self, name: str, n: int, lo: Any, hi: Any) -> Any:
        t = self.ctx.real(name, lo, hi, lo_open=True, hi_open=True)
        E = self.E
        c, s, th = E.fresh("cos_" + name), E.fresh("sin_" + name), E.fresh("ang_" + name)
        one, two = eng.const(1), eng.const(2)
        lo_a, hi_a = n * 2 * _m["atan"](float(lo)), n * 2 * _m["atan"](float(hi))
        v = self.val(t.e)
        self._var(c, (1 - v * v) / (1 + v * v))
        self._var(s, 2 * v / (1 + v * v))
        self._var(th, n * 2 * np.arctan(v))
        ci, si = self.idx[str(c)], self.idx[str(s)]
        self.define(z3.And(s * (one + t.e * t.e) == two * t.e, c * (one + t.e * t.e) == one - t.e * t.e,
                           s * s + c * c == one))
        self.define(z3.And(th >= eng.const(Fraction(lo_a)), th <= eng.const(Fraction(hi_a))))
        self.rule[si] = Frac(1 - self.gens[ci] ** 2)
        if -1 <= lo and hi <= 1:
            self.define(c > eng.const(0))
            self.nonneg(SymReal(c))
        if lo >= 0:
            self.define(s > eng.const(0))
            self.nonneg(SymReal(s))
        if lo >= 0 and hi <= 1:
            ln, hn = (Fraction(eng._num(eng.const(Fraction(x)))) for x in (lo, hi))
            self.bound(s, 2 * ln / (1 + ln * ln), 2 * hn / (1 + hn * hn))
            self.bound(c, (1 - hn * hn) / (1 + hn * hn), (1 - ln * ln) / (1 + ln * ln))
        self.angles[str(th)] = {"n": n, "s": s, "c": c}
        r = SymReal(th)
        self.rng_(r, lo_a, hi_a)
        return r

    def _sample(self, lo: float, hi: float) -> Any:
        if hi > 20:  # tangent of a half angle
            v = np.tan(self.rnd.uniform(np.arctan(lo), np.arctan(hi), self.K))
        else:
            v = self.rnd.uniform(lo, hi, self.K)
        return np.clip(np.round(v * 256) / 256, lo + 1 / 512, hi - 1 / 512)

    def rng_(self, r: Any, lo: float, hi: float) -> None:
        self.angles[str(r.e)].update(lo=lo, hi=hi)
        self.bound(r.e, Fraction(lo), Fraction(hi))

    def _var(self, v: Any, vals: Any) -> int:
        k = str(v)
        if k not in self.idx:
            if len(self.atoms) >= NGEN:
                raise eng.EngineError("too many trigonometric terms")
            self.idx[k] = len(self.atoms)
            self.atoms.append(v)
            self.num[k] = vals
        return self.idx[k]

    def nonneg(self, *xs: Any) -> None:
        """Register quantities that are >= 0 (proved by the solver), as candidates for roots."""
        for x in xs:
            f = self.frac(x.e)
            if not f.den and len(f.num) == 1:
                (mono, co), = f.num.items()
                if sum(mono) == 1 and co == 1:
                    self.pos.add(next(i for i, k in enumerate(mono) if k))
            if self.E.decide(x.e < eng.const(0)):
                raise eng.EngineError("trig: quantity not proved nonnegative")
            self.E.assume(x.e > eng.const(0))  # zero belongs to degenerate configurations
            self.strict.append((x.e, self.val(x.e)))
            self.quant.append((x.e, self.val(x.e)))

    def quantity(self, *xs: Any) -> None:
        """Terms whose products the search for squares tries."""
        self.trigs += [(x.e, self.val(x.e)) for x in xs if eng.is_sym(x)]

    def known(self, *angles: Any) -> None:
        """Angles in [-pi/2, pi/2] that asin and atan may return."""
        self.known_angles += [(a, _sin(a), _cos(a)) for a in angles]

    def unit(self, *vecs: Any) -> None:
        """Check that vectors have length one; then no component or dot product passes 1."""
        one = eng.const(1)
        for i, v in enumerate(vecs):
            n2 = sum(x * x for x in v)
            if not self.is_zero((n2 - 1).e):
                raise eng.EngineError("trig: not a unit vector")
            facts = [self.simp_real(x) for x in v]
            facts += [self.simp_real(sum(a * b for a, b in zip(v, w))) for w in vecs[:i]]
            for x in facts:
                if eng.is_sym(x):
                    self.define(z3.And(self.simp(x.e <= one), self.simp(x.e >= -one)))

    def zero(self, x: Any, tol: float = 1e-6) -> Any:
        return x == 0

    def posi(self, x: Any, tol: float = 1e-6) -> Any:
        return x >= 0

    # ----------------------------------------------------- normal forms
    def frac(self, e: Any) -> Frac:
        hit = self.memo.get(e.get_id())
        if hit is None:
            hit = self.memo[e.get_id()] = (self._frac(e), e)
        return hit[0]

    def _frac(self, e: Any) -> Frac:
        n = eng._num(e)
        if n is not None:
            return Frac(self.R(QQ(n.numerator, n.denominator)))
        if z3.is_add(e):
            r = self.frac(e.arg(0))
            for a in e.children()[1:]:
                r = self._add(r, self.frac(a), 1)
            return r
        if z3.is_sub(e):
            r = self.frac(e.arg(0))
            for a in e.children()[1:]:
                r = self._add(r, self.frac(a), -1)
            return r
        if z3.is_mul(e):
            r = self.frac(e.arg(0))
            for a in e.children()[1:]:
                r = self._mul(r, self.frac(a))
            return r
        if z3.is_div(e):
            a, b = self.frac(e.arg(0)), self.frac(e.arg(1))
            return self._mul(a, self._inv(b))
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_UMINUS:
            a = self.frac(e.arg(0))
            return Frac(-a.num, a.den)
        if k == z3.Z3_OP_POWER:
            m = eng._num(e.arg(1))
            if m is not None and m.denominator == 1 and 0 < m <= 12:
                a = self.frac(e.arg(0))
                r = a
                for _ in range(int(m) - 1):
                    r = self._mul(r, a)
                return r
        if z3.is_const(e):
            if str(e) not in self.idx:
                lo, hi = self.ctx.ranges.get(str(e)[3:], (0, 2))
                v = self.num.get(str(e))
                self._var(e, self._sample(float(lo), float(hi)) if v is None else v)
            return Frac(self.gens[self.idx[str(e)]])
        raise eng.EngineError(f"trig: term {str(e)[:60]}")

    def _inv(self, b: Frac) -> Frac:
        num = self.R(1)
        for p, k in b.den.items():
            num = num * p**k
        red = self._reduce(b)
        if not red.num:
            raise eng.EngineError("trig: division by a vanishing term")
        num2 = num
        if red.num.is_ground:
            f = Frac(self.R(1))
            c = red.num.LC
            for p, k in red.den.items():
                f.num = f.num * p**k
            return Frac(f.num.mul_ground(QQ(1) / c))
        c = b.num.LC
        return Frac(num2.mul_ground(QQ(1) / c), {b.num.mul_ground(QQ(1) / c): 1})

    def _mul(self, a: Frac, b: Frac) -> Frac:
        num = a.num * b.num
        if not num:
            return Frac(num)
        den = dict(a.den)
        for p, k in b.den.items():
            den[p] = den.get(p, 0) + k
        return self._cancel(num, den)

    def _cancel(self, num: Any, den: dict[Any, int]) -> Frac:
        for p in list(den):
            while den.get(p):
                q, r = divmod(num, p) if len(num) <= 400 else (None, 1)
                if r != 0:
                    break
                num = q
                den[p] -= 1
                if not den[p]:
                    del den[p]
        return Frac(num, den)

    def _add(self, a: Frac, b: Frac, sg: int) -> Frac:
        den = dict(a.den)
        for p, k in b.den.items():
            den[p] = max(den.get(p, 0), k)
        na, nb = a.num, b.num
        for p, k in den.items():
            ka, kb = k - a.den.get(p, 0), k - b.den.get(p, 0)
            if ka:
                na = na * p**ka
            if kb:
                nb = nb * p**kb
        num = na + nb if sg > 0 else na - nb
        if not num:
            return Frac(num)
        return Frac(num, den) if den == a.den or den == b.den else self._cancel(num, den)

    def _reduce(self, f: Frac) -> Frac:
        """Apply the rules g^2 -> P to the numerator, latest generators first."""
        num, den = f.num, dict(f.den)
        for g in sorted(self.rule, reverse=True):
            if not num:
                break
            parts: dict[int, dict[Any, Any]] = {}
            for mono, co in num.items():
                k = mono[g] // 2
                if k:
                    mono = mono[:g] + (mono[g] % 2,) + mono[g + 1:]
                d = parts.setdefault(k, {})
                d[mono] = d.get(mono, 0) + co
            top = max(parts)
            if not top:
                continue
            rule = self.rule[g]
            dprod = self.R(1)
            for p, k in rule.den.items():
                dprod = dprod * p**k
            tot = self.R(0)
            for k, d in parts.items():
                q = self.R.from_dict({m: c for m, c in d.items() if c})
                if k:
                    q = q * rule.num**k
                if top - k and rule.den:
                    q = q * dprod ** (top - k)
                tot = tot + q
            num = tot
            for p, k in rule.den.items():
                den[p] = den.get(p, 0) + k * top
        return Frac(num, den)

    def nf(self, e: Any) -> Frac:
        key = ("nf", e.get_id())
        hit = self.red.get(key)
        if hit is None:
            hit = self.red[key] = (self._reduce(self.frac(e)), e)
        return hit[0]

    def is_zero(self, e: Any) -> bool:
        return not self.nf(e).num

    def _term(self, p: Any) -> Any:
        out = None
        for mono, co in sorted(p.items(), reverse=True):
            t = eng.const(Fraction(int(co.numerator), int(co.denominator)))
            for i, k in enumerate(mono):
                for _ in range(k):
                    t = t * self.atoms[i]
            out = t if out is None else out + t
        return eng.const(0) if out is None else out

    def simp_real(self, x: Any) -> Any:
        if not eng.is_sym(x):
            return x
        f = self.nf(x.e)
        t = self._term(f.num)
        for p, k in f.den.items():
            for _ in range(k):
                t = t / self._term(p)
        return SymReal(t)

    def _sign(self, p: Any) -> int | None:
        """1 if p >= 0 for sure, -1 if p <= 0 for sure, 0 if zero."""
        if not p:
            return 0
        sg = set()
        for mono, co in p.items():
            if any(k % 2 and i not in self.pos for i, k in enumerate(mono)):
                return None
            sg.add(1 if co > 0 else -1)
        return sg.pop() if len(sg) == 1 else None

    def sign(self, p: Any) -> int | None:
        """As _sign, also for squares of products of known sines and cosines."""
        r = self._sign(p)
        if r is None:
            if p not in self.signs:
                t = self._term(p)
                self.signs[p] = 1 if self._square(t) else -1 if self._square(-t) else None
            r = self.signs[p]
        return r

    def _square(self, e: Any) -> bool:
        """The term is a square (or a known quantity) times a positive number."""
        vals = self.val(e)
        if not self.ok.any() or np.quantile(vals[self.ok], 0.3) < 0:
            return False
        if self._positive(e, self.quant[:12]):
            return True
        for q, qv in self._products((self.trigs + self.quant)[-40:], 2):
            k = self._ratio(vals, qv * qv)
            if k is not None and self.is_zero(e - eng.const(k) * q * q):
                return True
        return False

    def _positive(self, e: Any, qs: Any) -> bool:
        """The term is a product of one or two quantities times a positive number."""
        vals = self.val(e)
        for q, qv in self._products(qs, 2):
            k = self._ratio(vals, qv)
            if k is not None and self.is_zero(e - eng.const(k) * q):
                return True
        return False

    def _ratio(self, vals: Any, qv: Any) -> Fraction | None:
        with np.errstate(all="ignore"):
            ks = (vals / qv)[self.ok & (np.abs(qv) > 1e-6)][:40]
        if len(ks) < 2:
            return None
        k0 = float(np.median(ks))
        if not k0 > 0 or np.quantile(np.abs(ks - k0), 0.7) > 1e-6 * k0:
            return None
        k = Fraction(k0).limit_denominator(10**4)
        return k if abs(float(k) - k0) <= 1e-6 * k0 else None

    def boundary(self, e: Any) -> bool | None:
        """The truth of p <= 0 or p > 0, for p that is never negative, wherever p is not zero."""
        r = self._edge(e)
        return self.conj(e, True) if r is None else r

    def _edge(self, e: Any) -> bool | None:
        """The same by bounds."""
        k = e.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = self._edge(e.arg(0))
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            rs = [self._edge(a) for a in e.children()]
            return None if None in rs else all(rs) if k == z3.Z3_OP_AND else any(rs)
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or not z3.is_real(e.arg(0)):
            return None
        a, b = self.range(e.arg(0)), self.range(e.arg(1))
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
        return True if a[1] <= b[0] else False if a[0] >= b[1] else None

    def conj(self, e: Any, edge: bool = False) -> bool | None:
        """Decide p + q * r <=> 0 for a root r by the sign of its norm."""
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_NOT:
            r = self.conj(e.arg(0), edge)
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR) and edge:
            rs = [self.conj(a, edge) for a in e.children()]
            return None if None in rs else all(rs) if k == z3.Z3_OP_AND else any(rs)
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or not z3.is_real(e.arg(0)):
            return None
        f = self.nf(e.arg(0) - e.arg(1))
        den = 1
        for p, n in f.den.items():
            if n % 2:
                den *= self.sign(p) or 0
        if not den or len(f.num) > 300:
            return None
        num = f.num if den > 0 else -f.num
        s = self.sign(num)
        if s is None:
            for g in sorted(self.rule, reverse=True):
                if g not in self.pos or not any(m[g] for m in num):
                    continue
                p, q = self._split(num, g)
                sq = self.sign(q)
                if not sq:
                    continue
                r = self.atoms[g]
                pt, qt = self._term(p), self._term(q)
                D = self.nf(qt * qt * r * r - pt * pt)
                if any(n % 2 and self.sign(d) != 1 for d, n in D.den.items()):
                    continue
                t = self.sign(D.num)
                if t is None and len(D.num) <= 40:
                    z, dt = eng.const(0), self._term(D.num)
                    t = 1 if self._refuted(dt < z) else -1 if self._refuted(dt > z) else None
                if t in (0, 1):
                    s = sq
                    break
                if t == -1 and self.sign(p):
                    s = self.sign(p)
                    break
        if s == 1 and (k in (z3.Z3_OP_GE, z3.Z3_OP_LT) or edge):
            return k in (z3.Z3_OP_GE, z3.Z3_OP_GT)
        if s == -1 and (k in (z3.Z3_OP_LE, z3.Z3_OP_GT) or edge):
            return k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
        return None

    def _split(self, num: Any, g: int) -> tuple[Any, Any]:
        p, q = {}, {}
        for m, c in num.items():
            if m[g]:
                q[m[:g] + (0,) + m[g + 1:]] = c
            else:
                p[m] = c
        return self.R.from_dict(p), self.R.from_dict(q)

    # ---------------------------------------------------------- bounds
    def bound(self, e: Any, lo: float, hi: float) -> None:
        if eng._num(e) is None:
            self.bnd[e.get_id()] = (lo, hi, e)

    def range(self, e: Any) -> tuple[float, float]:
        """Bounds of a term by interval arithmetic from those of sines, cosines and angles."""
        hit = self.bnd.get(e.get_id())
        if hit is None:
            lo, hi = self._range(e)
            hit = self.bnd[e.get_id()] = (lo, hi, e)
        return hit[0], hit[1]

    def _range(self, e: Any) -> tuple[Any, Any]:
        n = eng._num(e)
        inf = math.inf
        if n is not None:
            return n, n
        ch = [self.range(a) for a in e.children()] if e.num_args() else []
        try:
            if z3.is_add(e):
                return sum(c[0] for c in ch), sum(c[1] for c in ch)
            if z3.is_sub(e):
                return (ch[0][0] - sum(c[1] for c in ch[1:]), ch[0][1] - sum(c[0] for c in ch[1:]))
            if z3.is_mul(e):
                a = e.children()
                if len(a) == 2 and a[0].eq(a[1]):
                    m = max(abs(ch[0][0]), abs(ch[0][1]))
                    return 0, m * m
                r = ch[0]
                for c in ch[1:]:
                    if inf in (r[1], c[1]) or -inf in (r[0], c[0]):
                        return (0, inf) if r[0] >= 0 and c[0] >= 0 else (-inf, inf)
                    ps = [x * y for x in r for y in c]
                    r = (min(ps), max(ps))
                return r
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UMINUS:
                return -ch[0][1], -ch[0][0]
            if z3.is_div(e) and ch[1][0] == ch[1][1] != 0:
                return tuple(sorted((ch[0][0] / ch[1][0], ch[0][1] / ch[1][0])))
        except (OverflowError, ValueError):
            pass
        return -inf, inf

    def _by_range(self, e: Any) -> bool | None:
        k = e.decl().kind() if z3.is_app(e) else None
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or not z3.is_real(e.arg(0)):
            return None
        a, b = self.range(e.arg(0)), self.range(e.arg(1))
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a  # a <(=) b
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE):
            return True if a[1] <= b[0] else False if a[0] > b[1] else None
        return True if a[1] < b[0] else False if a[0] >= b[1] else None

    def simp(self, e: Any) -> Any:
        """An equivalent condition, usually much smaller."""
        key = ("b", e.get_id())
        hit = self.red.get(key)
        if hit is None:
            r = self._by_range(e)
            hit = self.red[key] = (self._simp(e) if r is None else z3.BoolVal(r), e)
        return hit[0]

    def _simp(self, e: Any) -> Any:
        if not z3.is_app(e):
            return e
        k = e.decl().kind()
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.simp(e.arg(0)))
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.simp(a) for a in e.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.simp(a) for a in e.children()])
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ,
                     z3.Z3_OP_DISTINCT) or not z3.is_real(e.arg(0)):
            return e
        if k == z3.Z3_OP_DISTINCT:
            return z3.Not(self.simp(e.arg(0) == e.arg(1)))
        try:
            f = self.nf(e.arg(0) - e.arg(1))
        except eng.EngineError as x:
            if self.E.abort is x:
                raise
            return e
        zero = eng.const(0)
        if not f.num:
            return z3.BoolVal(k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ))
        if k == z3.Z3_OP_EQ:
            if f.num.is_ground:
                return z3.BoolVal(False)
            if 0 < len(f.num) <= 12 and self.strict:
                t = self._term(f.num)
                if self._positive(t, self.strict[-12:]) or self._positive(-t, self.strict[-12:]):
                    return z3.BoolVal(False)
            if len(f.num) == 1:  # a root is zero where its square is
                g = next(i for i, n in enumerate(next(iter(f.num))) if n)
                if sum(next(iter(f.num))) == 1 and g in self.pos and g in self.rule:
                    return self._simp(self._term(self.rule[g].num) == zero)
            return self._term(f.num) == zero
        if len(f.num) > 12:
            d = e.arg(0) - e.arg(1)
            if k in (z3.Z3_OP_GE, z3.Z3_OP_LT) and self._square(d):
                return z3.BoolVal(k == z3.Z3_OP_GE)
            if k in (z3.Z3_OP_LE, z3.Z3_OP_GT) and self._square(-d):
                return z3.BoolVal(k == z3.Z3_OP_LE)
        den = 1
        for p, n in f.den.items():
            if n % 2:
                s = self._sign(p)
                if not s:
                    return e
                den *= s
        t = self._term(f.num) if den > 0 else self._term(-f.num)
        s = self._sign(f.num if den > 0 else -f.num)
        if s == 1 and k in (z3.Z3_OP_GE, z3.Z3_OP_LT):
            return z3.BoolVal(k == z3.Z3_OP_GE)
        if s == -1 and k in (z3.Z3_OP_LE, z3.Z3_OP_GT):
            return z3.BoolVal(k == z3.Z3_OP_LE)
        return {z3.Z3_OP_LE: t <= zero, z3.Z3_OP_LT: t < zero, z3.Z3_OP_GE: t >= zero,
                z3.Z3_OP_GT: t > zero}[k]

    # ---------------------------------------------------- sample values
    def val(self, e: Any) -> Any:
        """The values of a term at the sample points."""
        hit = self.vmemo.get(e.get_id())
        if hit is None:
            with np.errstate(all="ignore"):
                hit = self.vmemo[e.get_id()] = (self._val(e), e)
        return hit[0]

    def _val(self, e: Any) -> Any:
        n = eng._num(e)
        if n is not None:
            return np.full(self.K, float(n))
        ch = [self.val(a) for a in e.children()] if e.num_args() else []
        if z3.is_add(e):
            return sum(ch[1:], ch[0])
        if z3.is_sub(e):
            return ch[0] - sum(ch[2:], ch[1])
        if z3.is_mul(e):
            r = ch[0]
            for c in ch[1:]:
                r = r * c
            return r
        if z3.is_div(e):
            return ch[0] / ch[1]
        k = e.decl().kind()
        if k == z3.Z3_OP_UMINUS:
            return -ch[0]
        if k == z3.Z3_OP_POWER:
            return ch[0] ** ch[1]
        if z3.is_const(e):
            self.frac(e)
            return self.num[str(e)]
        raise eng.EngineError(f"trig: term {str(e)[:60]}")

    def truth(self, e: Any, slack: float = 1e-9) -> tuple[Any, Any]:
        """Sample points where a condition surely holds, and where it surely fails."""
        if z3.is_true(e) or z3.is_false(e):
            t = np.full(self.K, bool(z3.is_true(e)))
            return t, ~t
        k = e.decl().kind()
        if k == z3.Z3_OP_NOT:
            t, f = self.truth(e.arg(0), slack)
            return f, t
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            tf = [self.truth(a, slack) for a in e.children()]
            ts, fs = [x[0] for x in tf], [x[1] for x in tf]
            if k == z3.Z3_OP_AND:
                return np.all(ts, axis=0), np.any(fs, axis=0)
            return np.any(ts, axis=0), np.all(fs, axis=0)
        if k == z3.Z3_OP_IMPLIES:
            return self.truth(z3.Or(z3.Not(e.arg(0)), e.arg(1)), slack)
        none = np.zeros(self.K, dtype=bool)
        if k not in _CMP or not z3.is_real(e.arg(0)):
            return none, none
        try:
            d = self.val(e.arg(0)) - self.val(e.arg(1))
        except eng.EngineError:
            return none, none
        with np.errstate(all="ignore"):
            up, down = d > slack, d < -slack
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            return down, up
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            return up, down
        if k == z3.Z3_OP_DISTINCT:
            return up | down, none
        return none, up | down

    # ------------------------------------------------ linear abstraction
    def _abs(self, e: Any) -> Any:
        """The condition with every monomial as a variable of its own (weaker), or None."""
        if z3.is_true(e) or z3.is_false(e):
            return e
        k = e.decl().kind()
        if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES):
            ch = [self._abs(a) for a in e.children()]
            if any(c is None for c in ch):
                if k == z3.Z3_OP_AND:
                    return z3.And(*[c for c in ch if c is not None])
                return None
            return {z3.Z3_OP_NOT: z3.Not, z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or,
                    z3.Z3_OP_IMPLIES: z3.Implies}[k](*ch)
        if k not in _CMP or not z3.is_real(e.arg(0)):
            return None
        try:
            f = self.nf(e.arg(0) - e.arg(1))
        except eng.EngineError:
            return None
        if f.den or len(f.num) > 600:
            return None
        zero = eng.const(0)
        ts = [self._mono(m) * eng.const(Fraction(int(c.numerator), int(c.denominator)))
              for m, c in f.num.items()]
        t = z3.Sum(*ts) if ts else zero
        return {z3.Z3_OP_LE: t <= zero, z3.Z3_OP_LT: t < zero, z3.Z3_OP_GE: t >= zero,
                z3.Z3_OP_GT: t > zero, z3.Z3_OP_EQ: t == zero, z3.Z3_OP_DISTINCT: t != zero}[k]

    def _mono(self, m: Any) -> Any:
        if not any(m):
            return eng.const(1)
        r = self.mono.get(m)
        if r is None:
            r = self.mono[m] = z3.Real("mono_" + "_".join(f"{i}.{k}" for i, k in enumerate(m) if k))
            if all(k % 2 == 0 or i in self.pos for i, k in enumerate(m)):
                self.lra.add(r >= eng.const(0))
        return r

    def define(self, e: Any) -> None:
        """Add a fact about a new variable (its sample values are already registered)."""
        self.defining = True
        try:
            self.E.define(e)
        finally:
            self.defining = False

    def fact(self, e: Any) -> None:
        """A condition now holds on this path."""
        a = self._abs(e)
        if a is not None:
            self.lra.add(a)
        if not self.defining:
            self.ok &= ~self.truth(e)[1]

    def feasible(self, e: Any) -> Any:
        """sat / unsat / unknown for a condition together with the path."""
        if z3.is_true(e):
            return z3.sat
        if z3.is_false(e):
            return z3.unsat
        if bool((self.truth(e)[0] & self.ok).any()):
            return z3.sat
        known = self.conj(e)
        if known is not None:
            return z3.sat if known else z3.unsat
        if self._refuted(e):
            return z3.unsat
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", 6000)
        s.add(self.E.solver.assertions())
        s.add(e)
        return self._timed(s)

    def _refuted(self, e: Any) -> bool:
        """The linear facts exclude the condition."""
        if bool((self.truth(e)[0] & self.ok).any()):
            return False
        a = self._abs(e)
        if a is None:
            return False
        self.lra.push()
        self.lra.add(a)
        r = self._timed(self.lra)
        self.lra.pop()
        return r == z3.unsat

    def sat(self) -> Any:
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", 6000)
        s.add(self.E.solver.assertions())
        return self._timed(s)

    def _timed(self, s: Any) -> Any:
        import time
        t = time.perf_counter()
        r = s.check()
        self.E.stats.solver_s += time.perf_counter() - t
        self.E.stats.queries += 1
        return r

    def witness(self, neg: Any, rnd: Any = None) -> dict[str, str] | None:
        """Inputs of a sample point on this path where the condition holds."""
        neg = self.simp(neg)
        hit = np.flatnonzero(self.truth(neg, 1e-5)[0] & self.ok)
        if not len(hit):
            return None
        j = int(hit[rnd.randrange(len(hit)) if rnd is not None else 0])
        out = {}
        for name, (kind, v) in self.ctx.vars.items():
            if kind != "real":
                return None
            if str(v) not in self.num:
                self.frac(v)
            f = Fraction(float(self.num[str(v)][j]))
            out[name] = f"{f.numerator}/{f.denominator}"
        return out

    def floor(self, e: Any) -> int:
        """Fork over the integer parts of a term that the samples show."""
        v = self.val(e)
        ks = sorted({int(k) for k in np.floor(v[self.ok])})
        a, b = self.range(e)
        if math.isfinite(a) and math.isfinite(b) and b - a < 12:
            ks = list(range(math.floor(a), math.floor(b) + 1))
        if not ks or len(ks) > 12:
            self.E.stop(eng.EngineError("trig: integer part"))
        lo, hi = eng.const(ks[0]), eng.const(ks[-1] + 1)
        if self.E.decide(z3.Or(e < lo, e >= hi)):
            self.E.stop(eng.EngineError("trig: integer part outside the samples"))
        for k in ks[:-1]:
            if self.E.decide(e < eng.const(k + 1)):
                return k
        return ks[-1]

    # ------------------------------------------------------------ roots
    def sqrt(self, x: Any) -> Any:
        f = self.nf(x.e)
        if f.num.is_ground and not f.den:
            c = f.num.LC if f.num else 0
            return self._croot(Fraction(int(c.numerator), int(c.denominator)) if c else Fraction(0))
        if self.E.decide(x.e < eng.const(0)):
            raise ValueError("math domain error")
        return self.root(x.e)

    def _croot(self, q: Fraction) -> Any:
        if q < 0:
            raise ValueError("math domain error")
        r = eng._frac_sqrt(q)
        if r is not None:
            return float(r) if float(r) == r else SymReal(eng.const(r))
        return SymReal(eng.const(Fraction(_m["sqrt"](float(q)))))

    def root(self, e: Any) -> Any:
        """The nonnegative root of a nonnegative term."""
        f = self.nf(e)
        if f.num.is_ground and not f.den:
            return self._croot(Fraction(int(f.num.LC.numerator), int(f.num.LC.denominator))
                               if f.num else Fraction(0))
        vals = self.val(e)
        for q, qv in [(eng.const(1), np.ones(self.K)), *self._products()]:
            k = self._ratio(vals, qv * qv)
            if k is None:
                continue
            kr = eng._frac_sqrt(k)
            if kr is None:
                continue
            if self.is_zero(e - eng.const(k) * q * q):
                return self._croot(k) if eng._num(q) is not None else SymReal(eng.const(kr) * q)
        for v, g in self._roots():
            if self.is_zero(e - v):
                return SymReal(g)
        r = self.E.fresh("root")
        if not f.den:
            body = self._term(f.num)
        else:
            body = e
        gi = self._var(r, np.sqrt(np.maximum(vals, 0.0)))
        self.bound(r, 0, math.inf)
        self.define(z3.And(r >= eng.const(0), r * r == body))
        self.rule[gi] = f
        self.pos.add(gi)
        self.roots.append((e, r))
        self.quant.append((r, self.num[str(r)]))
        return SymReal(r)

    @property
    def roots(self) -> list[Any]:
        return self.__dict__.setdefault("_rl", [])

    def _roots(self) -> Any:
        return list(self.roots)

    def _products(self, qs: Any = None, deg: int = 3) -> Any:
        qs = self.quant if qs is None else qs
        yield from qs
        if deg < 2:
            return
        for i, (a, av) in enumerate(qs):
            for b, bv in qs[i:]:
                yield a * b, av * bv
        for i, (a, av) in enumerate(qs):
            for b, bv in qs:
                if a is not b:
                    with np.errstate(all="ignore"):
                        r = av / bv
                    yield a / b, r
        if deg > 2 and len(qs) <= 14:
            for i, (a, av) in enumerate(qs):
                for j, (b, bv) in enumerate(qs[i:], i):
                    for c, cv in qs[j:]:
                        yield a * b * c, av * bv * cv

    # ----------------------------------------------------------- angles
    def has_angle(self, e: Any) -> bool:
        f = self.nf(e)
        return any(n and str(self.atoms[i]) in self.angles
                   for p in (f.num, *f.den) for m in p for i, n in enumerate(m))

    def absolute(self, x: Any) -> Any:
        """|x| as a root."""
        r = self.root((x * x).e)
        if eng.is_sym(r) and self._within(x.e):
            self.bound(r.e, 0, 1)
        return r

    def _within(self, e: Any) -> bool:
        """The linear facts bound the term by one."""
        one = eng.const(1)
        for c in (e > one, e < -one):
            c = self.simp(c)
            if z3.is_false(c):
                continue
            if not self._refuted(c):
                return False
        return True

    def _linear(self, e: Any) -> tuple[dict[str, Fraction], Fraction]:
        f = self.nf(e)
        if f.den:
            raise eng.EngineError("trig: angle is a quotient")
        parts: dict[str, Fraction] = {}
        c0 = Fraction(0)
        for mono, co in f.num.items():
            q = Fraction(int(co.numerator), int(co.denominator))
            d = sum(mono)
            if d == 0:
                c0 = q
            elif d == 1:
                parts[str(self.atoms[next(i for i, k in enumerate(mono) if k)])] = q
            else:
                parts[self._free("product", mono)] = q
        return parts, c0

    def _unit_sc(self, name: str, q: Fraction) -> tuple[Any, Any]:
        """sin and cos of q * angle."""
        a = self.angles.get(name)
        if a is None:
            raise eng.EngineError(f"trig: {name} is not an angle")
        k = q * a["n"]
        near = round(k)
        if near and k != near and abs(k - near) < Fraction(1, 10**12):
            k = Fraction(near)  # a float quotient such as 1/3
        if k.denominator == 1:
            return _multiple(int(k), a["s"], a["c"])
        if k.denominator in (2, 4, 8):
            h = self._half(name)
            return self._unit_sc(h, q * 2)
        if k.denominator <= 16:
            m = k.denominator
            return _multiple(k.numerator, *self._free_sc(f"{name}/{a['n'] * m}",
                                                         self.num[name] / (a["n"] * m)))
        raise eng.EngineError(f"trig: fraction {k} of an angle")

    def _free(self, what: str, mono: Any) -> str:
        """The product of an angle and other terms: an angle of its own, otherwise unconstrained."""
        ids = [i for i, k in enumerate(mono) for _ in range(k)]
        names = [str(self.atoms[i]) for i in ids]
        if sum(n in self.angles for n in names) != 1:
            raise eng.EngineError("trig: angle is a product")
        key = "*".join(names)
        if key not in self.angles:
            vals = self.num[names[0]]
            for n in names[1:]:
                vals = vals * self.num[n]
            s, c = self._free_sc(key, vals)
            self.angles[key] = {"n": 1, "s": s, "c": c, "lo": -1e9, "hi": 1e9}
            self.num[key] = vals
        return key

    def _free_sc(self, key: str, vals: Any) -> tuple[Any, Any]:
        hit = self.free.get(key)
        if hit is None:
            E = self.E
            c, s = E.fresh("cosf"), E.fresh("sinf")
            ci = self._var(c, np.cos(vals))
            si = self._var(s, np.sin(vals))
            self.define(s * s + c * c == eng.const(1))
            self.rule[si] = Frac(1 - self.gens[ci] ** 2)
            hit = self.free[key] = (s, c)
        return hit

    def _half(self, name: str) -> str:
        a = self.angles[name]
        if "half" in a:
            return a["half"]
        if not (a["lo"] >= -math.pi - 1e-9 and a["hi"] <= math.pi + 1e-9):
            raise eng.EngineError("trig: half of a wide angle")
        n = a["n"]
        if n != 1:
            raise eng.EngineError("trig: finer unit needed")
        c = self.root((eng.const(1) + a["c"]) / eng.const(2))
        cz = eng._lift(c)
        if a["lo"] < -3.1 or a["hi"] > 3.1:  # a turn by exactly pi is a degenerate configuration
            self.E.assume(z3.Not(cz == eng.const(0)))
        s = SymReal(a["s"]) / (c * 2)
        th = self.E.fresh("half_ang")
        self._var(th, self.num[name] / 2)
        self.define(eng.const(2) * th == self.atoms[self.idx[name]])
        self.angles[str(th)] = {"n": 1, "s": s.e, "c": cz, "lo": a["lo"] / 2, "hi": a["hi"] / 2}
        a["half"] = str(th)
        return str(th)

    def _sc(self, x: Any) -> tuple[Any, Any]:
        parts, c0 = self._linear(x.e)
        q = c0 / PI * 2
        k = round(q)
        if abs(q - k) > Fraction(1, 10**12):
            raise eng.EngineError("trig: constant part of an angle")
        s, c = [(eng.const(0), eng.const(1)), (eng.const(1), eng.const(0)),
                (eng.const(0), eng.const(-1)), (eng.const(-1), eng.const(0))][k % 4]
        first = k % 4 == 0
        for name, q in sorted(parts.items()):
            s2, c2 = self._unit_sc(name, q)
            if first:
                s, c, first = s2, c2, False
            else:
                s, c = s * c2 + c * s2, c * c2 - s * s2
        return s, c

    def sin(self, x: Any) -> Any:
        return self._back(self._sc(x)[0])

    def cos(self, x: Any) -> Any:
        return self._back(self._sc(x)[1])

    def tan(self, x: Any) -> Any:
        s, c = self._sc(x)
        return SymReal(s) / SymReal(c)

    def _back(self, e: Any) -> Any:
        n = eng._num(z3.simplify(e)) if eng._num(e) is None and not z3.is_const(e) else eng._num(e)
        self.bound(e, -1, 1)
        if n is None and not any(e.eq(t) for t, _ in self.trigs):
            self.trigs.append((e, self.val(e)))
        return float(n) if n is not None else SymReal(e)

    def _new(self, kind: str, s: Any, c: Any, lo: float, hi: float, vals: Any) -> Any:
        sr, cr = SymReal(eng._lift(s)), SymReal(eng._lift(c))
        for a, ks, kc in self.known_angles:
            if self.is_zero((sr - ks).e) and self.is_zero((cr - kc).e):
                return a
        for nm, d in self.angles.items():
            if d["n"] == 1 and d["lo"] >= lo - 1e-9 and d["hi"] <= hi + 1e-9:
                if self.is_zero(sr.e - d["s"]) and self.is_zero(cr.e - d["c"]):
                    return SymReal(self.atoms[self.idx[nm]])
        th = self.E.fresh("ang_" + kind)
        self._var(th, vals)
        z = eng.const(0)
        self.bound(th, Fraction(lo), Fraction(hi))
        self.bound(sr.e, -1, 1)
        self.bound(cr.e, -1, 1)
        self.define(z3.And(
            th >= eng.const(Fraction(lo)), th <= eng.const(Fraction(hi)),
            z3.Implies(self.simp(sr.e > z), th > z), z3.Implies(self.simp(sr.e < z), th < z)))
        self.angles[str(th)] = {"n": 1, "s": sr.e, "c": cr.e, "lo": lo, "hi": hi}
        return SymReal(th)

    def _unit_range(self, v: Any) -> None:
        if bool(v > 1) or bool(v < -1):
            raise ValueError("math domain error")

    def asin(self, v: Any) -> Any:
        self._unit_range(v)
        c = self.root((1 - v * v).e)
        return self._new("asin", v, c, -math.pi / 2, math.pi / 2,
                         np.arcsin(np.clip(self.val(v.e), -1, 1)))

    def acos(self, v: Any) -> Any:
        self._unit_range(v)
        s = self.root((1 - v * v).e)
        return self._new("acos", s, v, 0.0, math.pi,
                         np.arccos(np.clip(self.val(v.e), -1, 1)))

    def atan(self, v: Any) -> Any:
        h = self.root((1 + v * v).e)
        return self._new("atan", v / h, 1 / h, -math.pi / 2, math.pi / 2,
                         np.arctan(self.val(v.e)))

    def atan2(self, y: Any, x: Any) -> Any:
        ye, xe = eng._lift(y), eng._lift(x)
        z = eng.const(0)
        nz = self.simp(z3.Not(z3.And(ye == z, xe == z)))
        self.E.assume(nz)  # atan2(0, 0) belongs to degenerate configurations
        r = self.root(ye * ye + xe * xe)
        s, c = SymReal(ye), SymReal(xe)
        if eng.is_sym(r) or r != 1:
            s, c = SymReal(ye / eng._lift(r)), SymReal(xe / eng._lift(r))
        vals = np.arctan2(self.val(ye), self.val(xe))
        sx, sy = (1 if self._sign(self.frac(q).num) == 1 and not self.frac(q).den
                  or self._positive(q, self.quant[:24]) else None for q in (xe, ye))
        lo, hi = -math.pi, math.pi
        if sx == 1:
            lo, hi = -math.pi / 2, math.pi / 2
        if sy == 1:
            lo = 0.0
        return self._new("atan2", s, c, lo, hi, vals)


def _multiple(k: int, s: Any, c: Any) -> tuple[Any, Any]:
    if k < 0:
        s1, c1 = _multiple(-k, s, c)
        return -s1, c1
    if k == 0:
        return eng.const(0), eng.const(1)
    S, C = s, c
    for _ in range(k - 1):
        S, C = S * c + C * s, C * c - S * s
    return S, C


def exact(a: int, b: int) -> Any:
    return SymReal(eng.const(Fraction(a, b)))


def _sin(x: Any) -> Any:
    return math.sin(x)


def _cos(x: Any) -> Any:
    return math.cos(x)


_RING: Any = None


def _ring() -> Any:
    global _RING
    if _RING is None:
        _RING = ring([f"g{i}" for i in range(NGEN)], QQ)[0]
    return _RING
