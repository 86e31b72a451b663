"""Harness contexts: the same harness runs symbolically or concretely."""

from __future__ import annotations

import random
from fractions import Fraction
from typing import Any

try:  # the concrete replay interpreter has no z3
    import z3

    from . import engine as eng
    from .engine import SymBool, SymReal, blift, is_sym
except ImportError:  # pragma: no cover
    z3 = None  # type: ignore


class AssumptionFailed(BaseException):
    """A concrete input lies outside the harness domain."""


class CheckFailed(BaseException):
    """A concrete check failed."""


class StubRandom:
    """Arbitrary random source, constrained only by the documented contract."""

    def __init__(self, ctx: Any, n: int = 4) -> None:
        self.ctx, self.k, self.n = ctx, 0, n
        self.calls: list[tuple[Any, Any, Any]] = []

    def _u(self) -> Any:
        self.k += 1
        return self.ctx.real(f"rnd{self.k}", 0, 1)

    def random(self) -> Any:
        return self._u()

    def uniform(self, a: Any, b: Any) -> Any:
        v = a + (b - a) * self._u()
        self.calls.append((a, b, v))
        return v


class BaseCtx:
    symbolic = False

    def __init__(self) -> None:
        self.log: list[tuple[str, str, Any]] = []
        self.reached: dict[str, int] = {}
        self.trig: Any = None

    # shared helpers -----------------------------------------------------
    def stub_random(self) -> StubRandom:
        return StubRandom(self)

    def reach(self, label: str) -> None:
        self.reached[label] = self.reached.get(label, 0) + 1

    def observe(self, name: str, val: Any) -> None:
        self.log.append(("obs", name, val))

    def raises(self, excs: Any, fn: Any, *a: Any, **k: Any) -> bool:
        try:
            fn(*a, **k)
        except excs:
            return True
        return False

    def check_raises(self, excs: Any, label: str, fn: Any, *a: Any, **k: Any) -> None:
        self.check(self.raises(excs, fn, *a, **k), label)

    def eq(self, a: Any, b: Any, label: str) -> None:
        self.check(self.same(a, b), label)

    def near(self, a: Any, b: Any, tol: Any, label: str) -> None:
        """Equal up to a tolerance that the code itself documents."""
        d = a - b
        self.check(self.And(self.leq(d, tol), self.leq(-d, tol)), label)

    def le(self, a: Any, b: Any, label: str) -> None:
        self.check(self.leq(a, b), label)

    def all_of(self, conds: Any) -> Any:
        r: Any = True
        for c in conds:
            r = self.And(r, c)
        return r

    def any_of(self, conds: Any) -> Any:
        r: Any = False
        for c in conds:
            r = self.Or(r, c)
        return r

    def sum(self, xs: Any) -> Any:
        t: Any = 0
        for x in xs:
            t = t + x
        return t


class ConcreteCtx(BaseCtx):
    """Runs a harness on plain values; used for replay and trace validation."""

    def __init__(self, inputs: dict[str, Any], tol: float = 1e-6) -> None:
        super().__init__()
        self.inputs = inputs
        self.tol = tol
        self.failed: list[str] = []
        self.used: dict[str, Any] = {}

    def _get(self, name: str, default: Any) -> Any:
        v = self.inputs.get(name, default)
        if isinstance(v, str) and "/" in v:
            f = Fraction(v)
            v = f.numerator / f.denominator
        self.used[name] = v
        return v

    def real(self, name: str, lo: Any = None, hi: Any = None,
             lo_open: bool = False, hi_open: bool = False) -> Any:
        v = float(self._get(name, 0.0 if lo is None else lo))
        if lo is not None and (v < lo or (lo_open and v == lo)):
            raise AssumptionFailed(name)
        if hi is not None and (v > hi or (hi_open and v == hi)):
            raise AssumptionFailed(name)
        return v

    def int(self, name: str, lo: int, hi: int) -> int:
        return int(self._get(name, lo))

    def bool(self, name: str) -> bool:
        return bool(self._get(name, False))

    def choice(self, name: str, options: Any) -> Any:
        options = list(options)
        return options[int(self._get(name, 0))]

    def assume(self, c: Any) -> None:
        if not c:
            raise AssumptionFailed("assume")

    def And(self, *cs: Any) -> Any:
        return all(cs)

    def Or(self, *cs: Any) -> Any:
        return any(cs)

    def Not(self, c: Any) -> Any:
        return not c

    def Implies(self, a: Any, b: Any) -> Any:
        return (not a) or b

    def ite(self, c: Any, a: Any, b: Any) -> Any:
        return a if c else b

    def min(self, *xs: Any) -> Any:
        return min(xs)

    def max(self, *xs: Any) -> Any:
        return max(xs)

    def leq(self, a: Any, b: Any) -> Any:
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a <= b + self.tol * max(1.0, abs(a) if abs(a) != float("inf") else 1.0)
        return a <= b

    def same(self, a: Any, b: Any) -> Any:
        if isinstance(a, bool) or isinstance(b, bool):
            return a == b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if a == b:
                return True
            if float("inf") in (abs(a), abs(b)):
                return a == b
            return abs(a - b) <= self.tol * max(1.0, abs(a), abs(b))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return list(a) == list(b) and all(self.same(a[k], b[k]) for k in a)
        return bool(a == b)

    def check(self, c: Any, label: str) -> None:
        self.log.append(("check", label, None))
        if not c:
            self.failed.append(label)
            raise CheckFailed(label)

    def fail(self, label: str) -> None:
        self.check(False, label)

    def known(self, kf: str, region: Any) -> None:
        pass


class SymCtx(BaseCtx):
    """One instance per path."""

    symbolic = True

    def __init__(self, E: Any, on_candidate: Any, known_open: set[str]) -> None:
        super().__init__()
        self.E = E
        self.on_candidate = on_candidate
        self.vars: dict[str, tuple[str, Any]] = {}
        self.regions: list[tuple[str, Any]] = []
        self.known_open = known_open
        self.ranges: dict[str, tuple[Any, Any]] = {}

    # inputs -------------------------------------------------------------
    def real(self, name: str, lo: Any = None, hi: Any = None,
             lo_open: bool = False, hi_open: bool = False) -> Any:
        if name in self.vars:
            raise eng.EngineError(f"duplicate input {name}")
        v = z3.Real("in_" + name)
        self.vars[name] = ("real", v)
        self.ranges[name] = (lo, hi)
        cs = []
        if lo is not None:
            cs.append(v > eng.const(lo) if lo_open else v >= eng.const(lo))
        if hi is not None:
            cs.append(v < eng.const(hi) if hi_open else v <= eng.const(hi))
        if cs:
            self.E.assume(z3.And(*cs))
        return SymReal(v)

    def int(self, name: str, lo: int, hi: int) -> int:
        return self.choice(name, range(lo, hi + 1), base=lo)

    def bool(self, name: str) -> Any:
        if name in self.vars:
            raise eng.EngineError(f"duplicate input {name}")
        v = z3.Bool("in_" + name)
        self.vars[name] = ("bool", v)
        return SymBool(v)

    def choice(self, name: str, options: Any, base: int = 0) -> Any:
        options = list(options)
        if name in self.vars:
            raise eng.EngineError(f"duplicate input {name}")
        v = z3.Int("in_" + name)
        self.vars[name] = ("choice", v)
        n = len(options)
        self.E.assume(z3.And(v >= base, v < base + n))
        for i in range(n - 1):
            if self.E.decide(v == base + i):
                return options[i]
        return options[n - 1]

    # logic --------------------------------------------------------------
    def assume(self, c: Any) -> None:
        if isinstance(c, SymBool):
            self.E.assume(c.e)
        elif not c:
            self.E.stop(eng.PathInfeasible())

    def And(self, *cs: Any) -> Any:
        if all(not isinstance(c, SymBool) for c in cs):
            return all(cs)
        return SymBool(z3.And(*[blift(c) for c in cs]))

    def Or(self, *cs: Any) -> Any:
        if all(not isinstance(c, SymBool) for c in cs):
            return any(cs)
        return SymBool(z3.Or(*[blift(c) for c in cs]))

    def Not(self, c: Any) -> Any:
        return SymBool(z3.Not(c.e)) if isinstance(c, SymBool) else not c

    def Implies(self, a: Any, b: Any) -> Any:
        return self.Or(self.Not(a), b)

    def ite(self, c: Any, a: Any, b: Any) -> Any:
        if not isinstance(c, SymBool):
            return a if c else b
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return SymBool(z3.If(c.e, blift(a), blift(b)))
        return SymReal(z3.If(c.e, eng._lift(a), eng._lift(b)))

    def min(self, *xs: Any) -> Any:
        r = xs[0]
        for x in xs[1:]:
            r = self.ite(x < r, x, r)
        return r

    def max(self, *xs: Any) -> Any:
        r = xs[0]
        for x in xs[1:]:
            r = self.ite(x > r, x, r)
        return r

    def leq(self, a: Any, b: Any) -> Any:
        return a <= b

    def same(self, a: Any, b: Any) -> Any:
        if a is b:
            return True
        if isinstance(a, (SymReal, SymBool)) or isinstance(b, (SymReal, SymBool)):
            if isinstance(a, (int, float, SymBool)) and isinstance(b, (int, float, SymBool)):
                if isinstance(a, SymBool) or isinstance(b, SymBool):
                    return (b == a) if isinstance(a, bool) else (a == b)
                if eng._is_special(a) or eng._is_special(b):
                    return False
                d = z3.simplify(eng._lift(a) - eng._lift(b), som=True)
                n = eng._num(d)
                if n is not None:
                    return n == 0
                return SymBool(d == eng.const(0))
            return False
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.all_of(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            if list(a) != list(b):
                return False
            return self.all_of(self.same(a[k], b[k]) for k in a)
        return a == b

    # assertions -----------------------------------------------------------
    def check(self, c: Any, label: str) -> None:
        E = self.E
        if E.abort is not None:
            raise E.abort
        self.log.append(("check", label, None))
        fresh = E.pos >= len(E.trail)
        if E.trig is not None and isinstance(c, SymBool):
            c = SymBool(E.trig.simp(c.e))
        if not isinstance(c, SymBool):
            if c:
                if fresh:
                    E.stats.checks += 1
                return
            if fresh:
                self.candidate(z3.BoolVal(True), label)
            E.stop(eng.PathInfeasible())
        if not fresh:
            E.assume(c.e)
            return
        E.stats.checks += 1
        if E.trig is not None:
            r = E.trig.feasible(z3.Not(c.e))
        else:
            r, m = E.query(z3.Not(c.e))
        if r == z3.unsat:
            E.assume(c.e)
            return
        if r == z3.unknown:
            self.on_candidate(self, None, label, "unknown")
        else:
            self.candidate(z3.Not(c.e), label)
        E.assume(c.e)

    def fail(self, label: str) -> None:
        self.check(False, label)

    def known(self, kf: str, region: Any) -> None:
        if kf in self.known_open:
            self.regions.append((kf, blift(region)))

    def candidate(self, neg: Any, label: str) -> None:
        """neg is satisfiable together with the path condition."""
        E = self.E
        if not self.regions:
            self.on_candidate(self, neg, label, "violation")
            return
        outside = z3.And(neg, *[z3.Not(r) for _, r in self.regions])
        r, _ = E.query(outside)
        if r == z3.sat:
            self.on_candidate(self, outside, label, "violation")
        elif r == z3.unknown:
            self.on_candidate(self, None, label, "unknown")
        for kf, reg in self.regions:
            r, _ = E.query(z3.And(neg, reg))
            if r == z3.sat:
                self.on_candidate(self, z3.And(neg, reg), label, "known:" + kf)

    # models ---------------------------------------------------------------
    def nice_model(self, neg: Any, rnd: random.Random | None = None) -> dict[str, Any] | None:
        """A model of pc and neg whose inputs are small dyadic numbers if possible."""
        E = self.E
        if E.trig is not None:
            out = E.trig.witness(neg, rnd)
            if out is not None:
                self.last_model = None
                return out
            if rnd is not None:
                return None
        s = E.solver
        s.push()
        try:
            s.add(neg)
            r = E._check()
            if r != z3.sat:
                return None
            m = E._model()
            out: dict[str, Any] = {}
            names = list(self.vars)
            if rnd is not None:
                rnd.shuffle(names)
            for name in names:
                kind, v = self.vars[name]
                val = m.eval(v, model_completion=True)
                if kind == "choice":
                    out[name] = val.as_long()
                    s.add(v == val)
                    continue
                if kind == "bool":
                    out[name] = z3.is_true(val)
                    s.add(v == val)
                    continue
                f = _frac(val)
                done = False
                cands: list[Fraction] = []
                if rnd is not None:
                    lo, hi = self.ranges.get(name, (None, None))
                    lo = -16 if lo is None or lo == float("-inf") else lo
                    hi = lo + 32 if hi is None else hi
                    for _ in range(2):
                        c = Fraction(rnd.randint(int(lo * 4), int(hi * 4)), 4)
                        cands.append(c)
                for den in (1, 2, 8, 64, 1024):
                    c = Fraction(round(f * den), den)
                    for k in (0, 1, -1) if den <= 2 else (0,):
                        c2 = c + Fraction(k, den)
                        if c2 not in cands:
                            cands.append(c2)
                for c in cands:
                    s.push()
                    s.add(v == eng.const(c))
                    rr = E._check()
                    if rr == z3.sat:
                        m = E._model()
                        s.pop()
                        s.add(v == eng.const(c))
                        out[name] = f"{c.numerator}/{c.denominator}"
                        done = True
                        break
                    s.pop()
                if not done:
                    if z3.is_rational_value(val):
                        s.add(v == val)
                    out[name] = f"{f.numerator}/{f.denominator}"
            self.last_model = m
            return out
        finally:
            s.pop()


def _frac(val: Any) -> Fraction:
    if z3.is_rational_value(val):
        return Fraction(val.numerator_as_long(), val.denominator_as_long())
    if z3.is_algebraic_value(val):
        a = val.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(str(val))
