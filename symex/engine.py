"""Path-exhaustive symbolic execution of unmodified Python code.

The code under test runs in this interpreter.  Inputs are proxy objects
(`SymReal`, a float subclass whose payload is NaN, and `SymBool`) that build z3
terms.  Whenever the code under test turns a symbolic condition into a Python
bool, `Engine.decide` asks z3 which outcomes are possible under the current
path condition and forks.  Paths are enumerated depth first by deterministic
re-execution; the incremental solver keeps the shared prefix.

Every BaseException used for steering is also recorded in `Engine.abort`,
because simpy (rightly) catches BaseException inside processes.
"""

from __future__ import annotations

import math
import signal
import time
from fractions import Fraction
from typing import Any

import z3

INF = float("inf")


class SymexStop(BaseException):
    """Base of the steering exceptions."""


class PathInfeasible(SymexStop):
    pass


class PathTimeout(SymexStop):
    pass


class EngineError(SymexStop):
    pass


class ViolationFound(SymexStop):
    pass


CUR: "Engine | None" = None


def cur() -> "Engine":
    if CUR is None or not CUR.active:
        raise EngineError("symbolic operation outside an active path")
    return CUR


# ------------------------------------------------------------------ numbers

_const_cache: dict[Any, Any] = {}


def const(x: Any) -> Any:
    """z3 real constant for a finite python number."""
    key = (type(x), x)
    r = _const_cache.get(key)
    if r is None:
        if isinstance(x, bool):
            f = Fraction(int(x))
        elif isinstance(x, float) and len(repr(x)) <= 12:
            f = Fraction(repr(x))  # a literal means its decimal value (short coefficients)
        else:
            f = Fraction(x)
        r = z3.RealVal(f"{f.numerator}/{f.denominator}")
        _const_cache[key] = r
    return r


def is_sym(x: Any) -> bool:
    return isinstance(x, (SymReal, SymBool))


def _lift(x: Any) -> Any:
    """z3 term for x, or None when x is not a finite number."""
    if type(x) is SymReal or isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, const(1), const(0))
    if isinstance(x, (int, float, Fraction)):
        if isinstance(x, float) and (x != x or x in (INF, -INF)):
            return None
        return const(x)
    return None


def _is_special(x: Any) -> bool:
    return type(x) is float and (x != x or x in (INF, -INF))


def _num(v: Any) -> "Fraction | None":
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


def _exact_float(f: Fraction) -> float:
    return f.numerator / f.denominator


def mk(e: Any) -> Any:
    return SymReal(e)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e: Any) -> None:
        self.e = e

    def __bool__(self) -> bool:
        return cur().decide(self.e)

    def __and__(self, o: Any) -> Any:
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.e, o.e))
        return self if o else False

    __rand__ = __and__

    def __or__(self, o: Any) -> Any:
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.e, o.e))
        return True if o else self

    __ror__ = __or__

    def __xor__(self, o: Any) -> Any:
        return SymBool(z3.Xor(self.e, blift(o)))

    __rxor__ = __xor__

    def __invert__(self) -> Any:
        return SymBool(z3.Not(self.e))

    def __eq__(self, o: Any) -> Any:
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else SymBool(z3.Not(self.e))
        return NotImplemented

    def __ne__(self, o: Any) -> Any:
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(z3.Not(r.e))

    def __hash__(self) -> int:
        return 7

    def __deepcopy__(self, memo: Any) -> Any:
        return self

    def __copy__(self) -> Any:
        return self

    def __repr__(self) -> str:
        return f"<symbool {str(self.e)[:40]}>"


def blift(b: Any) -> Any:
    if isinstance(b, SymBool):
        return b.e
    return z3.BoolVal(bool(b))


class SymReal(float):
    """A symbolic real.  The float payload is NaN so leaks into C are visible."""

    __slots__ = ("e",)

    def __new__(cls, e: Any) -> "SymReal":
        self = float.__new__(cls, math.nan)
        self.e = e
        return self

    # -- arithmetic
    def __add__(self, o: Any) -> Any:
        if _is_special(o):
            return o
        b = _lift(o)
        if b is None:
            return NotImplemented
        if type(o) in (int, float) and o == 0:
            return self
        return SymReal(self.e + b)

    __radd__ = __add__

    def __sub__(self, o: Any) -> Any:
        if _is_special(o):
            return -o
        b = _lift(o)
        if b is None:
            return NotImplemented
        if type(o) in (int, float) and o == 0:
            return self
        return SymReal(self.e - b)

    def __rsub__(self, o: Any) -> Any:
        if _is_special(o):
            return o
        b = _lift(o)
        if b is None:
            return NotImplemented
        return SymReal(b - self.e)

    def __mul__(self, o: Any) -> Any:
        if _is_special(o):
            if o != o:
                return o
            if self == 0:
                return math.nan
            return o if self > 0 else -o
        b = _lift(o)
        if b is None:
            return NotImplemented
        if type(o) in (int, float):
            if o == 1:
                return self
            if o == 0:
                return 0.0
        else:
            # (n / d) * (k * d) is k * n
            for q, other in ((self.e, b), (b, self.e)):
                if z3.is_div(q):
                    k = _ratio(other, q.arg(1))
                    if k is not None:
                        return SymReal(q.arg(0) * const(k))
        return SymReal(self.e * b)

    __rmul__ = __mul__

    def __truediv__(self, o: Any) -> Any:
        if _is_special(o):
            return math.nan if o != o else 0.0
        b = _lift(o)
        if b is None:
            return NotImplemented
        if is_sym(o):
            if cur().decide(b == const(0)):
                raise ZeroDivisionError("float division by zero")
            k = _ratio(self.e, b)
            if k is not None:
                return SymReal(const(k))
        elif o == 0:
            raise ZeroDivisionError("float division by zero")
        elif o == 1:
            return self
        return SymReal(self.e / b)

    def __rtruediv__(self, o: Any) -> Any:
        if self == 0:
            raise ZeroDivisionError("float division by zero")
        if _is_special(o):
            if o != o:
                return o
            return o if self > 0 else -o
        b = _lift(o)
        if b is None:
            return NotImplemented
        return SymReal(b / self.e)

    def __floordiv__(self, o: Any) -> Any:
        q = self.__truediv__(o)
        if q is NotImplemented:
            return q
        return sym_floor_real(q)

    def __rfloordiv__(self, o: Any) -> Any:
        q = self.__rtruediv__(o)
        if q is NotImplemented:
            return q
        return sym_floor_real(q)

    def __mod__(self, o: Any) -> Any:
        return self - self.__floordiv__(o) * o

    def __rmod__(self, o: Any) -> Any:
        return o - self.__rfloordiv__(o) * self

    def __divmod__(self, o: Any) -> Any:
        q = self.__floordiv__(o)
        return q, self - q * o

    def __rdivmod__(self, o: Any) -> Any:
        q = self.__rfloordiv__(o)
        return q, o - q * self

    def __pow__(self, o: Any, mod: Any = None) -> Any:
        if isinstance(o, (int, float)) and not is_sym(o):
            if o == 0:
                return 1.0
            if o == 0.5:
                return sym_sqrt(self)
            if o == -0.5:
                return 1.0 / sym_sqrt(self)
            if o == int(o) and abs(o) <= 6:
                r = self
                for _ in range(int(abs(o)) - 1):
                    r = r * self
                return r if o > 0 else 1.0 / r
        raise EngineError(f"unsupported power {o!r}")

    def __rpow__(self, o: Any, mod: Any = None) -> Any:
        raise EngineError("symbolic exponent")

    def __neg__(self) -> Any:
        return SymReal(-self.e)

    def __pos__(self) -> Any:
        return self

    def __abs__(self) -> Any:
        # fork: keeps terms linear and if-free
        if CUR is not None and CUR.active and CUR.trig is not None and not CUR.trig.has_angle(self.e):
            return CUR.trig.absolute(self)
        return self if self >= 0 else SymReal(-self.e)

    # -- comparison
    def _cmp(self, o: Any, op: str) -> Any:
        if _is_special(o):
            if o != o:
                return op == "ne"
            big = o > 0
            return {
                "lt": big, "le": big, "gt": not big, "ge": not big,
                "eq": False, "ne": True,
            }[op]
        b = _lift(o)
        if b is None:
            return NotImplemented
        a = self.e
        if op == "lt":
            return SymBool(a < b)
        if op == "le":
            return SymBool(a <= b)
        if op == "gt":
            return SymBool(a > b)
        if op == "ge":
            return SymBool(a >= b)
        if op == "eq":
            return SymBool(a == b)
        return SymBool(a != b)

    def __lt__(self, o: Any) -> Any:
        return self._cmp(o, "lt")

    def __le__(self, o: Any) -> Any:
        return self._cmp(o, "le")

    def __gt__(self, o: Any) -> Any:
        return self._cmp(o, "gt")

    def __ge__(self, o: Any) -> Any:
        return self._cmp(o, "ge")

    def __eq__(self, o: Any) -> Any:
        if o is self:
            return True
        return self._cmp(o, "eq")

    def __ne__(self, o: Any) -> Any:
        if o is self:
            return False
        return self._cmp(o, "ne")

    def __hash__(self) -> int:
        return 11

    def __bool__(self) -> bool:
        return cur().decide(self.e != const(0))

    # -- conversions
    def __float__(self) -> float:
        raise EngineError("symbolic value forced to a concrete float")

    def __int__(self) -> int:
        return cur().enum_int(self.e, trunc=True)

    def __trunc__(self) -> int:
        return cur().enum_int(self.e, trunc=True)

    def __floor__(self) -> int:
        return cur().enum_int(self.e, trunc=False)

    def __ceil__(self) -> int:
        return -cur().enum_int(-self.e, trunc=False)

    def __round__(self, n: Any = None) -> Any:
        if n is None:
            # banker's rounding differs from this only at exact halves
            f = cur().enum_int(self.e + const(0.5), trunc=False)
            if cur().decide(self.e + const(0.5) == const(f)) and f % 2 == 1:
                return f - 1
            return f
        return self  # rounding to n digits: identity over the reals (assumption)

    def is_integer(self) -> bool:
        f = cur().enum_int(self.e, trunc=False)
        return cur().decide(self.e == const(f))

    def conjugate(self) -> Any:
        return self

    @property
    def real(self) -> Any:
        return self

    @property
    def imag(self) -> Any:
        return 0.0

    def as_integer_ratio(self) -> Any:
        raise EngineError("as_integer_ratio of symbolic")

    def hex(self) -> str:
        return "<sym>"

    def __deepcopy__(self, memo: Any) -> Any:
        return self

    def __copy__(self) -> Any:
        return self

    def __reduce_ex__(self, proto: Any) -> Any:
        raise EngineError("pickle of symbolic")

    def __format__(self, spec: str) -> str:
        return "<sym>"

    def __repr__(self) -> str:
        return "<sym>"

    __str__ = __repr__


# ------------------------------------------------------------- math models


def _poly(ex: Any) -> "dict[tuple[int, ...], Fraction] | None":
    """A sum of monomials as {sorted atom ids: coefficient}, and the atoms."""
    poly: dict[tuple[int, ...], Fraction] = {}
    atoms: dict[int, Any] = {}
    for term in ex.children() if z3.is_add(ex) else [ex]:
        coef, mono = Fraction(1), []
        todo = [term]
        while todo:
            a = todo.pop()
            n = _num(a)
            if n is not None:
                coef *= n
            elif z3.is_mul(a):
                todo += a.children()
            elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_POWER:
                k = _num(a.arg(1))
                if k is None or k.denominator != 1 or not 0 < k.numerator <= 8:
                    return None
                todo += [a.arg(0)] * k.numerator
            elif z3.is_add(a):
                return None
            else:
                atoms[a.get_id()] = a
                mono.append(a.get_id())
        key = tuple(sorted(mono))
        poly[key] = poly.get(key, Fraction(0)) + coef
    return {k: v for k, v in poly.items() if v}, atoms  # type: ignore [return-value]


def _normal(e: Any) -> Any:
    memo = cur().memo
    key = ("poly", e.get_id())
    hit = memo.get(key)
    if hit is None:
        hit = memo[key] = (_poly(z3.simplify(e, som=True)), e)
    return hit[0]


def _ratio(a: Any, b: Any) -> "Fraction | None":
    """The number k with a == k * b as polynomials, or None."""
    if a.eq(b):
        return Fraction(1)
    if z3.is_div(a) or z3.is_div(b):
        return None
    p, q = _normal(a), _normal(b)
    if p is None or q is None:
        return None
    p, q = p[0], q[0]
    if not p or p.keys() != q.keys():
        return None
    ks = {p[m] / q[m] for m in p}
    return ks.pop() if len(ks) == 1 else None


def _frac_sqrt(q: Fraction) -> "Fraction | None":
    if q < 0:
        return None
    num, den = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if num * num != q.numerator or den * den != q.denominator:
        return None
    return Fraction(num, den)


def _square_of(ex: Any) -> Any:
    """A term whose square is the polynomial `ex` (a sum of monomials), or None."""
    got = _poly(ex)
    if got is None:
        return None
    poly, atoms = got  # type: ignore [misc]
    if not poly or len(poly) > 60:
        return None
    order = sorted(atoms)

    def vec(mono: Any) -> tuple[int, ...]:
        return tuple(mono.count(a) for a in order)

    rest: dict[Any, Fraction] = {vec(k): v for k, v in poly.items()}
    lead = max(rest)
    c0 = _frac_sqrt(rest[lead])
    if c0 is None or any(k % 2 for k in lead):
        return None
    m0 = tuple(k // 2 for k in lead)
    root: dict[Any, Fraction] = {}

    def add(mono: Any, c: Fraction) -> None:
        # rest -= (root + c*mono)^2 - root^2
        for m, d in [*((m, 2 * c * d) for m, d in root.items()), (mono, c * c)]:
            key = tuple(a + b for a, b in zip(m, mono))
            v = rest.get(key, Fraction(0)) - d
            if v:
                rest[key] = v
            else:
                rest.pop(key, None)
        root[mono] = c

    add(m0, c0)
    while rest:
        lead = max(rest)
        mono = tuple(a - b for a, b in zip(lead, m0))
        if min(mono, default=0) < 0 or mono in root or len(root) > 12:
            return None
        add(mono, rest[lead] / (2 * c0))
    out: Any = None
    for mono, c in root.items():
        t = const(c)
        for a, k in zip(order, mono):
            for _ in range(k):
                t = t * atoms[a]
        out = t if out is None else out + t
    return z3.simplify(out)


def sym_sqrt(x: Any) -> Any:
    if not is_sym(x):
        return _real_math["sqrt"](x)
    eng = cur()
    if eng.trig is not None:
        return eng.trig.sqrt(x)
    ex = z3.simplify(x.e, som=True)
    n = _num(ex)
    if n is not None:
        return _real_math["sqrt"](_exact_float(n))
    sq = _square_of(ex)
    if sq is not None:
        return abs(SymReal(sq))
    if eng.decide(x.e < const(0)):
        raise ValueError("math domain error")
    key = ("sqrt", ex.get_id())
    hit = eng.memo.get(key)
    if hit is not None:
        return hit[0]
    r = eng.fresh("sqrt")
    eng.define(z3.And(r >= const(0), r * r == x.e))
    res = SymReal(r)
    eng.memo[key] = (res, ex)
    return res


def sym_floor_real(x: Any) -> Any:
    if not is_sym(x):
        return float(_real_math["floor"](x))
    f = cur().enum_int(x.e, trunc=False)
    return float(f)


def sym_floor(x: Any) -> Any:
    if is_sym(x):
        return x.__floor__()
    return _real_math["floor"](x)


def sym_ceil(x: Any) -> Any:
    if is_sym(x):
        return x.__ceil__()
    return _real_math["ceil"](x)


def sym_fabs(x: Any) -> Any:
    return abs(x) if is_sym(x) else _real_math["fabs"](x)


def sym_hypot(*xs: Any) -> Any:
    if any(is_sym(x) for x in xs):
        t: Any = 0.0
        for x in xs:
            t = t + x * x
        return sym_sqrt(t)
    return _real_math["hypot"](*xs)


def sym_dist(p: Any, q: Any) -> Any:
    p, q = list(p), list(q)
    if any(is_sym(x) for x in p + q):
        return sym_hypot(*[a - b for a, b in zip(p, q, strict=True)])
    return _real_math["dist"](p, q)


def sym_isclose(a: Any, b: Any, *, rel_tol: float = 1e-9, abs_tol: float = 0.0) -> Any:
    """Over the reals closeness is modelled as equality (stated assumption)."""
    if is_sym(a) or is_sym(b):
        d = a - b
        if not is_sym(d):
            return False
        if abs_tol:
            return bool(abs(d) <= abs_tol)
        return bool(a == b)
    return _real_math["isclose"](a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def sym_fsum(xs: Any) -> Any:
    xs = list(xs)
    if any(is_sym(x) for x in xs):
        t: Any = 0.0
        for x in xs:
            t = t + x
        return t
    return _real_math["fsum"](xs)


def sym_prod(xs: Any, *, start: Any = 1) -> Any:
    t = start
    for x in xs:
        t = t * x
    return t


def sym_pow(x: Any, y: Any) -> Any:
    return x**y if is_sym(x) or is_sym(y) else _real_math["pow"](x, y)


def sym_copysign(x: Any, y: Any) -> Any:
    if is_sym(x) or is_sym(y):
        m = abs(x)
        return m if y >= 0 else -m
    return _real_math["copysign"](x, y)


def sym_isnan(x: Any) -> Any:
    return False if is_sym(x) else _real_math["isnan"](x)


def sym_isinf(x: Any) -> Any:
    return False if is_sym(x) else _real_math["isinf"](x)


def sym_isfinite(x: Any) -> Any:
    return True if is_sym(x) else _real_math["isfinite"](x)


def sym_trunc(x: Any) -> Any:
    return x.__trunc__() if is_sym(x) else _real_math["trunc"](x)


def sym_fmod(x: Any, y: Any) -> Any:
    if is_sym(x) or is_sym(y):
        q = x / y
        n = q.__trunc__() if is_sym(q) else _real_math["trunc"](q)
        return x - n * y
    return _real_math["fmod"](x, y)


def sym_modf(x: Any) -> Any:
    if is_sym(x):
        n = float(x.__trunc__())
        return (x - n, n)
    return _real_math["modf"](x)


def _uf(name: str):
    def f(*xs: Any) -> Any:
        if any(is_sym(x) for x in xs):
            h = cur().trig
            if h is None or not hasattr(h, name):
                raise EngineError(f"math.{name} of a symbolic value")
            return getattr(h, name)(*xs)
        r = _real_math[name](*xs)
        if CUR is not None and CUR.active and CUR.trig is not None and abs(r - round(r)) < 1e-15:
            return float(round(r))  # quarter turns are exact
        return r

    f.__name__ = name
    return f


def sym_radians(x: Any) -> Any:
    return x * math.pi / 180 if is_sym(x) else _real_math["radians"](x)


def sym_degrees(x: Any) -> Any:
    return x * 180 / math.pi if is_sym(x) else _real_math["degrees"](x)


_real_math: dict[str, Any] = {k: getattr(math, k) for k in dir(math) if not k.startswith("__")}

MATH_MODELS: dict[str, Any] = {
    "sqrt": sym_sqrt, "floor": sym_floor, "ceil": sym_ceil, "fabs": sym_fabs,
    "hypot": sym_hypot, "dist": sym_dist, "isclose": sym_isclose, "fsum": sym_fsum,
    "prod": sym_prod, "pow": sym_pow, "copysign": sym_copysign, "isnan": sym_isnan,
    "isinf": sym_isinf, "isfinite": sym_isfinite, "trunc": sym_trunc,
    "fmod": sym_fmod, "modf": sym_modf, "radians": sym_radians, "degrees": sym_degrees,
}
for _n in ("sin", "cos", "tan", "asin", "acos", "atan", "atan2",
           "exp", "log", "log10", "log2"):
    MATH_MODELS[_n] = _uf(_n)


def patch_math() -> None:
    for k, v in MATH_MODELS.items():
        setattr(math, k, v)
    real_gmtime = time.gmtime

    def sym_gmtime(secs: Any = None) -> Any:
        return real_gmtime(secs.__floor__() if is_sym(secs) else secs)

    time.gmtime = sym_gmtime  # type: ignore [assignment]


class _FloatMeta(type):
    def __call__(cls, x: Any = 0.0) -> Any:
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymBool):
            return SymReal(_lift(x))
        return float(x)

    def __instancecheck__(cls, o: Any) -> bool:
        return isinstance(o, float)

    def __subclasscheck__(cls, o: Any) -> bool:
        return issubclass(o, float)

    def __or__(cls, o: Any) -> Any:
        return float | o

    def __ror__(cls, o: Any) -> Any:
        return o | float

    def __eq__(cls, o: Any) -> bool:
        return o is cls or o is float

    def __hash__(cls) -> int:
        return hash(float)

    def __getattr__(cls, n: str) -> Any:
        return getattr(float, n)


class FloatShim(metaclass=_FloatMeta):
    """Stands for the name `float` in the modules under test."""


# ---------------------------------------------------------------- the engine


class Dec:
    __slots__ = ("kind", "e", "val", "alt", "alt_model", "framed", "data")

    def __init__(self, kind: str, e: Any, val: Any, alt: bool, alt_model: Any,
                 framed: bool, data: Any = None) -> None:
        self.kind, self.e, self.val = kind, e, val
        self.alt, self.alt_model, self.framed = alt, alt_model, framed
        self.data = data


class Stats:
    def __init__(self) -> None:
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.forks = 0
        self.queries = 0
        self.checks = 0
        self.solver_s = 0.0
        self.unknown_branch = 0
        self.implied = 0
        self.max_depth = 0

    def as_dict(self) -> dict[str, Any]:
        return dict(self.__dict__)


class Engine:
    def __init__(self, query_ms: int = 8000, path_s: float = 90.0,
                 max_decisions: int = 20000) -> None:
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.solver.set("random_seed", 1)
        self.query_ms = query_ms
        self.path_s = path_s
        self.max_decisions = max_decisions
        self.stats = Stats()
        self.trail: list[Dec] = []
        self.pos = 0
        self.active = False
        self.abort: BaseException | None = None
        self.model: Any = None
        self.model_ok = False
        self.trig: Any = None
        self.names: dict[str, int] = {}
        self.memo: dict[Any, Any] = {}
        self.replaying_upto = 0
        self.depth = 0

    # -- solver helpers
    def _check(self) -> Any:
        t = time.perf_counter()
        r = self.solver.check()
        if r == z3.unknown:
            r2, m = self._fresh_check()
            self.stats.solver_s += time.perf_counter() - t
            self.stats.queries += 1
            self._fm = m
            return r2
        self._fm = None
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        return r

    def _fresh_check(self) -> Any:
        """Second opinion with the nonlinear tactic when the core says unknown."""
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", self.query_ms)
        s.add(self.solver.assertions())
        r = s.check()
        return r, (s.model() if r == z3.sat else None)

    def _model(self) -> Any:
        return self._fm if self._fm is not None else self.solver.model()

    def _ev(self, e: Any) -> Any:
        if not self.model_ok:
            return None
        v = self.model.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def query(self, e: Any) -> tuple[Any, Any]:
        self.solver.push()
        self.solver.add(e)
        r = self._check()
        m = self._model() if r == z3.sat else None
        self.solver.pop()
        return r, m

    def stop(self, exc: BaseException) -> None:
        if self.abort is None:
            self.abort = exc
        raise self.abort

    # -- variables
    def fresh(self, name: str) -> Any:
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return z3.Real(f"{name}!{n}" if n else name + "!0")

    # -- decisions
    def decide(self, e: Any) -> bool:
        if self.trig is None:
            return self._decide(e)
        b = self.trig._edge(e)
        e = self.trig.simp(e)
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        if b is None:
            b = self.trig.boundary(e)
        if b is not None:
            self.assume(e if b else z3.Not(e))
            return b
        r = self._decide(e)
        self.trig.fact(e if r else z3.Not(e))
        return r

    def _decide(self, e: Any) -> bool:
        if self.abort is not None:
            raise self.abort
        if not self.active:
            raise EngineError("decision outside a path")
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.stats.decisions += 1
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != "d" or not d.e.eq(e):
                self.stop(EngineError(f"non-deterministic re-execution: {d.kind} {d.e} vs {e}"))
            self.pos += 1
            if d.framed:
                self.depth += 1
            return d.val
        if len(self.trail) > self.max_decisions:
            self.stop(PathTimeout("decision limit"))
        known = self._ev(e) if self.trig is None else None
        ne = z3.Not(e)
        if known is None:
            if self.trig is None:
                rt, mt = self.query(e)
                rf, mf = self.query(ne)
            else:
                rt, rf, mt, mf = self.trig.feasible(e), z3.sat, None, None
                if rt != z3.unsat:
                    rf = self.trig.feasible(ne)
            if rt == z3.unsat and rf == z3.unsat:
                self.stop(PathInfeasible())
            t_ok, f_ok = rt != z3.unsat, rf != z3.unsat
            if rt == z3.unknown or rf == z3.unknown:
                self.stats.unknown_branch += 1
            if t_ok:
                val, m, mo = True, mt, rt == z3.sat
                alt, am = f_ok, mf
            else:
                val, m, mo = False, mf, rf == z3.sat
                alt, am = False, None
            self.model, self.model_ok = m, mo and m is not None
        else:
            ro, mo_ = self.query(ne if known else e)
            val = known
            alt = ro != z3.unsat
            am = mo_
            if ro == z3.unknown:
                self.stats.unknown_branch += 1
        d = Dec("d", e, val, alt, am, alt)
        self.trail.append(d)
        self.pos += 1
        if alt:
            self.stats.forks += 1
            self.depth += 1
            self.stats.max_depth = max(self.stats.max_depth, self.depth)
            self.solver.push()
            self.solver.add(e if val else ne)
        else:
            self.stats.implied += 1
        return val

    def assume(self, e: Any) -> None:
        if self.abort is not None:
            raise self.abort
        if z3.is_true(e):
            return
        if self.trig is not None:
            if not self.trig.defining:
                e = self.trig.simp(e)
                if z3.is_true(e):
                    return
            self.trig.fact(e)
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != "a" or not d.e.eq(e):
                self.stop(EngineError("non-deterministic re-execution (assume)"))
            self.pos += 1
            return
        self.trail.append(Dec("a", e, True, False, None, False))
        self.pos += 1
        self.solver.add(e)
        if self.trig is not None:
            self.model_ok = False
            if not self.trig.defining and not self.trig.ok.any() and self.trig.sat() == z3.unsat:
                self.stop(PathInfeasible())
        elif self._ev(e) is not True:
            r = self._check()
            if r == z3.unsat:
                self.stop(PathInfeasible())
            self.model_ok = r == z3.sat
            self.model = self._model() if self.model_ok else None

    define = assume

    def enum_int(self, e: Any, trunc: bool) -> int:
        """Fork over the feasible integer parts of a real term."""
        if trunc and self.decide(e < const(0)):
            return -self.enum_int(-e, trunc=False)
        se = z3.simplify(e)
        n = _num(se)
        if n is not None:
            return _real_math["floor"](n)
        if self.trig is not None:
            return self.trig.floor(e)
        # candidates in deterministic order, taken from the recorded trail
        tries = 0
        while True:
            if self.pos < len(self.trail):
                d = self.trail[self.pos]
                k = d.data
                if k is None:
                    self.stop(EngineError("non-deterministic re-execution (int)"))
            else:
                if not self.model_ok:
                    r = self._check()
                    if r != z3.sat:
                        self.stop(EngineError("cannot enumerate an integer"))
                    self.model, self.model_ok = self._model(), True
                v = self.model.eval(e, model_completion=True)
                f = _num(v)
                if f is None:
                    v = v.approx(20)
                    f = _num(v)
                k = _real_math["floor"](f)
            got = self.decide(z3.And(e >= const(k), e < const(k + 1)))
            self.trail[self.pos - 1].data = k
            if got:
                return k
            tries += 1
            if tries > 64:
                self.stop(EngineError("integer range too large to enumerate"))

    # -- exploration
    def backtrack(self) -> bool:
        """Flip the deepest open decision; False when the tree is exhausted."""
        while self.trail:
            d = self.trail[-1]
            if d.kind == "d" and d.alt:
                self.solver.pop()
                self.solver.push()
                d.val = not d.val
                d.alt = False
                self.solver.add(d.e if d.val else z3.Not(d.e))
                self.model = d.alt_model
                self.model_ok = d.alt_model is not None
                d.alt_model = None
                d.framed = True
                self.replaying_upto = len(self.trail)
                return True
            if d.framed:
                self.solver.pop()
            self.trail.pop()
        return False

    def run_path(self, fn: Any) -> BaseException | None:
        """Execute fn once along the current trail. Returns the exception, if any."""
        global CUR
        CUR = self
        self.pos = 0
        self.depth = 0
        self.names = {}
        self.memo = {}
        self.trig = None
        self.abort = None
        self.active = True

        def on_alarm(sig: int, frm: Any) -> None:
            if self.active:
                if self.abort is None:
                    self.abort = PathTimeout("path time limit")
                raise self.abort

        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.path_s, 2.0)
        exc: BaseException | None = None
        try:
            fn()
        except SymexStop as e:
            exc = e
        except Exception as e:  # noqa: BLE001
            exc = e
        except BaseException as e:  # noqa: BLE001
            exc = e
        finally:
            self.active = False
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        if self.abort is not None:
            exc = self.abort
        if exc is None and self.pos < len(self.trail):
            exc = EngineError("non-deterministic re-execution: path ended early")
        return exc
