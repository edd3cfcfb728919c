"""Symbolic executor for the real multisim code (operator overloading + z3).

A *scenario* is an ordinary Python function ``scen(env)`` which calls the real
functions/methods of /repo.  It is run in two modes:

* symbolic: ``env.real(...)`` returns z3-backed symbols.  Every Python branch
  on a symbolic condition forks the execution (depth first, re-execution), and
  every ``env.check(...)`` becomes a solver query `path /\\ axioms /\\ not(cond)`.
* concrete: the same function runs on plain floats taken from a solver model,
  on the untouched code.  This is the replay which has to confirm a
  counterexample before anything is reported.

Large sub-terms are *cut*: replaced by a fresh variable whose definition is
recorded.  A query is first posed without those definitions (an
over-approximation: `unsat` is a proof), and re-posed with them when `sat`.
"""
import math
import os
import sys
import time
from fractions import Fraction

import numpy as np
import z3

CUR = None  # current symbolic context


class Infeasible(BaseException):
    """Path cannot be continued (assumption violated)."""


class PathBudget(Exception):
    pass


class EngineError(Exception):
    pass


_frac_memo = {}


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    r = _frac_memo.get(x)
    if r is None:
        if math.isnan(x) or math.isinf(x):
            raise EngineError('non-finite constant %r in symbolic term' % x)
        # decimal reading of the literal (0.1 means 1/10): floats = reals
        r = Fraction(repr(x))
        _frac_memo[x] = r
    return r


_rv_memo = {}


def rv(x):
    f = frac(x)
    r = _rv_memo.get(f)
    if r is None:
        r = z3.RealVal(str(f.numerator)) if f.denominator == 1 else z3.Q(
            f.numerator, f.denominator)
        _rv_memo[f] = r
    return r


def is_num(x):
    return isinstance(
        x, (int, float, Fraction, np.integer, np.floating, bool, np.bool_)
    )


def _isinf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


class SymB:
    """Symbolic boolean."""

    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e)

    def __and__(self, o):
        return mkb(z3.And(self.e, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkb(z3.Or(self.e, bexpr(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkb(z3.Not(self.e))

    def __xor__(self, o):
        return mkb(z3.Xor(self.e, bexpr(o)))

    __rxor__ = __xor__

    # arithmetic on booleans (numpy semantics: True == 1)
    def _r(self):
        return mk(z3.If(self.e, rv(1), rv(0)))

    def __add__(self, o):
        return self._r() + (o._r() if isinstance(o, SymB) else o)

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, SymB):
            return self & o
        return ite(self, o, 0.0)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._r() - (o._r() if isinstance(o, SymB) else o)

    def __rsub__(self, o):
        return o - self._r()

    def __eq__(self, o):
        if isinstance(o, SymB) or isinstance(o, (bool, np.bool_)):
            return mkb(self.e == bexpr(o))
        return self._r() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __hash__(self):
        return hash(self.e.get_id())

    def logical_not(self):
        return mkb(z3.Not(self.e))

    def __repr__(self):
        return 'SymB(%s)' % str(self.e)[:80]


def bexpr(o):
    if isinstance(o, SymB):
        return o.e
    if isinstance(o, (bool, np.bool_)):
        return z3.BoolVal(bool(o))
    if isinstance(o, Sym):
        return o.e != 0
    if is_num(o):
        return z3.BoolVal(bool(o))
    raise EngineError('not a boolean: %r' % (o,))


def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymB(e)


def not_(x):
    if isinstance(x, SymB):
        return mkb(z3.Not(x.e))
    return not x


def and_(*xs):
    xs = list(xs[0]) if len(xs) == 1 and not isinstance(
        xs[0], (SymB, bool, np.bool_)) else list(xs)
    es = [bexpr(x) for x in xs]
    return mkb(z3.And(es)) if es else True


def or_(*xs):
    xs = list(xs[0]) if len(xs) == 1 and not isinstance(
        xs[0], (SymB, bool, np.bool_)) else list(xs)
    es = [bexpr(x) for x in xs]
    return mkb(z3.Or(es)) if es else False


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if not isinstance(c, SymB):
        return a if c else b
    if isinstance(a, (SymB, bool, np.bool_)) and isinstance(
            b, (SymB, bool, np.bool_)):
        return mkb(z3.If(c.e, bexpr(a), bexpr(b)))
    ae, be = expr(a), expr(b)
    if ae.eq(be):
        return a
    return mk(z3.If(c.e, ae, be))


def mk(e):
    """z3 term -> Sym or python number."""
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        f = e.as_fraction()
        if f.denominator == 1 and abs(f.numerator) < 2 ** 53:
            return float(f.numerator)
        return float(f) if frac(float(f)) == f else Sym(e)
    return Sym(e)


def expr(x):
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, SymB):
        return z3.If(x.e, rv(1), rv(0))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return expr(x.item())
    if isinstance(x, np.ndarray) and x.size == 1:
        return expr(x.flat[0])
    return rv(x)


def const_of(x):
    """Fraction if x is a concrete number, else None."""
    if isinstance(x, Sym):
        if z3.is_rational_value(x.e):
            return x.e.as_fraction()
        return None
    if isinstance(x, SymB):
        return None
    return frac(x)


def is_atom(e):
    return z3.is_const(e)


def _bcast(arr, f):
    from . import symarr
    return symarr.apply_el(f, arr)


class Sym:
    """Symbolic real."""

    __slots__ = ('e', 'nt')
    __array_priority__ = 1000

    def __init__(self, e, nt=None):
        self.e = e
        self.nt = nt

    def __hash__(self):
        return hash(self.e.get_id())

    def __repr__(self):
        return 'Sym(%s)' % str(self.e)[:80]

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return _bcast(o, lambda x: self + x)
        c = None if isinstance(o, (Sym, SymB)) else o
        if c is not None:
            if _isinf(c):
                return float(c)
            if frac(c) == 0:
                return self
        return mk(self.e + expr(o))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return _bcast(o, lambda x: self - x)
        if not isinstance(o, (Sym, SymB)) and not _isinf(o) and frac(o) == 0:
            return self
        return mk(self.e - expr(o))

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return _bcast(o, lambda x: x - self)
        return mk(expr(o) - self.e)

    def __neg__(self):
        return mk(-self.e)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return _bcast(o, lambda x: self * x)
        return CUR.mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return _bcast(o, lambda x: self / x)
        return CUR.div(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return _bcast(o, lambda x: x / self)
        return CUR.div(o, self)

    def __pow__(self, p):
        if isinstance(p, np.ndarray):
            return _bcast(p, lambda x: self ** x)
        return CUR.power(self, p)

    def __rpow__(self, b):
        return CUR.power(b, self)

    def __floordiv__(self, o):
        return floor(self / o)

    def __rfloordiv__(self, o):
        return floor(o / self)

    def __mod__(self, o):
        return self - o * floor(self / o)

    def __rmod__(self, o):
        return o - self * floor(o / self)

    def __divmod__(self, o):
        q = floor(self / o)
        return q, self - o * q

    def __abs__(self):
        return CUR.absval(self)

    def __floor__(self):
        return floor(self)

    def __round__(self, n=None):
        if n is None:  # half to even, as Python does
            k = CUR.concretize_int(floor(self + 0.5))
            if k % 2 and self + 0.5 == k:
                k -= 1
            return k
        return self  # rounding to n digits: identity over the reals

    def __trunc__(self):
        return int(self)

    def __int__(self):
        return CUR.concretize_int(self)

    def __index__(self):
        raise TypeError('symbolic real used as index')

    def __float__(self):
        raise EngineError('float() of a symbolic value')

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return _bcast(o, lambda x: self._cmp(x, op))
        if isinstance(o, (str, type(None))):
            return NotImplemented
        if _isinf(o):
            pos = o > 0
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos,
                    '==': False, '!=': True}[op]
        if isinstance(o, (float, np.floating)) and math.isnan(o):
            return op == '!='
        a, b = self.e, expr(o)
        if op == '<':
            return mkb(a < b)
        if op == '<=':
            return mkb(a <= b)
        if op == '>':
            return mkb(a > b)
        if op == '>=':
            return mkb(a >= b)
        if op == '==':
            return mkb(a == b)
        return mkb(a != b)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __bool__(self):
        return CUR.branch(z3.simplify(self.e != 0))

    # -- numpy object-dtype hooks
    def sqrt(self):
        return CUR.power(self, 0.5)

    def exp(self):
        return CUR.uf('exp', self)

    def log(self):
        return CUR.uf('log', self)

    def conjugate(self):
        return self

    def absolute(self):
        return abs(self)

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def is_integer(self):
        return mkb(z3.ToReal(z3.ToInt(self.e)) == self.e)


def floor(x):
    if isinstance(x, Sym):
        return mk(z3.ToReal(z3.ToInt(x.e)))
    return math.floor(x)


def smax(a, b):
    return CUR.extremum([a, b], True)


def smin(a, b):
    return CUR.extremum([a, b], False)


def uf_axioms(name, es, v):
    I, A = z3.Implies, z3.And
    x = es[0]
    if name == 'exp':
        return [v > 0, I(x >= 0, v >= 1), I(x <= 0, v <= 1), v >= 1 + x]
    if name == 'pow':
        p = es[1]
        return [
            I(x > 0, v > 0), I(A(x == 0, p > 0), v == 0),
            I(A(x >= 1, p > 0), v >= 1),
            I(A(x > 0, x <= 1, p > 0), v <= 1),
            I(A(x >= 1, p > 0, p <= 1), v <= x),
            I(A(x > 1, p > 0, p < 1), v < x), I(A(x > 1, p > 0), v > 1),
            I(A(x > 0, x <= 1, p > 0, p <= 1), v >= x),
            I(A(x >= 1, p < 0), v <= 1),
            I(A(x > 0, x <= 1, p < 0), v >= 1),
        ]
    if name in ('log', 'log10'):
        return [I(x >= 1, v >= 0), I(A(x > 0, x <= 1), v <= 0),
                I(x > 0, v <= x - 1)] + (
                    [] if name == 'log' else
                    [I(x >= 10 ** k, v >= k) for k in (1, 2, 3, 4, 5, 6)]
                    + [I(A(x > 0, x <= 10 ** k), v <= k)
                       for k in (1, 2, 3, 4, 5, 6)])
    return []


def uf_pair(name, a, v, b, w):
    I = z3.Implies
    if name in ('exp', 'log', 'log10'):
        return [I(a[0] == b[0], v == w), I(a[0] < b[0], v < w),
                I(a[0] > b[0], v > w)] if name == 'exp' else [
                    I(a[0] == b[0], v == w)]
    if name == 'pow' and a[1].eq(b[1]) and z3.is_rational_value(a[1]):
        p = a[1].as_fraction()
        pos = z3.And(a[0] > 0, b[0] > 0)
        lo, hi = (v < w, v > w) if p > 0 else (v > w, v < w)
        return [I(a[0] == b[0], v == w), I(z3.And(pos, a[0] < b[0]), lo),
                I(z3.And(pos, a[0] > b[0]), hi)]
    if len(a) == len(b):
        return [I(z3.And([x == y for x, y in zip(a, b)]), v == w)]
    return []


def _nterms(e):
    """Rough number of monomials after expansion."""
    if not z3.is_app(e):
        return 1
    k = e.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        return sum(_nterms(c) for c in e.children())
    if k == z3.Z3_OP_MUL:
        n = 1
        for c in e.children():
            n *= _nterms(c)
            if n > 10 ** 6:
                return n
        return n
    if k == z3.Z3_OP_UMINUS:
        return _nterms(e.arg(0))
    if k == z3.Z3_OP_POWER:
        return _nterms(e.arg(0)) ** 2
    if k == z3.Z3_OP_ITE:
        return 1 + _nterms(e.arg(1)) + _nterms(e.arg(2))
    return 1


def _n_ite(e):
    """number of conditionals in the sum/product skeleton of e"""
    if not z3.is_app(e):
        return 0
    k = e.decl().kind()
    if k == z3.Z3_OP_ITE:
        return 1 + _n_ite(e.arg(1)) + _n_ite(e.arg(2))
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_SUB):
        return sum(_n_ite(c) for c in e.children())
    return 0


def _has_ite(e):
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_ITE:
            return True
        return any(_has_ite(c) for c in e.children())
    return False


class NotLin(Exception):
    pass


class Lin:
    """Monomial abstraction: terms are expanded into polynomials, every
    non-linear monomial becomes a variable of its own, products with
    conditionals are pushed into the branches."""

    LIMIT = 60000

    def __init__(self):
        self.m = {}
        self.abstracted = 0
        self.nl = False
        self.keep = []
        self.cache = {}
        self.pc = {}
        self.at = {}
        self.rend = {}
        self.work = 0
        self.lins = {}
        self.signs = False

    # -- polynomials
    def poly(self, e):
        k = e.get_id()
        r = self.pc.get(k)
        if r is None:
            r = self._poly(e)
            self.keep.append(e)
            self.pc[k] = r
        return r

    def atom(self, e):
        k = e.get_id()
        self.at[k] = e
        self.keep.append(e)
        return {(k,): Fraction(1)}

    def _padd(self, a, b, f=1):
        if len(a) < len(b) and f == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c * f
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def _pmul(self, a, b):
        self.work += len(a) * len(b)
        if self.work > self.LIMIT * 20 or len(a) * len(b) > self.LIMIT:
            raise NotLin()
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else m1 or m2
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        return r

    def _poly(self, e):
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return {(): f} if f else {}
        if z3.is_int_value(e):
            f = Fraction(e.as_long())
            return {(): f} if f else {}
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_ADD:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = self._padd(r, self.poly(c))
            return r
        if d == z3.Z3_OP_SUB:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = self._padd(r, self.poly(c), -1)
            return r
        if d == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.poly(ch[0]).items()}
        if d == z3.Z3_OP_MUL:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = self._pmul(r, self.poly(c))
            return r
        if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and \
                ch[1].as_fraction().denominator == 1 and \
                0 < ch[1].as_fraction() < 12:
            r = b = self.poly(ch[0])
            for _ in range(int(ch[1].as_fraction()) - 1):
                r = self._pmul(r, b)
            return r
        if d == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]):
            f = 1 / ch[1].as_fraction()
            return {m: c * f for m, c in self.poly(ch[0]).items()}
        return self.atom(e)

    # -- rendering
    def render(self, p):
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(rv(c))
            elif c == 1:
                ts.append(self.mono(m))
            else:
                ts.append(rv(c) * self.mono(m))
        if not ts:
            return rv(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def is_ite(self, k):
        e = self.at[k]
        return e.decl().kind() == z3.Z3_OP_ITE

    def mono(self, m):
        r = self.rend.get(m)
        if r is not None:
            return r
        it = [k for k in m if self.is_ite(k)]
        if it and len(m) - 1 + len(it) < 40 and len(it) <= 4:
            k = it[0]
            rest = list(m)
            rest.remove(k)
            e = self.at[k]
            pr = {tuple(rest): Fraction(1)}
            r = z3.If(self.tr(e.arg(0)),
                      self.render(self._pmul(self.poly(e.arg(1)), pr)),
                      self.render(self._pmul(self.poly(e.arg(2)), pr)))
        elif len(m) == 1:
            e = self.at[m[0]]
            if e.num_args() == 0:
                r = e
            else:
                d = e.decl().kind()
                if d in (z3.Z3_OP_TO_INT, z3.Z3_OP_TO_REAL,
                         z3.Z3_OP_IS_INT):
                    self.nl = True
                    r = e.decl()(*[self.tr(c) for c in e.children()])
                else:
                    r = self.var(m)
        else:
            r = self.var(m)
        self.rend[m] = r
        return r

    def var(self, m):
        v = self.m.get(m)
        if v is None:
            self.abstracted += 1
            v = z3.Real('mono!%d' % len(self.m))
            self.m[m] = v
        return v

    def lemmas(self):
        """facts about the products that the abstraction forgot: for every
        linear L met in a comparison and every cofactor m all of whose
        products with L already occur: sign rules of L*m"""
        out = []
        by = {}
        for m in list(self.m):
            for k in set(m):
                rest = list(m)
                rest.remove(k)
                by.setdefault(k, set()).add(tuple(rest))
        seen = set()
        for key, L in self.lins.items():
            if len(out) > 4000:
                break
            ks = [m[0] for m in L if m]
            if not ks or (len(ks) == 1 and () in L and not self.signs):
                continue
            cs = set(by.get(ks[0], ()))
            for k in ks[1:]:
                cs &= by.get(k, set())
            for c in cs:
                if () in L and not (c in self.m or len(c) == 1):
                    continue
                if (key, c) in seen:
                    continue
                seen.add((key, c))
                l = self.render(L)
                pr = self.render(self._pmul(L, {c: Fraction(1)}))
                out.append(z3.Implies(l == 0, pr == 0))
                m = self.mono(c)
                if len(c) == 1 and self.signs:
                    out.append(z3.Implies(z3.And(l >= 0, m >= 0), pr >= 0))
                    out.append(z3.Implies(z3.And(l <= 0, m >= 0), pr <= 0))
                    out.append(z3.Implies(z3.And(l >= 0, m <= 0), pr <= 0))
                    out.append(z3.Implies(z3.And(l <= 0, m <= 0), pr >= 0))
        return out

    # -- formulas
    def conv(self, e):
        return self.tr(e)

    def tr(self, e):
        k = e.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self._tr(e)
            self.keep.append(e)
            self.cache[k] = r
        return r

    def _tr(self, e):
        if z3.is_arith(e):
            return self.render(self.poly(e))
        d = e.decl().kind()
        ch = e.children()
        if d in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or (
                d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2
                and z3.is_arith(ch[0])):
            p = self._padd(self.poly(ch[0]), self.poly(ch[1]), -1)
            if len(p) <= 8 and all(len(m) <= 1 for m in p):
                self.lins[tuple(sorted(p.items()))] = p
            c0 = p.get((), Fraction(0))
            p = {m: c for m, c in p.items() if m}
            if not p:
                z = rv(c0)
                a, b = z, rv(0)
            else:
                a, b = self.render(p), rv(-c0)
            if d == z3.Z3_OP_LE:
                return a <= b
            if d == z3.Z3_OP_GE:
                return a >= b
            if d == z3.Z3_OP_LT:
                return a < b
            if d == z3.Z3_OP_GT:
                return a > b
            return a == b if d == z3.Z3_OP_EQ else a != b
        if not ch:
            return e
        ch = [self.tr(c) for c in ch]
        if d == z3.Z3_OP_AND:
            return z3.And(ch)
        if d == z3.Z3_OP_OR:
            return z3.Or(ch)
        if d == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch)
        if d == z3.Z3_OP_ITE:
            return z3.If(*ch)
        return e.decl()(*ch)


class Ctx:
    """One symbolic exploration of a scenario."""

    def __init__(self, opts=None):
        o = opts or {}
        self.cut_terms = o.get('cut_terms', 24)
        self.max_paths = o.get('max_paths', 4000)
        self.feas_timeout = o.get('feas_timeout', 300)
        self.q_timeout = o.get('q_timeout', 4000)
        self.q_timeout2 = o.get('q_timeout2', 15000)
        self.work = [[]]
        self.stats = dict(paths=0, queries=0, feas_queries=0, solver_s=0.0,
                          unsat=0, sat=0, unknown=0, refined=0, trivial=0,
                          infeasible=0)
        self.labels = {}
        self.failures = []
        self.seen_lines = set()
        self.reset_path([])

    # ---- path management
    def reset_path(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.pc = []
        self.axioms = []
        self.ax_of = {}
        self.defs = {}  # var id -> (var, definition)
        self.memo = {}
        self.inputs = {}
        self.decided = {}
        self.counter = {}
        self.keep = []
        self.abstracted = []
        self.exp_args = []
        self.guarded = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_timeout)

    def fresh(self, base, sort='R'):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        name = '%s!%d' % (base, n)
        return z3.Real(name) if sort == 'R' else z3.Bool(name)

    def axiom(self, e, var=None):
        """`var`: the fresh variable this axiom constrains (relevance)"""
        if var is None:
            self.axioms.append(e)
        else:
            self.ax_of.setdefault(var.get_id(), []).append(e)
            self.keep.append(var)

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats['feas_queries'] += 1
        self.stats['solver_s'] += time.time() - t
        return r

    def assume(self, c):
        e = z3.simplify(bexpr(c))
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        self.pc.append(e)
        self.solver.add(e)
        self.decided[e.get_id()] = True
        self.keep.append(e)

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.decided:
            return self.decided[k]
        ne = z3.simplify(z3.Not(e))
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            ft = self._check(e) != z3.unsat
            ff = self._check(ne) != z3.unsat
            if not ft and not ff:
                raise Infeasible()
            if ft and ff:
                if len(self.work) + self.stats['paths'] > self.max_paths:
                    raise PathBudget('more than %d paths' % self.max_paths)
                self.work.append(self.taken + [False])
                v = True
            else:
                v = ft
                # forced: no fork, but keep the index aligned
        self.taken.append(v)
        c = e if v else ne
        self.pc.append(c)
        self.solver.add(c)
        self.keep += [e, ne]
        self.decided[k] = v
        self.decided[ne.get_id()] = not v
        return v

    def concretize_int(self, x):
        """int(x): trunc toward zero, forks over the feasible values."""
        e = x.e
        ti = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
        for _ in range(200):
            if self._check() != z3.sat:
                raise EngineError('cannot concretise integer')
            v = self.solver.model().eval(ti, model_completion=True).as_long()
            if self.branch(ti == v):
                return v
        raise EngineError('integer concretisation does not terminate')

    # ---- terms
    def cut(self, x, base='c'):
        """Name a non-atomic term by a fresh variable (definition kept)."""
        e = x.e
        if is_atom(e) or z3.is_rational_value(e):
            return x
        s = z3.simplify(e, som=True, som_blowup=100000)
        if z3.is_rational_value(s) or is_atom(s):
            return mk(s)
        # factor out a numeric multiple of an atom
        k = ('cut', s.get_id())
        r = self.memo.get(k)
        if r is None:
            v = self.fresh(base)
            self.keep.append(s)
            self.keep.append(v)
            self.defs[v.get_id()] = (v, s)
            r = Sym(v)
            self.memo[k] = r
        return r

    def named(self, x):
        """the cut variable of x if there already is one"""
        if is_atom(x.e):
            return x
        k = ('nm', x.e.get_id())
        r = self.memo.get(k)
        if r is not None:
            return r
        if _nterms(x.e) < 200:
            s = z3.simplify(x.e, som=True, som_blowup=100000)
            r = self.memo.get(('cut', s.get_id()))
            if r is not None:
                self.keep.append(x.e)
                self.memo[k] = r
                return r
        return x

    def mul(self, a, b):
        if isinstance(b, SymB):
            return ite(b, a, 0.0)
        if not isinstance(b, Sym):
            c = frac(b)
            if c == 0:
                return 0.0
            if c == 1:
                return a
            return mk(a.e * rv(c))
        # quotient cancellation: (n/d)*d == n
        for x, y in ((a, b), (b, a)):
            q = self.memo.get(('quot', x.e.get_id()))
            if q is not None and q[1].get_id() == y.e.get_id():
                return mk(q[0])
        a, b = self.named(a), self.named(b)
        # push products into conditionals, so that masked flows stay linear
        for x, y in ((a, b), (b, a)):
            k = _n_ite(x.e)
            if k and k <= 6 and _nterms(y.e) <= 12:
                return self._mul_ite(x.e, y)
        na, nb_ = _nterms(a.e), _nterms(b.e)
        if na * nb_ > self.cut_terms or _has_ite(a.e) or _has_ite(b.e):
            if na > 1 or _has_ite(a.e):
                a = self.cut(a)
            if isinstance(a, Sym) and na * nb_ > self.cut_terms and nb_ > 4 or _has_ite(b.e):
                b = self.cut(b)
            if not isinstance(a, Sym) or not isinstance(b, Sym):
                return a * b
        return mk(a.e * b.e)

    def _mul_ite(self, x, y):
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_ITE:
            c = x.arg(0)
            d = self.decided.get(c.get_id())
            if d is not None:
                return self._mul_ite(x.arg(1 if d else 2), y)
            return ite(SymB(c), self._mul_ite(x.arg(1), y),
                       self._mul_ite(x.arg(2), y))
        if k in (z3.Z3_OP_ADD,) and _has_ite(x):
            r, rest = 0.0, []
            for t in x.children():
                if _has_ite(t):
                    r = r + self._mul_ite(t, y)
                else:
                    rest.append(t)
            if rest:
                r = r + self.mul(y, mk(z3.Sum(rest)))
            return r
        if k == z3.Z3_OP_MUL and x.num_args() == 2 and \
                z3.is_rational_value(x.arg(0)):
            return self._mul_ite(x.arg(1), mk(x.arg(0) * y.e)) if isinstance(
                mk(x.arg(0) * y.e), Sym) else 0.0
        v = mk(x)
        if isinstance(v, Sym) and _has_ite(v.e):
            v = self.cut(v)
        return self.mul(y, v)

    def div(self, a, b):
        if not isinstance(b, Sym):
            if isinstance(b, SymB):
                raise EngineError('division by bool')
            c = frac(b)
            if c == 0:
                raise ZeroDivisionError('symbolic / 0')
            return mk(expr(a) * rv(1 / c))
        if not isinstance(a, Sym):
            if isinstance(a, SymB):
                a = a._r()
            if _isinf(a):
                return float(a)
            if frac(a) == 0:
                self.nonzero(b)
                return 0.0
        if isinstance(a, Sym) and a.e.eq(b.e):
            self.nonzero(b)
            return 1.0
        b = self.cut(b)
        if not isinstance(b, Sym):
            return a / b
        ae = expr(a)
        s = z3.simplify(ae, som=True, som_blowup=100000) if _nterms(ae) < 200 else ae
        k = ('div', s.get_id(), b.e.get_id())
        r = self.memo.get(k)
        if r is None:
            g = self.memo.get(k + ('g',))
            if g is not None:
                # divided under a mask before: the same quotient
                if self.guarded:
                    return g
                self.axiom(b.e != 0, g.e)
                self.memo[k] = g
                return g
            q = self.fresh('q')
            if self.guarded:
                self.axiom(z3.Implies(b.e != 0, q * b.e == ae), q)
                k = k + ('g',)
            else:
                self.axiom(b.e != 0, q)
                self.axiom(q * b.e == ae, q)
            self.keep += [s, q, b.e, ae]
            r = Sym(q)
            self.memo[k] = r
            self.memo[('quot', q.get_id())] = (ae, b.e)
        return r

    def nonzero(self, b):
        if self.guarded:
            return
        e = z3.simplify(b.e != 0)
        k = ('nz', e.get_id())
        if k in self.memo:
            return
        self.memo[k] = True
        self.keep.append(e)
        self.axiom(e, b.e if is_atom(b.e) else None)
        self.abstracted.append('denominator assumed non-zero')

    def absval(self, a):
        e = a.e
        k = ('abs', e.get_id())
        r = self.memo.get(k)
        if r is None:
            if e.get_id() in self.memo.get('nonneg', ()):
                r = a
            else:
                v = self.fresh('abs')
                self.axiom(z3.And(v >= 0, v >= e, v >= -e,
                                  z3.Or(v == e, v == -e)), v)
                r = Sym(v)
            self.keep.append(e)
            self.memo[k] = r
        return r

    def extremum(self, xs, is_max):
        xs = list(xs)
        nums = [x for x in xs if not isinstance(x, (Sym, SymB))]
        syms = [x for x in xs if isinstance(x, (Sym, SymB))]
        if not syms:
            return (max if is_max else min)(nums)
        if nums:
            n = (max if is_max else min)(nums)
            if _isinf(n):
                if (n > 0) == is_max:
                    return n
                nums = []
            else:
                nums = [n]
        es = []
        ids = set()
        for x in syms + nums:
            e = expr(x)
            if not is_atom(e) and _nterms(e) < 50:
                e = z3.simplify(e, som=True, som_blowup=100000)
            if e.get_id() not in ids:
                ids.add(e.get_id())
                es.append(e)
        if len(es) == 1:
            return mk(es[0])
        k = ('max' if is_max else 'min', tuple(sorted(ids)))
        r = self.memo.get(k)
        if r is None:
            v = self.fresh('max' if is_max else 'min')
            self.keep += es
            self.axiom(z3.And(
                [(v >= e) if is_max else (v <= e) for e in es]
                + [z3.Or([v == e for e in es])]), v)
            r = Sym(v)
            self.memo[k] = r
        return r

    def power(self, b, p):
        pc = const_of(p) if not isinstance(p, SymB) else None
        if pc is None:
            return self.uf('pow', b, p)
        if not isinstance(b, Sym):
            if isinstance(b, SymB):
                b = b._r()
            else:
                return float(b) ** float(pc)
        if pc.denominator == 1:
            n = int(pc)
            if n == 0:
                return 1.0
            if n < 0:
                return 1.0 / self.power(b, Fraction(-n))
            if n == 1:
                return b
            if _nterms(b.e) > 1:
                b = self.cut(b)
                if not isinstance(b, Sym):
                    return b ** n
            e = b.e
            for _ in range(n - 1):
                e = e * b.e
            return mk(e)
        if pc == Fraction(1, 2):
            b2 = self.cut(b)
            if not isinstance(b2, Sym):
                return float(b2) ** .5
            k = ('sqrt', b2.e.get_id())
            r = self.memo.get(k)
            if r is None:
                v = self.fresh('sqrt')
                self.axiom(z3.Implies(b2.e >= 0, z3.And(v >= 0, v * v == b2.e)), v)
                self.keep += [b.e, b2.e]
                r = Sym(v)
                self.memo[k] = r
            return r
        return self.uf('pow', b, p)

    def uf(self, name, *args):
        """Transcendental function: fresh value per argument tuple, with sign
        axioms only (functional consistency by memoisation on equal terms)."""
        es = [z3.simplify(expr(a), som=True, som_blowup=100000) for a in args]
        k = (name,) + tuple(e.get_id() for e in es)
        r = self.memo.get(k)
        if r is None:
            v = self.fresh(name)
            self.keep += es
            for ax in uf_axioms(name, es, v):
                self.axiom(ax, v)
            # the same function: equal arguments, equal values (and order
            # preserved where the function is monotone)
            old = self.memo.setdefault(('uf', name), [])
            for es2, v2 in old[-8:]:
                for ax in uf_pair(name, es, v, es2, v2):
                    self.axiom(ax, v)
            old.append((es, v))
            self.abstracted.append(name)
            if name == 'exp':
                self.exp_args.append(mk(es[0]))
            r = Sym(v)
            self.memo[k] = r
        return r

    # ---- obligations
    def cone(self, goal, with_defs, with_pc):
        """constraints relevant for `goal`; leaving some out only weakens the
        hypotheses (unsat stays a proof)"""
        out, vis = [], set()
        stack = list(goal)
        if with_pc:
            stack += self.pc
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in vis:
                continue
            vis.add(i)
            for ax in self.ax_of.get(i, ()):
                out.append(ax)
                stack.append(ax)
            if with_defs and i in self.defs:
                v, d = self.defs[i]
                out.append(v == d)
                stack.append(d)
            if z3.is_app(e):
                stack.extend(e.children())
        return out

    def _solve(self, cons, timeout, lin=False):
        s = z3.SolverFor('QF_LRA') if lin else z3.Solver()
        s.set('timeout', timeout)
        s.add(*cons)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        dt = time.time() - t
        self.stats['queries'] += 1
        self.stats['solver_s'] += dt
        self.stats[str(r)] = self.stats.get(str(r), 0) + 1
        if os.environ.get('VF_DEBUG'):
            print('   query lin=%s -> %s %.2fs (%d assertions)' % (
                lin, r, dt, len(cons)), file=sys.stderr, flush=True)
        return str(r), (s.model() if r == z3.sat else None)

    def constraints(self, goal, full):
        return [goal] + list(self.pc) + list(self.axioms) + self.cone(
            [goal] + self.axioms, full, full)

    def lin_query(self, goal, full=False, timeout=5000, levels=(0,)):
        """monomial abstraction: `unsat` is a proof; `sat` is exact only when
        nothing was abstracted (third component).  levels: 0 bare, 1 with
        zero-product lemmas, 2 with sign lemmas"""
        cons = self.constraints(goal, full)
        lin = Lin()
        try:
            lc = [lin.conv(c) for c in cons]
        except NotLin:
            return 'unknown', None, False
        r, m = 'unknown', None
        for lv in levels:
            lem = []
            if lv:
                if not lin.abstracted:
                    break
                lin.signs = lv > 1
                try:
                    lem = lin.lemmas()
                except NotLin:
                    break
                if not lem:
                    continue
            r, m = self._solve(lc + lem, timeout, lin=not lin.nl)
            if r == 'unsat':
                break
        return r, m, not lin.abstracted

    def nra_query(self, goal, full=False, timeout=5000):
        return self._solve(self.constraints(goal, full), timeout)

    def query(self, goal, full=False, timeout=None):
        """goal: negated property.  full: include the definitions of the cut
        terms and of everything on the path."""
        r, m, exact = self.lin_query(goal, full, timeout or self.q_timeout)
        if r == 'unsat' or (r == 'sat' and exact):
            return r, m
        return self.nra_query(goal, full, timeout or (
            self.q_timeout2 if full else self.q_timeout))

    def model_inputs(self, model):
        out = {}
        for name, (v, lo, hi, kind) in self.inputs.items():
            m = model.eval(v, model_completion=True)
            if kind == 'B':
                out[name] = bool(z3.is_true(m))
                continue
            if z3.is_algebraic_value(m):
                m = m.approx(20)
            f = float(m.as_fraction())
            if lo is not None:
                f = max(f, float(lo))
            if hi is not None:
                f = min(f, float(hi))
            out[name] = f
        return out
