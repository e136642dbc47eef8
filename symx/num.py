"""Symbolic numbers and truth values."""
from fractions import Fraction
from math import lcm
import numbers
import re
import numpy as np
import z3
from . import poly as P
from .poly import Poly, ZERO, ONE, SPACE, Inconclusive, NotANumber
from .core import Path

FINE = 9        # rounding to this many decimals or more is below the comparison tolerance and modelled as exact
UNIT = 2        # angles and exponents are expanded over monomial/UNIT


def rat(val):
    """A concrete number as an exact rational.  Floats are read as the decimal fraction they were written as."""
    if isinstance(val, (bool, np.bool_)):
        return int(val)
    if isinstance(val, (int, np.integer)):
        return int(val)
    if isinstance(val, Fraction):
        return val.numerator if val.denominator == 1 else val
    val = float(val)
    if val != val or val in (float('inf'), float('-inf')):
        raise NotANumber('not a finite number')
    exact = Fraction(val)
    near = exact.limit_denominator(10**6)
    if exact != near and abs(exact-near) <= abs(exact)*Fraction(1, 10**15)*2:
        exact = near
    return exact.numerator if exact.denominator == 1 else exact


def isConcrete(val):
    return isinstance(val, (numbers.Number, np.number, np.bool_)) and not isinstance(val, Num)


class SymBool:
    __slots__ = ('z',)
    __array_ufunc__ = None

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return Path.current.fork(self.z)

    def _c(self, other):
        return other.z if isinstance(other, SymBool) else z3.BoolVal(bool(other))

    def __and__(self, other):
        return SymBool(z3.And(self.z, self._c(other)))
    __rand__ = __and__

    def __or__(self, other):
        return SymBool(z3.Or(self.z, self._c(other)))
    __ror__ = __or__

    def __xor__(self, other):
        return SymBool(z3.Xor(self.z, self._c(other)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __eq__(self, other):
        if isinstance(other, (SymBool, bool, np.bool_)):
            return SymBool(self.z == self._c(other))
        return NotImplemented

    def __ne__(self, other):
        if isinstance(other, (SymBool, bool, np.bool_)):
            return SymBool(self.z != self._c(other))
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __mul__(self, other):
        return int(bool(self))*other
    __rmul__ = __mul__

    def __add__(self, other):
        return int(bool(self))+other
    __radd__ = __add__

    def __rsub__(self, other):
        return other-int(bool(self))

    def __sub__(self, other):
        return int(bool(self))-other

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self


def mkBool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def cmpZero(poly, op):
    """z3 truth of (poly op 0); inverse variables are cleared first"""
    poly = P.tidy(poly)
    if poly.isConst():
        val = poly.constVal()
        return {'==': val == 0, '!=': val != 0, '<': val < 0, '<=': val <= 0, '>': val > 0, '>=': val >= 0}[op]
    num = P.clearDenominators(poly) if op in ('==', '!=') else P.clearDenominators(poly, even=True)
    if num.isConst():
        return cmpZero(num, op)
    expr = P.toZ3(num)
    zero = 0
    return {'==': lambda: expr == zero, '!=': lambda: expr != zero, '<': lambda: expr < zero,
            '<=': lambda: expr <= zero, '>': lambda: expr > zero, '>=': lambda: expr >= zero}[op]()


def _unitKey(poly):
    """the polynomial up to a positive factor"""
    coefs = [abs(Fraction(c)) for c in poly.t.values()]
    scale = min(coefs)
    return ('nonneg', poly.scale(1/scale).key())


def markNonneg(poly):
    """poly is a sum of squares"""
    if poly.t:
        SPACE.keys[_unitKey(P.tidy(poly))] = True
    return poly


def decide(poly, op):
    if op in ('>=', '<') and poly.t and _unitKey(P.tidy(poly)) in SPACE.keys:
        return op == '>='
    res = cmpZero(poly, op)
    if isinstance(res, bool):
        return res
    return Path.current.fork(res)


def _onArray(other, func):
    """a number on the left of an array that holds plain machine numbers"""
    if isinstance(other, np.ndarray):
        from .arrays import mkArray, elementwise
        return elementwise(func, mkArray(other, copy=False))
    return NotImplemented


class Num:
    """re + i im; kind 0 integer, 1 real, 2 complex"""
    __slots__ = ('re', 'im', 'kind')
    __array_ufunc__ = None
    __array_priority__ = 5

    def __init__(self, re, im=ZERO, kind=1):
        self.re = re
        self.im = im
        self.kind = kind

    # ---- conversions
    @staticmethod
    def lift(val):
        if isinstance(val, Num):
            return val
        if isinstance(val, SymBool):
            return Num(Poly.const(int(bool(val))), ZERO, 0)
        if isinstance(val, np.ndarray) and val.shape == ():
            return Num.lift(val.item())
        if isinstance(val, (bool, int, np.integer, np.bool_)):
            return Num(Poly.const(int(val)), ZERO, 0)
        if isinstance(val, Fraction):
            return Num(Poly.const(val), ZERO, 1)
        if isinstance(val, (float, np.floating)):
            return Num(Poly.const(rat(val)), ZERO, 1)
        if isinstance(val, (complex, np.complexfloating)):
            return Num(Poly.const(rat(val.real)), Poly.const(rat(val.imag)), 2)
        return None

    def done(self):
        """integers that turn out constant become Python integers again"""
        if self.kind == 0 and self.re.isConst():
            return int(self.re.constVal())
        return self

    # ---- arithmetic
    def __add__(self, other):
        oth = Num.lift(other)
        if oth is None:
            return _onArray(other, lambda v: self+v)
        return Num(self.re+oth.re, self.im+oth.im, max(self.kind, oth.kind)).done()
    __radd__ = __add__

    def __neg__(self):
        return Num(-self.re, -self.im, self.kind)

    def __pos__(self):
        return self

    def __sub__(self, other):
        oth = Num.lift(other)
        if oth is None:
            return _onArray(other, lambda v: self-v)
        return Num(self.re-oth.re, self.im-oth.im, max(self.kind, oth.kind)).done()

    def __rsub__(self, other):
        oth = Num.lift(other)
        if oth is None:
            return _onArray(other, lambda v: v-self)
        return oth-self

    def __mul__(self, other):
        oth = Num.lift(other)
        if oth is None:
            return _onArray(other, lambda v: self*v)
        if not self.im.t and not oth.im.t:
            return Num(self.re*oth.re, ZERO, max(self.kind, oth.kind)).done()
        return Num(self.re*oth.re - self.im*oth.im, self.re*oth.im + self.im*oth.re, max(self.kind, oth.kind))
    __rmul__ = __mul__

    def inverse(self):
        if not self.im.t:
            if self.re.isConst():
                if self.re.isZero():
                    raise ZeroDivisionError('division by zero')
            elif decide(self.re, '=='):
                raise ZeroDivisionError('division by zero')
            return Num(self.re.inverse(), ZERO, max(1, self.kind))
        mag = self.re*self.re + self.im*self.im
        if decide(mag, '=='):
            raise ZeroDivisionError('division by zero')
        inv = mag.inverse()
        return Num(self.re*inv, -self.im*inv, 2)

    def __truediv__(self, other):
        oth = Num.lift(other)
        if oth is None:
            return _onArray(other, lambda v: self/v)
        inv = oth.inverse()
        return Num(*_cmul(self, inv), max(1, self.kind, oth.kind))

    def __rtruediv__(self, other):
        oth = Num.lift(other)
        if oth is None:
            return _onArray(other, lambda v: Num.lift(v)/self)
        return oth/self

    def __floordiv__(self, other):
        oth = Num.lift(other)
        if oth is None:
            return _onArray(other, lambda v: self//v)
        return _divmod(self, oth)[0]

    def __rfloordiv__(self, other):
        oth = Num.lift(other)
        if oth is None:
            return _onArray(other, lambda v: Num.lift(v)//self)
        return oth//self

    def __mod__(self, other):
        oth = Num.lift(other)
        if oth is None:
            return _onArray(other, lambda v: self % v)
        return _divmod(self, oth)[1]

    def __rmod__(self, other):
        oth = Num.lift(other) if not isinstance(other, str) else None
        if oth is None:
            return _onArray(other, lambda v: Num.lift(v) % self)
        return oth % self

    def __divmod__(self, other):
        return _divmod(self, Num.lift(other))

    def __rdivmod__(self, other):
        return _divmod(Num.lift(other), self)

    def __pow__(self, other, mod=None):
        if isinstance(other, Num) and not (other.re.isConst() and other.im.isConst()):
            if other.kind == 0:
                other = int(other)
            elif not self.im.t and self.re == exp(1).re:
                return exp(other)
            else:
                raise Inconclusive('symbolic exponent')
        oth = Num.lift(other)
        if oth is None:
            return _onArray(other, lambda v: self**v)
        if oth.im.t:
            raise Inconclusive('complex exponent')
        power = Fraction(oth.re.constVal())
        if power.denominator == 1:
            power = int(power)
            if not self.im.t:
                if power < 0:
                    return Num(self.inverse().re.pow(-power), ZERO, max(1, self.kind))
                return Num(self.re.pow(power), ZERO, max(self.kind, oth.kind)).done()
            base = self if power >= 0 else self.inverse()
            res = Num(ONE, ZERO, 2)
            for _ in range(abs(power)):
                res = res*base
            return res
        if power.denominator == 2:
            root = sqrt(self)
            return Num.lift(root)**power.numerator
        raise Inconclusive(f'exponent {power}')

    def __rpow__(self, other):
        oth = Num.lift(other)
        if oth is None:
            return _onArray(other, lambda v: Num.lift(v)**self)
        if self.kind == 0:
            return oth**int(self)
        if self.re.isConst() or oth.re == exp(1).re:
            return oth**self
        raise Inconclusive('symbolic exponent')

    def __abs__(self):
        if self.kind < 2 or not self.im.t:
            if self.re.isConst():
                return Num(Poly.const(abs(self.re.constVal())), ZERO, min(self.kind, 1)).done()
            nonneg = decide(self.re, '>=')
            return Num(self.re if nonneg else -self.re, ZERO, min(self.kind, 1))
        if not self.re.t:
            return abs(Num(self.im, ZERO, 1))
        return sqrt(Num(markNonneg(self.re*self.re+self.im*self.im), ZERO, 1))

    def __round__(self, ndigits=None):
        if self.kind == 0:
            return self
        if self.im.t:
            raise TypeError("type complex doesn't define __round__ method")
        if ndigits is None:
            return roundTo(self, 0, True)
        return roundTo(self, ndigits)

    # ---- comparisons
    def __eq__(self, other):
        oth = Num.lift(other) if not isinstance(other, (str, bytes, np.ndarray)) else None
        if oth is None:
            return NotImplemented
        return _both(cmpZero(self.re-oth.re, '=='), cmpZero(self.im-oth.im, '=='))

    def __ne__(self, other):
        res = self.__eq__(other)
        if res is NotImplemented:
            return res
        return (not res) if isinstance(res, bool) else mkBool(z3.Not(res.z))

    def _order(self, other, op):
        oth = Num.lift(other)
        if oth is None:
            return NotImplemented
        if self.im.t or oth.im.t:
            raise TypeError('no ordering of complex numbers')
        res = cmpZero(self.re-oth.re, op)
        return res if isinstance(res, bool) else mkBool(res)

    def __lt__(self, other):
        return self._order(other, '<')

    def __le__(self, other):
        return self._order(other, '<=')

    def __gt__(self, other):
        return self._order(other, '>')

    def __ge__(self, other):
        return self._order(other, '>=')

    def __bool__(self):
        res = (self != 0)
        return bool(res)

    def __hash__(self):
        if self.re.isConst() and self.im.isConst():
            if not self.im.t:
                return hash(self.re.constVal())
            return hash((self.re.constVal(), self.im.constVal()))
        if self.kind == 0:
            return hash(int(self))
        return hash((self.re.key(), self.im.key()))

    # ---- integers
    def __index__(self):
        if self.kind != 0:
            raise TypeError("'float' object cannot be interpreted as an integer")
        if self.re.isConst():
            return int(self.re.constVal())
        return Path.current.concretise(self)

    def __int__(self):
        val = toInt(self)
        return val if isinstance(val, int) else Path.current.concretise(val)

    def __trunc__(self):
        return toInt(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __float__(self):
        if self.re.isConst() and not self.im.t:
            return float(self.re.constVal())
        poison(f'a symbolic number was converted to a machine float: {self!r}')

    def __complex__(self):
        if self.re.isConst() and self.im.isConst():
            return complex(self.re.constVal(), self.im.constVal())
        poison('a symbolic number was converted to a machine complex')

    # ---- numpy scalar interface
    @property
    def real(self):
        return Num(self.re, ZERO, min(self.kind, 1))

    @property
    def imag(self):
        return Num(self.im, ZERO, min(self.kind, 1)).done()

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return np.dtype([np.int64, np.float64, np.complex128][self.kind])

    @property
    def T(self):
        return self

    def conjugate(self):
        return Num(self.re, -self.im, self.kind) if self.im.t else self
    conj = conjugate

    def sum(self, *_, **__):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dtype, **_):
        return castTo(self, dtype)

    def is_integer(self):
        return self == floor(self)

    def round(self, decimals=0):
        return npround(self, decimals)

    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def __repr__(self):
        if TEXT['on']:
            TEXT['table'].append(self)
            return f"\u27e6{'ifc'[self.kind]}{len(TEXT['table'])-1}\u27e7"
        if not self.im.t:
            return f'<{self.re!r}>'
        return f'<({self.re!r}) + i*({self.im!r})>'

    def __format__(self, spec):
        return written(self, spec) if TEXT['on'] else repr(self)


# numbers written as text and read back: with 'on', str() of a symbolic number is a token that parses to it again
TEXT = {'on': False, 'numpy': False, 'table': []}
GENERIC = Fraction('1.2345678901234567')


def written(num, spec):
    """a number formatted with limited precision: rounded, or checked at one number with many digits"""
    found = re.fullmatch(r'[<>=^+ ]*(\d*)(?:\.(\d+))?([a-z]?)', spec)
    if not found:
        poison(f'number format {spec!r}')
    digits, kind = found.group(2), found.group(3)
    if kind == 'd' or (num.kind == 0 and not kind) or (not kind and digits is None):
        return repr(num)
    if kind == 'f':
        return repr(npround(num, int(digits or 6)))
    if int(digits or 6) >= (17 if kind == 'g' else 16):
        return repr(num)
    if num.kind == 2 or not num == GENERIC:
        poison(f'number format {spec!r}')
    return repr(Num.lift(Fraction(format(float(GENERIC), spec))))


def parsed(text):
    """the number a token stands for, None if it is none"""
    found = re.fullmatch('\u27e6[ifc](\\d+)\u27e7', text.strip())
    return TEXT['table'][int(found.group(1))] if found else None


def _cmul(a, b):
    if not a.im.t and not b.im.t:
        return a.re*b.re, ZERO
    return a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re


def poison(msg):
    exc = Inconclusive(msg)
    if Path.current is not None:
        Path.current.poison = exc
    raise exc


def _both(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b if isinstance(b, bool) else mkBool(b)
    if b is True:
        return mkBool(a)
    return mkBool(z3.And(a, b))


def const(val):
    return Num(Poly.const(val), ZERO, 0 if isinstance(val, int) else 1)


def exact(val):
    """concrete numbers become exact terms"""
    num = Num.lift(val)
    if num is None:
        return val
    return num


# ---- functions with defining relations

def floor(num):
    if not isinstance(num, Num):
        num = Num.lift(num)
    if num.kind == 0:
        return num
    num = Num(P.tidy(num.re), num.im, num.kind)
    if num.im.t:
        raise TypeError('floor of a complex number')
    if num.re.isConst():
        return num.re.constVal().__floor__()
    if all(not isinstance(c, Fraction) and all(e > 0 and SPACE.vars[v].isint for v, e in m)
           for m, c in num.re.t.items()):
        return Num(num.re, ZERO, 0)
    key = ('floor', num.re.key())
    var = SPACE.keys.get(key)
    if var is None:
        numer, denom = P.cleared(num.re, even=False)
        var = SPACE.new(key, f'floor!{len(SPACE.vars)}', 'floor', num.re, isint=True)
        zk = z3.ToReal(var.z)
        zn, zd = P.toZ3(numer, real=True), P.toZ3(denom, real=True)
        if denom.isConst():
            SPACE.define(var, (z3.And(zk*zd <= zn, zn < (zk+1)*zd), ()))
        else:
            SPACE.define(var, (z3.If(zd > 0, z3.And(zk*zd <= zn, zn < (zk+1)*zd),
                                     z3.And(zk*zd >= zn, zn > (zk+1)*zd)), ()))
    return Num(Poly.var(var), ZERO, 0)


def toInt(num):
    """int(): truncation towards zero"""
    if isinstance(num, SymBool):
        return int(bool(num))
    if not isinstance(num, Num):
        num = Num.lift(num)
    if num.kind == 0:
        return num.done()
    if num.im.t or num.kind == 2:
        raise TypeError("can't convert complex to int")
    if num.re.isConst():
        return int(num.re.constVal())
    if decide(num.re, '>='):
        return floor(num)
    return -floor(-num)


def _divmod(a, b):
    if a.im.t or b.im.t:
        raise TypeError("can't take floor or mod of complex number.")
    if a.re.isConst() and b.re.isConst():
        if b.re.isZero():
            raise ZeroDivisionError('integer division or modulo by zero')
        quo, rem = divmod(Fraction(a.re.constVal()), Fraction(b.re.constVal()))
        kind = max(a.kind, b.kind)
        return Num(Poly.const(Fraction(quo)), ZERO, kind).done(), Num(Poly.const(rem), ZERO, kind).done()
    if decide(b.re, '=='):
        raise ZeroDivisionError('integer division or modulo by zero')
    if a.kind == 0 and b.kind == 0:
        key = ('div', a.re.key(), b.re.key())
        var = SPACE.keys.get(key)
        if var is None:
            var = SPACE.new(key, f'div!{len(SPACE.vars)}', 'div', (a.re, b.re), isint=True)
            za, zb = P.toZ3(a.re), P.toZ3(b.re)
            rem = za - zb*var.z
            SPACE.define(var, (z3.Implies(zb > 0, z3.And(rem >= 0, rem < zb)), ()),
                         (z3.Implies(zb < 0, z3.And(rem <= 0, rem > zb)), ()))
        quo = Num(Poly.var(var), ZERO, 0)
        return quo, a - b*quo
    quo = floor(Num(a.re*b.re.inverse(), ZERO, 1))
    quo = Num.lift(quo)
    res = Num(quo.re, ZERO, 1)
    return res, Num(a.re - b.re*quo.re, ZERO, 1)


def roundTo(num, ndigits, toint=False):
    ndigits = int(ndigits)
    num = Num(P.tidy(num.re), num.im, num.kind)
    if num.re.isConst():
        val = round(Fraction(num.re.constVal()), ndigits if not toint else None)
        return int(val) if toint else Num(Poly.const(Fraction(val)), ZERO, 1)
    if ndigits >= FINE:
        return num
    scaled = num.re.scale(Fraction(10)**ndigits)
    key = ('round', scaled.key())
    var = SPACE.keys.get(key)
    if var is None:
        numer, denom = P.cleared(scaled)
        var = SPACE.new(key, f'round!{len(SPACE.vars)}', 'round', scaled, isint=True)
        zk = z3.ToReal(var.z)
        zn, zd = P.toZ3(numer, real=True), P.toZ3(denom, real=True)
        half = z3.RealVal('1/2')
        SPACE.define(var, (z3.And((zk-half)*zd <= zn, zn <= (zk+half)*zd), ()))
    res = Num(Poly.var(var), ZERO, 0)
    return res if toint else Num(Poly.var(var).scale(Fraction(1)/Fraction(10)**ndigits), ZERO, 1)


def npround(val, decimals=0):
    num = Num.lift(val)
    if num.kind == 0 and decimals >= 0:
        return num.done()
    res = roundTo(Num(num.re, ZERO, 1), decimals)
    if num.kind < 2:
        return res
    return Num(res.re, roundTo(Num(num.im, ZERO, 1), decimals).re, 2)


def sqrt(val):
    num = Num.lift(val)
    if num.im.t:
        return _csqrt(num)
    if num.re.isConst():
        cval = num.re.constVal()
        if cval < 0:
            if num.kind == 2:
                return Num(ZERO, P.sqrtConst(-cval), 2)
            raise NotANumber('square root of a negative number')
        return Num(P.sqrtConst(cval), ZERO, max(1, num.kind))
    if decide(num.re, '>='):
        return Num(P.sqrtPoly(num.re), ZERO, max(1, num.kind))
    if num.kind == 2:
        return Num(ZERO, P.sqrtPoly(-num.re), 2)
    raise NotANumber('square root of a negative number')


def _csqrt(num):
    mag = sqrt(Num(markNonneg(num.re*num.re + num.im*num.im), ZERO, 1))
    half = Fraction(1, 2)
    rea = sqrt(Num((mag.re+num.re).scale(half), ZERO, 1))
    ima = sqrt(Num((mag.re-num.re).scale(half), ZERO, 1))
    if decide(num.im, '<'):
        ima = -ima
    return Num(rea.re, ima.re, 2)


def PI():
    var = SPACE.keys.get('pi')
    if var is None:
        var = SPACE.new('pi', 'pi', 'pi')
        SPACE.define(var, (z3.And(var.z > z3.RealVal('3141592653589793/1000000000000000'),
                                  var.z < z3.RealVal('3141592653589794/1000000000000000')), ()))
    return Num(Poly.var(var), ZERO, 1)


def _trigVars(mono):
    key = ('trig', mono)
    pair = SPACE.keys.get(key)
    if pair is None:
        sin = SPACE.new(None, f'sin!{len(SPACE.vars)}', 'sin', mono)
        cosv = SPACE.new(None, f'cos!{len(SPACE.vars)}', 'cos', sin)
        SPACE.define(cosv, (cosv.z*cosv.z + sin.z*sin.z == 1, ()))
        SPACE.define(sin, (cosv.z*cosv.z + sin.z*sin.z == 1, ()))
        pair = SPACE.keys[key] = (cosv, sin)
    return pair


_COS12 = {0: (1, None), 2: (Fraction(1, 2), 3), 3: (Fraction(1, 2), 2), 4: (Fraction(1, 2), None), 6: (0, None)}


def _constPi(coef):
    """cos(coef*pi) exactly, or None"""
    k = Fraction(coef)*12
    if k.denominator != 1:
        return None
    k = int(k) % 24
    sign = 1
    if k > 12:
        k = 24-k
    if k > 6:
        k = 12-k
        sign = -1
    if k not in _COS12:
        return None
    val, root = _COS12[k]
    res = Poly.const(val)
    if root:
        res = res*P.sqrtConst(root)
    return res.scale(sign)


def expi(poly):
    """(cos, sin) of a real term, expanded over its summands"""
    poly = P.tidy(poly)
    rea, ima = ONE, ZERO
    pikey = SPACE.keys.get('pi')
    for mono, coef in sorted(poly.t.items()):
        fac = None
        if pikey is not None and mono == ((pikey.vid, 1),):
            cval = _constPi(coef)
            sval = _constPi(Fraction(coef)-Fraction(1, 2))
            if cval is not None and sval is not None:
                fac = (cval, sval)
        if fac is None:
            mult = Fraction(coef)*UNIT
            # angles over other denominators get their own unit
            unit = (mono, mult.denominator)
            count = mult.numerator
            if abs(count) > 40:
                unit = (mono, mult.denominator, abs(count))
                count = 1 if count > 0 else -1
            cosv, sinv = _trigVars(unit)
            base = (Poly.var(cosv), Poly.var(sinv))
            fac = (ONE, ZERO)
            for _ in range(abs(count)):
                fac = (fac[0]*base[0]-fac[1]*base[1], fac[0]*base[1]+fac[1]*base[0])
            if count < 0:
                fac = (fac[0], -fac[1])
        rea, ima = rea*fac[0]-ima*fac[1], rea*fac[1]+ima*fac[0]
    return rea, ima


def _expReal(poly):
    poly = P.tidy(poly)
    res = ONE
    for mono, coef in sorted(poly.t.items()):
        mult = Fraction(coef)*UNIT
        key = ('exp', mono, mult.denominator)
        var = SPACE.keys.get(key)
        if var is None:
            arg = Poly({mono: 1})
            var = SPACE.new(key, f'exp!{len(SPACE.vars)}', 'exp', (arg, mult.denominator))
            numer, denom = P.cleared(arg)
            zn = P.toZ3(numer, real=True)     # sign of the argument (the denominator is a square)
            SPACE.define(var, (var.z > 0, ()),
                         (z3.And((zn > 0) == (var.z > 1), (zn < 0) == (var.z < 1)), ()))
        res = res*Poly({((var.vid, int(mult.numerator)),): 1})
    return res


def _expOfLogs(poly):
    """exp(k log a) is a**k"""
    poly = P.tidy(poly)
    rest, res = {}, Num(ONE, ZERO, 1)
    for mono, coef in poly.t.items():
        var = SPACE.vars[mono[0][0]] if len(mono) == 1 and mono[0][1] == 1 else None
        if var is not None and var.kind == 'log' and Fraction(coef).denominator == 1:
            res = res*Num(var.data, ZERO, 1)**int(coef)
        else:
            rest[mono] = coef
    if len(rest) == len(poly.t):
        return _expReal(poly)
    return (res*Num(_expReal(Poly(rest)), ZERO, 1)).re


def refreshedPair(one, two):
    """both sides of a comparison, refreshed and over common fractions of angles"""
    one, two = refreshed(one), refreshed(two)
    if one == two:
        return one, two
    return _commonUnits(one, two)


def refreshed(poly):
    """poly with the arguments of its function variables rewritten by the equalities of the path, so that functions of
    arguments that turned out equal are equal"""
    if P.SUBST:
        values = {}
        for vid in P.polyVars(poly):
            new = _newValue(SPACE.vars[vid])
            if new is not None:
                values[vid] = new
        poly = P._replace(poly, values) if values else poly
        poly = P.substitute(poly)
    return poly


def _commonUnits(*polys):
    """functions of fractions of the same angle (or exponent) in terms of those of their common fraction"""
    units = {}
    for vid in sorted({v for poly in polys for v in P.polyVars(poly)}):
        var = SPACE.vars[vid]
        if var.kind in ('cos', 'sin'):
            unit = var.data.data if var.kind == 'cos' else var.data
            if len(unit) == 2:
                units.setdefault(('trig', unit[0]), {}).setdefault(unit[1], []).append(var)
        elif var.kind == 'exp' and len(var.data[0].t) == 1:
            units.setdefault(('exp', next(iter(var.data[0].t))), {}).setdefault(var.data[1], []).append(var)
    values = {}
    for (kind, mono), dens in units.items():
        if len(dens) < 2:
            continue
        common = lcm(*dens)
        for den, found in dens.items():
            if den == common:
                continue
            if kind == 'exp':
                arg = Poly({mono: 1})
                base = _expReal(arg.scale(Fraction(1)/(UNIT*common)))
                values[found[0].vid] = base.pow(common//den)
                continue
            cosv, sinv = _trigVars((mono, common))
            base, fac = (Poly.var(cosv), Poly.var(sinv)), (ONE, ZERO)
            for _ in range(common//den):
                fac = (fac[0]*base[0]-fac[1]*base[1], fac[0]*base[1]+fac[1]*base[0])
            for var in found:
                values[var.vid] = fac[0] if var.kind == 'cos' else fac[1]
    return tuple(P._replace(poly, values) for poly in polys) if values else polys


def _touches(monos):
    return any(v in P.SUBST for mono in monos for v, _ in mono)


def _newValue(var):
    if var.kind == 'exp':
        if not _touches(var.data[0].t):
            return None
        return _expReal(var.data[0].scale(Fraction(1)/(UNIT*var.data[1])))
    if var.kind in ('cos', 'sin'):
        unit = var.data.data if var.kind == "cos" else var.data
        if not _touches([unit[0]]):
            return None
        count = unit[2] if len(unit) > 2 else 1
        cosv, sinv = expi(Poly({unit[0]: 1}).scale(Fraction(count)/(UNIT*unit[1])))
        return cosv if var.kind == 'cos' else sinv
    if var.kind == 'expm':
        key, row, col, part = var.data
        block = key[1]
        if not any(_touches([m for m, _ in k]) for line in block for ent in line for k in ent):
            return None
        from . import arrays
        out = arrays.expmDict((len(block), len(block)), {
            (i, j): ent for i, line in enumerate(block) for j, ent in
            ((j, Num(P.tidy(Poly(dict(e[0]))), P.tidy(Poly(dict(e[1]))), 2)) for j, e in enumerate(line))
            if ent.re.t or ent.im.t})
        val = Num.lift(out.get((row, col), 0))
        return val.re if part == 're' else val.im
    return None


def exp(val):
    num = Num.lift(val)
    mag = _expOfLogs(num.re)
    if not num.im.t:
        return Num(mag, ZERO, max(1, num.kind))
    cosv, sinv = expi(num.im)
    return Num(mag*cosv, mag*sinv, 2)


def cos(val):
    num = Num.lift(val)
    if num.im.t:
        eip = exp(num*1j)
        return (eip + eip.inverse())/2
    return Num(expi(num.re)[0], ZERO, max(1, num.kind))


def sin(val):
    num = Num.lift(val)
    if num.im.t:
        eip = exp(num*1j)
        return (eip - eip.inverse())/2j
    return Num(expi(num.re)[1], ZERO, max(1, num.kind))


def tan(val):
    return sin(val)/cos(val)


def cosh(val):
    eip = exp(val)
    return (eip + 1/eip)/2


def sinh(val):
    eip = exp(val)
    return (eip - 1/eip)/2


def tanh(val):
    eip = exp(2*Num.lift(val))
    return (eip - 1)/(eip + 1)


def log(val):
    num = Num.lift(val)
    num = Num(P.tidy(num.re), num.im, num.kind)
    if num.im.t:
        raise Inconclusive('complex logarithm')
    if num.re.isConst() and num.re.constVal() == 1:
        return Num(ZERO, ZERO, 1)
    if decide(num.re, '<='):
        raise NotANumber('logarithm of a non-positive number')
    key = ('log', num.re.key())
    var = SPACE.keys.get(key)
    if var is None:
        var = SPACE.new(key, f'log!{len(SPACE.vars)}', 'log', num.re)
        numer, denom = P.cleared(num.re)
        zn, zd = P.toZ3(numer, real=True), P.toZ3(denom, real=True)
        SPACE.define(var, (z3.And((zn > zd) == (var.z > 0), (zn < zd) == (var.z < 0)), ()))
    return Num(Poly.var(var), ZERO, 1)


def castTo(val, dtype):
    num = Num.lift(val)
    kind = np.dtype(dtype).kind if dtype not in (object,) else 'O'
    if kind == 'c':
        return Num(num.re, num.im, 2)
    if kind == 'f':
        return Num(num.re, ZERO, 1)
    if kind in 'iu':
        return toInt(num)
    if kind == 'b':
        return num != 0
    return val
