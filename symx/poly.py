"""Exact scalar terms of the symbolic engine.

A term is a Laurent polynomial with rational coefficients over *variables*.  Besides the harness inputs, variables
stand for: a square root (s*s = radicand, s >= 0), an inverted polynomial (q = P, used with negative exponents only),
the cosine/sine pair of an angle (c*c + s*s = 1), the exponential of a real (e > 0), a rounded or truncated value, or
one entry of an uninterpreted matrix function.  Each carries the relations that define it; these are asserted whenever
the variable reaches the solver.
"""
from fractions import Fraction
from math import isqrt
import z3


class Inconclusive(BaseException):
    """The engine cannot follow the code here; never a verdict."""


class NotANumber(ArithmeticError):
    """A real-valued operation left its domain (numpy would return nan)."""


class Var:
    __slots__ = ('vid', 'name', 'kind', 'data', 'isint', 'z', 'side', 'deps', 'nz')

    def __init__(self, vid, name, kind, data=None, isint=False):
        self.vid = vid
        self.name = name
        self.kind = kind
        self.data = data
        self.isint = isint
        self.nz = False         # an input assumed to be nonzero
        self.z = z3.Int(name) if isint else z3.Real(name)
        self.side = []          # z3 constraints defining this variable
        self.deps = set()       # ids of the variables those constraints mention


class Space:
    """The variables of one harness run (they persist over its paths, so equal terms get equal variables)."""

    def __init__(self):
        self.vars = []
        self.keys = {}
        self.nsub = 0

    def new(self, key, name, kind, data=None, isint=False):
        if key is not None and key in self.keys:
            return self.keys[key]
        var = Var(len(self.vars), name, kind, data, isint)
        self.vars.append(var)
        if key is not None:
            self.keys[key] = var
        return var

    def fresh(self, prefix, kind, data=None, isint=False):
        return self.new(None, f'{prefix}!{len(self.vars)}', kind, data, isint)

    def define(self, var, *constraints):
        """constraints: (poly, op) pairs, meaning poly op 0, or ready (z3 expression, dependencies) pairs"""
        for con in constraints:
            expr, deps = con
            var.side.append(expr)
            var.deps |= set(deps)


SPACE = Space()


def resetSpace():
    SPACE.vars = []
    SPACE.keys = {}
    _INVS.clear()


_INVS = {}


def _mulMono(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            if ea+eb:
                out.append((va, ea+eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def _needs(mono):
    for vid, exp in mono:
        kind = SPACE.vars[vid].kind
        if kind == 'sqrt':
            if exp != 1:
                return True
        elif kind == 'cos':
            if exp > 1:
                return True
        elif kind == 'inv':
            if exp > 0:
                return True
    return False


class Poly:
    __slots__ = ('t', '_h', '_k')

    def __init__(self, terms):
        self.t = terms
        self._h = None
        self._k = None

    # construction
    @staticmethod
    def const(val):
        if isinstance(val, Fraction) and val.denominator == 1:
            val = val.numerator
        return Poly({(): val}) if val else ZERO

    @staticmethod
    def var(var, exp=1):
        return Poly({((var.vid, exp),): 1})

    def isConst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def constVal(self):
        return self.t.get((), 0)

    def isZero(self):
        return not self.t

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, other):
        return isinstance(other, Poly) and self.t == other.t

    def __add__(self, other):
        if not other.t:
            return self
        if not self.t:
            return other
        res = dict(self.t)
        for mono, coef in other.t.items():
            new = res.get(mono, 0) + coef
            if new:
                res[mono] = new
            else:
                res.pop(mono, None)
        return Poly(res)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, other):
        if not other.t:
            return self
        res = dict(self.t)
        for mono, coef in other.t.items():
            new = res.get(mono, 0) - coef
            if new:
                res[mono] = new
            else:
                res.pop(mono, None)
        return Poly(res)

    def scale(self, val):
        if not val:
            return ZERO
        if val == 1:
            return self
        return Poly({m: _int(c*val) for m, c in self.t.items()})

    def __mul__(self, other):
        if not self.t or not other.t:
            return ZERO
        if self.isConst():
            return other.scale(self.t[()])
        if other.isConst():
            return self.scale(other.t[()])
        res = {}
        extra = None
        for ma, ca in self.t.items():
            for mb, cb in other.t.items():
                mono = _mulMono(ma, mb)
                coef = ca*cb
                if _needs(mono):
                    red = _reduceMono(mono).scale(coef)
                    extra = red if extra is None else extra + red
                else:
                    new = res.get(mono, 0) + coef
                    if new:
                        res[mono] = new
                    else:
                        res.pop(mono, None)
        out = Poly({m: _int(c) for m, c in res.items()})
        return out + extra if extra is not None else out

    def pow(self, exp):
        if exp < 0:
            return self.inverse().pow(-exp)
        res = ONE
        base = self
        while exp:
            if exp & 1:
                res = res*base
            base = base*base if exp > 1 else base
            exp >>= 1
        return res

    def inverse(self):
        """1/self; the caller has made sure (path condition) that self is not zero."""
        if not self.t:
            raise ZeroDivisionError
        if len(self.t) == 1:
            (mono, coef), = self.t.items()
            inv = Poly({(): Fraction(1)/coef} if True else None)
            inv = Poly.const(Fraction(1)/coef)
            res = Poly({tuple((v, -e) for v, e in mono): 1})
            if _needs(next(iter(res.t))):
                res = _reduceMono(next(iter(res.t)))
            return res*inv
        # normalise: common monomial factor out, leading coefficient one
        common = _commonMono(self)
        body = self
        if common:
            body = self*Poly({tuple((v, -e) for v, e in common): 1})
        if len(body.t) == 1 or body.isConst():
            lead = body
            res = body.inverse()
        else:
            lead = body.t[max(body.t)]
            body = body.scale(Fraction(1)/lead)
            key = ('inv', body.key())
            var = SPACE.keys.get(key)
            if var is None:
                var = SPACE.new(key, f'q!{len(SPACE.vars)}', 'inv', body)
                SPACE.define(var, (var.z == toZ3(body, real=True), polyVars(body)))
            res = Poly({((var.vid, -1),): 1}).scale(Fraction(1)/lead)
        if common:
            inv = Poly({tuple((v, -e) for v, e in common): 1})
            if _needs(next(iter(inv.t))):
                inv = _reduceMono(next(iter(inv.t)))
            res = res*inv
        return res

    def __repr__(self):
        if not self.t:
            return '0'
        parts = []
        for mono, coef in sorted(self.t.items()):
            body = '*'.join(SPACE.vars[v].name + (f'^{e}' if e != 1 else '') for v, e in mono)
            parts.append(f'{coef}*{body}' if body and coef != 1 else (body or str(coef)))
        text = ' + '.join(parts[:12])
        return text + (' + ...' if len(parts) > 12 else '')


def _int(val):
    if type(val) is Fraction and val.denominator == 1:
        return val.numerator
    return val


ZERO = Poly({})
ONE = Poly({(): 1})


def _commonMono(poly):
    it = iter(poly.t)
    common = dict(next(it))
    for mono in it:
        exps = dict(mono)
        for vid in list(common):
            new = min(common[vid], exps.get(vid, 0)) if True else 0
            common[vid] = new
        for vid, exp in exps.items():
            if exp < 0 and vid not in common:
                common[vid] = exp
    # sqrt/cos variables are reduced variables: leave them alone
    return tuple(sorted((v, e) for v, e in common.items()
                        if e and SPACE.vars[v].kind not in ('sqrt', 'cos')))


_REDCACHE = {}


def _reduceMono(mono):
    rest = []
    factors = []
    for vid, exp in mono:
        var = SPACE.vars[vid]
        if var.kind == 'sqrt' and exp != 1:
            par = exp % 2
            half = (exp-par)//2
            if par:
                rest.append((vid, 1))
            factors.append(var.data.pow(half))
        elif var.kind == 'cos' and exp > 1:
            if exp % 2:
                rest.append((vid, 1))
            sin = Poly.var(var.data)
            factors.append((ONE - sin*sin).pow(exp//2))
        elif var.kind == 'inv' and exp > 0:
            factors.append(var.data.pow(exp))
        else:
            rest.append((vid, exp))
    res = Poly({tuple(rest): 1})
    for fac in factors:
        res = res*fac
    return res


def polyVars(poly):
    return {v for mono in poly.t for v, _ in mono}


def clearDenominators(poly, even=False):
    """Multiply by the (nonzero) variables that occur with negative exponents; with even=True only by squares, so that
    the sign is preserved."""
    while True:
        neg = {}
        for mono in poly.t:
            for vid, exp in mono:
                if exp < 0:
                    neg[vid] = min(neg.get(vid, 0), exp)
        if not neg:
            return poly
        fac = []
        for vid, exp in sorted(neg.items()):
            exp = -exp
            if even and exp % 2:
                if SPACE.vars[vid].kind in ('exp', 'possq'):
                    pass
                else:
                    exp += 1
            fac.append((vid, exp))
        # multiplying term by term lets x^-k * x^k cancel before an inverse variable would be expanded
        out = ZERO
        acc = {}
        for mono, coef in poly.t.items():
            new = _mulMono(mono, tuple(fac))
            if _needs(new):
                out = out + _reduceMono(new).scale(coef)
            else:
                val = acc.get(new, 0)+coef
                if val:
                    acc[new] = val
                else:
                    acc.pop(new, None)
        poly = out + Poly(acc)


def toZ3(poly, real=False):
    """poly as a z3 term (no negative exponents allowed)"""
    ints = not real
    if ints:
        for mono, coef in poly.t.items():
            if isinstance(coef, Fraction):
                ints = False
                break
            if any(not SPACE.vars[v].isint for v, _ in mono):
                ints = False
                break
    summands = []
    for mono, coef in sorted(poly.t.items()):
        parts = []
        for vid, exp in mono:
            if exp < 0:
                raise Inconclusive('negative exponent reached the solver')
            zvar = SPACE.vars[vid].z
            if SPACE.vars[vid].isint and not ints:
                zvar = z3.ToReal(zvar)
            parts.extend([zvar]*exp)
        if ints:
            cval = z3.IntVal(coef)
        else:
            frac = Fraction(coef)
            cval = z3.RealVal(f'{frac.numerator}/{frac.denominator}')
        if not parts:
            summands.append(cval)
        else:
            body = parts[0] if len(parts) == 1 else z3.Product(*parts)
            summands.append(body if coef == 1 else cval*body)
    if not summands:
        return z3.IntVal(0) if ints else z3.RealVal(0)
    return summands[0] if len(summands) == 1 else z3.Sum(*summands)


def _factorSquare(num):
    """num > 0 integer -> (outer, [primes]) with num = outer^2 * prod(primes)"""
    outer = 1
    primes = []
    n = num
    p = 2
    while p*p <= n:
        cnt = 0
        while n % p == 0:
            n //= p
            cnt += 1
        outer *= p**(cnt//2)
        if cnt % 2:
            primes.append(p)
        p += 1
        if p > 100000:
            root = isqrt(n)
            if root*root == n:
                return outer*root, primes
            break
    if n > 1:
        primes.append(n)
    return outer, primes


def sqrtConst(val):
    """square root of a non-negative rational, as a Poly over the variables sqrt(p)"""
    val = Fraction(val)
    if val == 0:
        return ZERO
    outer, primes = _factorSquare(val.numerator*val.denominator)
    res = Poly.const(Fraction(outer, val.denominator))
    for prime in primes:
        res = res*Poly.var(_sqrtVar(Poly.const(prime)))
    return res


def _sqrtVar(rad):
    key = ('sqrt', rad.key())
    var = SPACE.keys.get(key)
    if var is None:
        var = SPACE.new(key, f'sqrt!{len(SPACE.vars)}', 'sqrt', rad)
        if rad.isConst():
            SPACE.define(var, (var.z*var.z == toZ3(rad, real=True), ()), (var.z > 0, ()))
        else:
            cl, den = cleared(rad)
            lhs = toZ3(den, real=True)*var.z*var.z
            SPACE.define(var, (lhs == toZ3(cl, real=True), polyVars(cl) | polyVars(den)), (var.z >= 0, ()))
    return var


def cleared(poly, even=True):
    """(num, den) with poly = num/den, both free of negative exponents; den is a product of squares (if even)"""
    neg = {}
    for mono in poly.t:
        for vid, exp in mono:
            if exp < 0:
                neg[vid] = min(neg.get(vid, 0), exp)
    if not neg:
        return poly, ONE
    den = ONE
    num = poly
    for vid, exp in sorted(neg.items()):
        exp = -exp
        exp += exp % 2 if even else 0
        var = SPACE.vars[vid]
        fac = Poly({((vid, exp),): 1})
        acc = ZERO
        for mono, coef in num.t.items():
            new = _mulMono(mono, ((vid, exp),))
            acc = acc + (_reduceMono(new) if _needs(new) else Poly({new: 1})).scale(coef)
        num = acc
        den = den*(var.data.pow(exp) if var.kind == 'inv' else fac)
    if any(e < 0 for m in num.t for _, e in m) or any(e < 0 for m in den.t for _, e in m):
        num2, den2 = cleared(num, even)
        den3, den4 = cleared(den, even)
        return num2*den4, den3*den2
    return num, den


def sqrtPoly(poly):
    """square root of a polynomial known (path condition) to be non-negative"""
    poly = tidy(poly)
    if poly.isConst():
        return sqrtConst(poly.constVal())
    # pull out the content
    coefs = [Fraction(c) for c in poly.t.values()]
    from math import gcd
    num = 0
    den = 1
    for c in coefs:
        num = gcd(num, abs(c.numerator))
        den = den*c.denominator//gcd(den, c.denominator)
    content = Fraction(num, den)
    body = poly.scale(1/content)
    res = sqrtConst(content)
    # even powers of inverse variables / variables known positive can leave the root
    common = dict(_commonMono(body))
    out = []
    for vid, exp in common.items():
        var = SPACE.vars[vid]
        if var.kind in ('exp',) and exp % 2 == 0:
            out.append((vid, exp//2))
    if out:
        out = tuple(sorted(out))
        body = body*Poly({tuple((v, -2*e) for v, e in out): 1})
        res = res*Poly({out: 1})
    return res*Poly.var(_sqrtVar(body))


def _divide(num, den):
    """num/den exactly, or None (both free of negative exponents in the variables of den)"""
    vids = sorted(polyVars(num) | polyVars(den))

    def key(mono):
        exps = dict(mono)
        return tuple(exps.get(v, 0) for v in vids)
    lead = max(den.t, key=key)
    lcoef = den.t[lead]
    quo = {}
    rem = num
    steps = 0
    while rem.t:
        steps += 1
        if steps > 400:
            return None
        top = max(rem.t, key=key)
        exps = dict(top)
        part = dict(top)
        for vid, exp in lead:
            if exps.get(vid, 0) < exp:
                return None
            part[vid] = exps[vid]-exp
            if not part[vid]:
                del part[vid]
        mono = tuple(sorted(part.items()))
        coef = _int(Fraction(rem.t[top])/lcoef)
        quo[mono] = quo.get(mono, 0) + coef
        rem = rem - den*Poly({mono: coef})
    return Poly({m: c for m, c in quo.items() if c})


SUBST = {}      # of the current path: variable id -> the polynomial an equality of the path condition gives for it


def fromZ3(expr):
    """a z3 polynomial over input variables as a Poly; None when it is not one"""
    kind = expr.decl().kind()
    if z3.is_int_value(expr):
        return Poly.const(expr.as_long())
    if z3.is_rational_value(expr):
        return Poly.const(_int(Fraction(expr.numerator_as_long(), expr.denominator_as_long())))
    if z3.is_const(expr) and kind == z3.Z3_OP_UNINTERPRETED:
        var = SPACE.keys.get(('input', expr.decl().name()))
        return None if var is None else Poly.var(var)
    parts = [fromZ3(c) for c in expr.children()]
    if not parts or any(p is None for p in parts):
        return None
    out = parts[0]
    if kind == z3.Z3_OP_TO_REAL:
        return out
    if kind == z3.Z3_OP_UMINUS:
        return -out
    if kind not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
        return None
    for part in parts[1:]:
        out = out + part if kind == z3.Z3_OP_ADD else out - part if kind == z3.Z3_OP_SUB else out*part
    return out


def _solvable(poly):
    """(variable, factor): poly = factor*variable + rest, with a factor that is nonzero on this path and neither it nor
    the rest depending on the variable; the newest variable, a constant factor if there is one"""
    best = None
    for vid in polyVars(poly):
        occ = [m for m in poly.t if any(v == vid for v, _ in m)]
        if len(occ) != 1 or dict(occ[0])[vid] != 1:
            continue
        rest = tuple((v, e) for v, e in occ[0] if v != vid)
        if any(not SPACE.vars[v].nz for v, _ in rest):
            continue
        if SPACE.vars[vid].isint and len(poly.t) > 1 and (rest or any(m for m in poly.t if m != occ[0])):
            continue
        cand = (not rest, vid, Poly({rest: poly.t[occ[0]]}))
        if best is None or cand[:2] > best[:2]:
            best = cand
    return best[1:] if best else None


def learn(con):
    """remember the equalities of a path condition as substitutions of one variable by others"""
    if z3.is_and(con):
        for part in con.children():
            learn(part)
        return
    if not z3.is_eq(con) or not z3.is_arith(con.arg(0)):
        return
    left, right = fromZ3(con.arg(0)), fromZ3(con.arg(1))
    if left is None or right is None:
        return
    poly = substitute(left - right)
    if any(e < 0 for m in poly.t for _, e in m):
        poly = clearDenominators(poly)
    found = _solvable(poly)
    if found is None:
        return
    vid, factor = found
    var = Poly({((vid, 1),): 1})
    value = (factor*var - poly)*factor.inverse()
    if SPACE.vars[vid].isint and not value.isConst():
        return
    for old in list(SUBST):
        if vid in polyVars(SUBST[old]):
            SUBST[old] = _replace(SUBST[old], {vid: value})
    SUBST[vid] = value


def _replace(poly, values):
    out = ZERO
    keep = {}
    for mono, coef in poly.t.items():
        if not any(v in values for v, _ in mono):
            keep[mono] = coef
            continue
        term = Poly({tuple((v, e) for v, e in mono if v not in values): coef})
        for vid, exp in mono:
            if vid in values:
                val = values[vid]
                if exp < 0 and not val.t:
                    return poly     # excluded by the path condition
                term = term*val.pow(exp)
        out = out + term
    return Poly(keep) + out


def substitute(poly):
    if not SUBST or not any(v in SUBST for mono in poly.t for v, _ in mono):
        return poly
    return _replace(poly, SUBST)


def tidy(poly):
    """apply the equalities of the path and cancel common factors between numerators and inverse variables:
    (x+2)*q^-1 with q = x+2 becomes 1"""
    poly = substitute(poly)
    invs = {}
    for mono in poly.t:
        for vid, exp in mono:
            if exp < 0 and SPACE.vars[vid].kind == 'inv':
                invs[vid] = min(invs.get(vid, 0), exp)
    for vid in sorted(invs):
        den = SPACE.vars[vid].data
        while True:
            depth = 0
            for mono in poly.t:
                depth = min(depth, dict(mono).get(vid, 0))
            if depth == 0:
                break
            # terms at the deepest level must be divisible by the denominator
            deep = {}
            rest = {}
            for mono, coef in poly.t.items():
                exps = dict(mono)
                if exps.get(vid, 0) == depth:
                    del exps[vid]
                    deep[tuple(sorted(exps.items()))] = coef
                else:
                    rest[mono] = coef
            neg = {}
            for mono in deep:
                for v, e in mono:
                    if e < 0:
                        neg[v] = min(neg.get(v, 0), e)
            lift = tuple(sorted((v, -e) for v, e in neg.items()))
            quo = _divide(Poly({_mulMono(m, lift): c for m, c in deep.items()}), den)
            if quo is None:
                break
            drop = tuple((v, -e) for v, e in lift)
            step = ((vid, depth+1),) if depth+1 else ()
            back = Poly({_mulMono(_mulMono(m, drop), step): c for m, c in quo.t.items()})
            poly = Poly(rest) + back
    return poly
