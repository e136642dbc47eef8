"""Harness definitions and the two contexts they run in.

A harness is a function h(cx, **case).  It asks the context for its inputs, calls the real code and states what must
hold.  In the symbolic context inputs are solver variables; in the replay context they are the plain numbers of one
solver model, and the code runs with the real numpy and scipy."""
import importlib
import random
import sys

REGISTRY = {}


class Harness:
    def __init__(self, prop, name, func, quick, thorough, reload, encodes, bounds, attempts):
        self.prop = prop
        self.name = name
        self.func = func
        self.cases = {'quick': quick, 'thorough': thorough}
        self.reload = reload
        self.encodes = encodes
        self.bounds = bounds
        self.attempts = attempts


def harness(prop, quick=({},), thorough=None, reload=False, encodes='', bounds='', attempts=12):
    """register a harness; quick/thorough list the cases (keyword arguments) it runs on in each tier"""
    def deco(func):
        har = Harness(prop, func.__name__, func, list(quick), list(thorough if thorough is not None else quick),
                      reload, encodes, bounds, attempts)
        REGISTRY.setdefault(prop, {})[har.name] = har
        return func
    return deco


class Discard(BaseException):
    """replay only: the values do not satisfy an assumption"""


class Base:
    """shared by both contexts"""
    symbolic = False

    def load(self, name):
        return importlib.import_module('quanguru' + ('.' + name if name else ''))

    # toolbox shortcuts
    @property
    def ops(self):
        return self.load('QuantumToolbox.operators')

    @property
    def la(self):
        return self.load('QuantumToolbox.linearAlgebra')

    @property
    def st(self):
        return self.load('QuantumToolbox.states')

    @property
    def ev(self):
        return self.load('QuantumToolbox.evolution')

    @property
    def fn(self):
        return self.load('QuantumToolbox.functions')

    @property
    def qg(self):
        return self.load('')

    def reals(self, name, num, **kw):
        return [self.real(f'{name}{i}', **kw) for i in range(num)]

    def complexes(self, name, num):
        return [self.complex(f'{name}{i}') for i in range(num)]

    def array(self, rows):
        return self.np.array(rows)

    def matrix(self, name, rows, cols=None, kind='general', sparse=False):
        cols = rows if cols is None else cols
        ent = [[0]*cols for _ in range(rows)]
        for i in range(rows):
            for j in range(cols):
                if kind == 'general':
                    ent[i][j] = self.complex(f'{name}_{i}{j}')
                elif kind == 'real':
                    ent[i][j] = self.real(f'{name}_{i}{j}')
                elif kind == 'hermitian':
                    if i == j:
                        ent[i][j] = self.real(f'{name}_{i}{j}')
                    elif i < j:
                        ent[i][j] = self.complex(f'{name}_{i}{j}')
                        ent[j][i] = ent[i][j].conjugate()
                elif kind == 'diag':
                    if i == j:
                        ent[i][j] = self.real(f'{name}_{i}{j}')
                elif kind == 'sparsegen':
                    # one nonzero off-diagonal band plus the diagonal
                    if i == j or (i+1) % cols == j:
                        ent[i][j] = self.complex(f'{name}_{i}{j}')
                else:
                    raise ValueError(kind)
        return self.mat(ent, sparse)

    def mat(self, rows, sparse=False):
        arr = self.cdense(rows)
        return self.sp.csc_matrix(arr) if sparse else arr

    def ket(self, name, dim, sparse=False, nonzero=False, real=False):
        comp = self.reals(name, dim) if real else self.complexes(name, dim)
        if nonzero:
            total = 0
            for c in comp:
                total = total + (c*c.conjugate()).real
            self.assume(total > 0)
        return self.mat([[c] for c in comp], sparse)

    def dense(self, mat):
        return mat.toarray() if self.issparse(mat) else mat

    def issparse(self, mat):
        return self.sp.issparse(mat)

    def dag(self, mat):
        return mat.T.conj()

    def eye(self, dim):
        return self.sp.identity(dim, format='csc')


class SymContext(Base):
    symbolic = True

    def __init__(self, path, record):
        from . import facade, num, core, poly
        self.F, self.N, self.C, self.P = facade, num, core, poly
        facade.refreshPi()
        self.path = path
        self.record = record
        self.np = facade.NUMPY
        self.sp = facade.SPARSE
        self.pi = num.PI()
        facade.EIG['hook'] = None
        num.TEXT.update(on=False, numpy=False, table=[])

    # ---- inputs
    def _input(self, name, kind, isint=False, **info):
        var = self.P.SPACE.new(('input', name), name, 'in', isint=isint)
        self.path.inputs[name] = dict(kind=kind, **info)
        return var

    def int(self, name, lo, hi):
        var = self._input(name, 'int', True, lo=lo, hi=hi)
        if lo is not None:
            self.path.assume(var.z >= lo)
        if hi is not None:
            self.path.assume(var.z <= hi)
        return self.N.Num(self.P.Poly.var(var), self.P.ZERO, 0)

    def real(self, name, lo=None, hi=None, nonzero=False, positive=False):
        import z3
        var = self._input(name, 'real', lo=_num(lo), hi=_num(hi), nonzero=nonzero, positive=positive)
        for bound, op in ((lo, '>='), (hi, '<=')):
            if bound is not None:
                frac = self.N.rat(bound)
                val = z3.RealVal(str(frac))
                self.path.assume(var.z >= val if op == '>=' else var.z <= val)
        var.nz = nonzero or positive
        if nonzero:
            self.path.assume(var.z != 0)
        if positive:
            self.path.assume(var.z > 0)
        return self.N.Num(self.P.Poly.var(var), self.P.ZERO, 1)

    def complex(self, name):
        rea = self._input(name + '.re', 'real', lo=None, hi=None, nonzero=False, positive=False)
        ima = self._input(name + '.im', 'real', lo=None, hi=None, nonzero=False, positive=False)
        return self.N.Num(self.P.Poly.var(rea), self.P.Poly.var(ima), 2)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        idx = self.int(name, 0, len(options)-1)
        return options[int(idx)]

    def bool(self, name):
        return self.choice(name, [False, True])

    def cdense(self, rows):
        return self.F.mkArray(rows)

    def text(self, numpy=False):
        """numbers may be written as text and are read back; numpy: the inputs from here on are numpy scalars"""
        self.N.TEXT.update(on=True, numpy=numpy)

    def scalar(self, val):
        return val

    def pick(self, num):
        """a concrete integer: one path per feasible value"""
        return int(num)

    # ---- logic
    def assume(self, cond):
        if isinstance(cond, self.N.SymBool):
            self.path.assume(cond.z)
            if self.path.feasible(cond.z) == 'unsat':
                raise self.C.PathDone()
        elif isinstance(cond, (bool, self.F.realnp.bool_)):
            if not cond:
                raise self.C.PathDone()
        else:
            self.assume(cond != 0)

    def _zcond(self, cond):
        import z3
        if isinstance(cond, self.N.SymBool):
            return cond.z
        if isinstance(cond, (bool, self.F.realnp.bool_)):
            return z3.BoolVal(bool(cond))
        if isinstance(cond, self.F.realnp.ndarray):
            return z3.And(*[self._zcond(c) for c in cond.flat])
        return self._zcond(cond != 0)

    def check(self, cond, label):
        import z3
        zcond = self._zcond(cond)
        self.record.obligation(self.path, label, z3.Not(zcond))

    def equal(self, left, right, label):
        import z3
        pairs = self._pairs(left, right)
        if pairs is None:
            self.record.obligation(self.path, label + ' (shapes)', z3.BoolVal(True))
            return
        diffs = []
        for a, b in pairs:
            la, lb = self.N.Num.lift(a), self.N.Num.lift(b)
            if la is None or lb is None:
                diffs.append(z3.BoolVal(not (a is b or a == b)))
                continue
            for pa, pb in ((la.re, lb.re), (la.im, lb.im)):
                if not pa.t and not pb.t:
                    continue
                pa, pb = self.N.refreshedPair(pa, pb)
                if pa == pb:
                    if any(e < 0 for m in pa.t for _, e in m):
                        pa, den = self.P.cleared(pa)
                        pb = pa
                    diffs.append(self.P.toZ3(pa) != self.P.toZ3(pb))
                    continue
                res = self.N.cmpZero(pa-pb, '!=')
                diffs.append(z3.BoolVal(res) if isinstance(res, bool) else res)
        cond = z3.Or(*diffs) if diffs else z3.BoolVal(False)
        self.record.obligation(self.path, label, cond, len(pairs))

    def _pairs(self, left, right):
        if isinstance(left, (list, tuple)) and isinstance(right, (list, tuple)):
            if len(left) != len(right):
                return None
            out = []
            for a, b in zip(left, right):
                sub = self._pairs(a, b)
                if sub is None:
                    return None
                out.extend(sub)
            return out
        left, right = self._dense(left), self._dense(right)
        arrL = isinstance(left, self.F.realnp.ndarray)
        arrR = isinstance(right, self.F.realnp.ndarray)
        if arrL or arrR:
            if not (arrL and arrR):
                if arrL and left.size == 1:
                    return [(left.item(), right)]
                if arrR and right.size == 1:
                    return [(left, right.item())]
                return None
            if left.shape != right.shape:
                return None
            return list(zip(left.flat, right.flat))
        return [(left, right)]

    def _dense(self, val):
        return val.toarray() if self.F.issparse(val) else val

    def isreal(self, val, label):
        self.equal(self.N.Num.lift(val).imag, 0, label)

    def fail(self, label):
        self.check(False, label)

    def raises(self, excs, func, label):
        try:
            func()
        except excs:
            self.check(True, label)
            return
        self.check(False, label)

    def eigRankOne(self):
        """from here on the eigensolver also accepts matrices of rank one: their trace and zeros, in any order"""
        def hook(mat):
            mat = self._dense(mat)
            dim = mat.shape[0]
            for i in range(dim-1):
                for j in range(dim-1):
                    for k in range(i+1, dim):
                        for m in range(j+1, dim):
                            minor = self.N.Num.lift(mat[i, j]*mat[k, m] - mat[i, m]*mat[k, j])
                            if minor.re.t or minor.im.t:
                                raise self.P.Inconclusive('eigen-decomposition of a matrix of higher rank')
            where = self.choice('eigPlace', list(range(dim)))
            tot = 0
            for i in range(dim):
                tot = tot + mat[i, i]
            return self.F.mkArray([tot if i == where else 0 for i in range(dim)]), self.F.NUMPY.eye(dim)
        self.F.EIG['hook'] = hook

    # ---- exact functions for oracles
    def sqrt(self, val):
        return self.N.sqrt(val)

    def exp(self, val):
        return self.N.exp(val)

    def log(self, val):
        return self.N.log(val)

    def cos(self, val):
        return self.N.cos(val)

    def sin(self, val):
        return self.N.sin(val)

    def expm(self, mat):
        return self.F.A.expm(mat)

    def frac(self, a, b):
        return self.N.Num.lift(a)/b


def _num(val):
    return None if val is None else float(val)


class ReplayContext(Base):
    symbolic = False

    def __init__(self, values, rng=None, kinds=None):
        import numpy
        import scipy.sparse
        self.values = dict(values)
        self.rng = rng
        self.kinds = kinds or {}
        self.used = {}
        self.np = numpy
        self.sp = scipy.sparse
        self.pi = numpy.pi
        self.failures = []
        self.checks = 0

    def _get(self, name, kind, lo=None, hi=None, nonzero=False, positive=False):
        if self.rng is not None and kind == 'real':
            val = None
        else:
            val = self.values.get(name)
        if val is None:
            rng = self.rng or random.Random(name)
            if kind == 'int':
                low = lo if lo is not None else -3
                high = hi if hi is not None else low + 6
                val = rng.randint(low, high)
            else:
                low = lo if lo is not None else (0.05 if positive else -2.0)
                high = hi if hi is not None else max(low, 0) + 2.0
                val = round(rng.uniform(low, high), 4)
                if (nonzero or positive) and val == 0:
                    val = 0.5
        self.used[name] = val
        return val

    def int(self, name, lo, hi):
        return int(self._get(name, 'int', lo, hi))

    def real(self, name, lo=None, hi=None, nonzero=False, positive=False):
        val = float(self._get(name, 'real', lo, hi, nonzero, positive))
        if (lo is not None and val < lo) or (hi is not None and val > hi) or (nonzero and val == 0) or \
                (positive and val <= 0):
            raise Discard()
        return self.np.float64(val)

    def complex(self, name):
        return self.np.complex128(complex(self._get(name + '.re', 'real'), self._get(name + '.im', 'real')))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name, 'int', 0, len(options)-1))]

    def bool(self, name):
        return self.choice(name, [False, True])

    def cdense(self, rows):
        return self.np.array(rows, dtype=complex)

    def text(self, numpy=False):
        self.numpyText = numpy

    def scalar(self, val):
        if self.numpyText:
            return self.np.int64(val) if isinstance(val, int) else val
        return val.item() if isinstance(val, self.np.generic) else val

    def pick(self, num):
        return int(num)

    def assume(self, cond):
        if not bool(cond):
            raise Discard()

    def check(self, cond, label):
        self.checks += 1
        if isinstance(cond, self.np.ndarray):
            cond = bool(cond.all())
        if not bool(cond):
            self.failures.append(label)

    def equal(self, left, right, label):
        self.checks += 1
        res = self._cmp(left, right)
        if res is not None:
            self.failures.append(f'{label}: {res}')

    def _cmp(self, left, right):
        np = self.np
        if isinstance(left, (list, tuple)) and isinstance(right, (list, tuple)):
            if len(left) != len(right):
                return f'lengths {len(left)} and {len(right)}'
            for i, (a, b) in enumerate(zip(left, right)):
                res = self._cmp(a, b)
                if res is not None:
                    return f'item {i}: {res}'
            return None
        if self.issparse(left):
            left = left.toarray()
        if self.issparse(right):
            right = right.toarray()
        try:
            arrL, arrR = np.asarray(left, dtype=complex), np.asarray(right, dtype=complex)
        except (TypeError, ValueError):
            return None if (left is right or left == right) else f'{left!r} is not {right!r}'
        if arrL.shape != arrR.shape and not (arrL.size == 1 and arrR.size == 1):
            return f'shapes {arrL.shape} and {arrR.shape}'
        if arrL.size == 0:
            return None
        arrL, arrR = arrL.ravel(), arrR.ravel()
        scale = 1 + max(np.abs(arrL).max(), np.abs(arrR).max())
        diff = np.abs(arrL - arrR)
        if np.isnan(diff).any():
            return 'nan'
        if not diff.max() <= 1e-6*scale:
            where = int(diff.argmax())
            return f'entry {where}: {arrL[where]} vs {arrR[where]}'
        return None

    def isreal(self, val, label):
        self.equal(complex(val).imag, 0, label)

    def fail(self, label):
        self.check(False, label)

    def raises(self, excs, func, label):
        try:
            func()
        except excs:
            self.check(True, label)
            return
        self.check(False, label)

    def eigRankOne(self):
        pass

    def sqrt(self, val):
        return self.np.sqrt(val)

    def exp(self, val):
        return self.np.exp(val)

    def log(self, val):
        return self.np.log(val)

    def cos(self, val):
        return self.np.cos(val)

    def sin(self, val):
        return self.np.sin(val)

    def expm(self, mat):
        import scipy.linalg
        import scipy.sparse.linalg
        return scipy.sparse.linalg.expm(mat.tocsc()) if self.issparse(mat) else scipy.linalg.expm(mat)

    def frac(self, a, b):
        return a/b
