"""What the code under test sees when it imports numpy, scipy or math: the library's documented behaviour on exact
symbolic entries.  Everything not listed here falls through to the real library."""
import builtins
import cmath as realcmath
import math as realmath
import numbers
import operator
import types
from fractions import Fraction
import numpy as realnp
import scipy as realscipy
import scipy.sparse as realsp
import scipy.sparse.linalg as realspl
import scipy.linalg as realla
import scipy.special as realspecial
import scipy.constants as realconst
from . import arrays as A
from . import num as N
from .arrays import SymArray, SymSparse, mkArray, elementwise, wrap
from .num import Num, SymBool
from .poly import Inconclusive


def symbolic(val, depth=0):
    """does val contain symbolic entries?"""
    if isinstance(val, (Num, SymBool, SymArray, SymSparse)):
        return True
    if isinstance(val, (list, tuple)) and depth < 4:
        return any(symbolic(v, depth+1) for v in val)
    return False


class Facade(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over
        for key, val in over.items():
            self.__dict__[key] = val

    def __getattr__(self, key):
        if key.startswith('__') and key not in ('__version__', '__all__'):
            raise AttributeError(key)
        return getattr(self._real, key)


# ------------------------------------------------------------------ numpy

def scalarOrArray(func):
    def call(val, *args, **kwargs):
        if isinstance(val, SymSparse):
            return val._map(lambda v: func(v))
        if isinstance(val, realnp.ndarray):
            if val.ndim == 0:
                return func(val.item())
            return elementwise(func, mkArray(val, copy=False))
        if isinstance(val, (list, tuple)):
            return elementwise(func, mkArray(val))
        return func(val)
    return call


def npArray(val, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    if N.TEXT['on'] and dtype is not None and isinstance(val, (list, tuple)) and \
            all(isinstance(v, str) for v in val) and realnp.dtype(_realType(dtype)).kind in 'iufc':
        conv = {'i': symint, 'u': symint, 'f': symfloat, 'c': symcomplex}[realnp.dtype(_realType(dtype)).kind]
        res = mkArray([conv(v) for v in val])
    elif isinstance(val, (list, tuple, range)) and dtype is None and _intList(val):
        res = A.intArray(realnp.array(val))
    elif isinstance(val, realnp.ndarray) and not isinstance(val, SymArray) and val.dtype.kind in 'iubUS' \
            and dtype is None:
        res = A.intArray(realnp.array(val))
    elif dtype is not None and _isIndexType(dtype) and not _hasNum(val):
        res = A.intArray(realnp.array(val, dtype=dtype))
    elif isinstance(val, (str, bytes)) or (isinstance(val, (list, tuple)) and any(isinstance(v, str) for v in val)):
        return realnp.array(val)
    elif isinstance(val, (list, tuple)) and val and all(isinstance(v, SymSparse) for v in val):
        box = realnp.empty(len(val), dtype=object)
        for i, v in enumerate(val):
            box[i] = v
        return box
    elif isinstance(val, types.GeneratorType):
        return realnp.array(val, dtype=object)
    else:
        res = mkArray(val, dtype)
    while res.ndim < ndmin:
        res = res.reshape((1,)+res.shape)
    return res


def _realType(dtype):
    return {symint: int, symfloat: float, symcomplex: complex}.get(dtype, dtype) if isinstance(dtype, type) else dtype


def _isIndexType(dtype):
    try:
        return realnp.dtype(dtype).kind in 'iub'
    except TypeError:
        return False


def _hasNum(val):
    if isinstance(val, Num):
        return True
    if isinstance(val, SymArray):
        return any(isinstance(v, Num) for v in val.flat)
    if isinstance(val, (list, tuple)):
        return any(_hasNum(v) for v in val)
    return False


def _intList(val):
    """plain nested lists of Python integers stay machine integers: they are index material"""
    for item in val:
        if isinstance(item, (list, tuple, range)):
            if not _intList(item):
                return False
        elif isinstance(item, realnp.ndarray):
            if isinstance(item, SymArray) or item.dtype.kind not in 'iub':
                return False
        elif not isinstance(item, (int, realnp.integer)) or isinstance(item, Num):
            return False
    return True


def _filled(value):
    def make(shape, dtype=None, order='C', **kw):
        shape = tuple(int(s) for s in shape) if isinstance(shape, (tuple, list, realnp.ndarray)) else (int(shape),)
        if dtype is not None and _isIndexType(dtype):
            return realnp.full(shape, int(value), dtype=dtype)
        arr = realnp.empty(shape, dtype=object)
        arr[...] = value
        return arr.view(SymArray)
    return make


def npFull(shape, fill, dtype=None, **kw):
    return _filled(A.entry(fill))(shape)


def _like(value):
    def make(arr, dtype=None, **kw):
        return _filled(value)(realnp.shape(arr) if not isinstance(arr, SymSparse) else arr.shape)
    return make


def npEye(n, m=None, k=0, dtype=None, **kw):
    return A.eye(n, m, k).toarray()


def npArange(*args, **kwargs):
    args = [a.item() if isinstance(a, realnp.ndarray) and a.ndim == 0 else a for a in args]
    args = [int(a) if isinstance(a, Num) and a.kind == 0 else a for a in args]
    if all(isinstance(a, (int, realnp.integer)) for a in args) and not kwargs.get('dtype'):
        return A.intArray(realnp.arange(*args))
    start, stop, step = {1: lambda: (0, args[0], 1), 2: lambda: (args[0], args[1], 1), 3: lambda: tuple(args)}[
        len(args)]()
    start, stop, step = [Num.lift(v) for v in (start, stop, step)]
    count = -N.toInt(N.floor(-((stop-start)/step)))
    count = int(count) if isinstance(count, Num) else count
    return mkArray([start + k*step for k in range(max(0, count))])


def npLinspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    start, stop = Num.lift(start), Num.lift(stop)
    div = num-1 if endpoint else num
    step = (stop-start)/div if div > 0 else None
    res = mkArray([start + k*step if k else start for k in range(num)])
    return (res, step) if retstep else res


def npLogspace(start, stop, num=50, endpoint=True, base=10.0, **kw):
    return mkArray([Num.lift(base)**v for v in npLinspace(start, stop, num, endpoint)])


def npReal(val):
    if isinstance(val, (list, tuple)):
        val = mkArray(val)
    return val.real


def npImag(val):
    if isinstance(val, (list, tuple)):
        val = mkArray(val)
    return val.imag


def npConj(val):
    if isinstance(val, (list, tuple)):
        val = mkArray(val)
    return val.conjugate() if hasattr(val, 'conjugate') else val.conj()


def npRound(val, decimals=0, out=None):
    return scalarOrArray(lambda v: N.npround(v, decimals))(val)


def npSum(val, axis=None, **kw):
    if isinstance(val, (list, tuple)):
        if val and isinstance(val[0], SymSparse):
            return builtins.sum(val[1:], val[0])
        val = npArray(val)
    if isinstance(val, types.GeneratorType):
        return builtins.sum(val)
    if isinstance(val, SymSparse):
        return val.sum(axis)
    if isinstance(val, (Num, int, float, complex)):
        return val
    if isinstance(val, SymArray):
        return val.sum(axis=axis, **kw)
    return realnp.sum(val, axis=axis, **kw)


def npProd(val, axis=None, **kw):
    if isinstance(val, (list, tuple)):
        val = npArray(val) if len(val) else realnp.ones(0)
        if val.size == 0:
            return 1
    if isinstance(val, SymArray):
        return val.prod(axis=axis)
    res = realnp.prod(val, axis=axis, **kw)
    return int(res) if isinstance(res, realnp.integer) or isinstance(res, A.IntArray) and res.ndim == 0 else res


def npPower(base, exp):
    if isinstance(base, (list, tuple)):
        base = mkArray(base)
    return base**exp if isinstance(base, (realnp.ndarray, SymSparse)) else Num.lift(base)**exp


def npTrace(val, *a, **k):
    return val.diagonal().sum() if not isinstance(val, (list, tuple)) else mkArray(val).diagonal().sum()


def npShape(val):
    if isinstance(val, SymSparse):
        return val.shape
    if isinstance(val, Num):
        return ()
    if isinstance(val, (list, tuple)):
        return realnp.array(A._plain(val), dtype=object).shape
    return realnp.shape(val)


def npDot(a, b):
    if isinstance(a, SymSparse) or isinstance(b, SymSparse):
        return a @ b
    a, b = mkArray(a, copy=False), mkArray(b, copy=False)
    if a.ndim == 0 or b.ndim == 0:
        return a*b
    return A.matmul(a, b)


def npKron(a, b):
    if isinstance(a, SymSparse):
        a = a.toarray()
    if isinstance(b, SymSparse):
        b = b.toarray()
    a, b = mkArray(a, copy=False), mkArray(b, copy=False)
    if a.ndim == 2 and b.ndim == 2:
        return A.kron(a, b).toarray()
    return wrap(realnp.kron(realnp.asarray(a), realnp.asarray(b)))


def npOuter(a, b):
    a, b = mkArray(a, copy=False).ravel(), mkArray(b, copy=False).ravel()
    return a.reshape(-1, 1)*b.reshape(1, -1)


def npVdot(a, b):
    a, b = mkArray(a, copy=False).ravel(), mkArray(b, copy=False).ravel()
    return A.matmul(a.conj(), b)


def npEinsum(*args, **kwargs):
    kwargs.pop('optimize', None)
    ops = []
    if isinstance(args[0], str):
        return wrap(realnp.einsum(args[0], *[realnp.asarray(mkArray(a, copy=False)) for a in args[1:]], **kwargs))
    for i, arg in enumerate(args):
        if i % 2 == 0 and i < len(args) - (len(args) % 2):
            ops.append(realnp.asarray(mkArray(arg, copy=False)))
        else:
            ops.append(arg)
    return wrap(realnp.einsum(*ops, **kwargs))


def npIsclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    """comparison up to a tolerance is modelled as equality"""
    def close(x, y):
        return Num.lift(x) == Num.lift(y)
    if isinstance(a, SymSparse):
        a = a.toarray()
    if isinstance(b, SymSparse):
        b = b.toarray()
    if isinstance(a, (realnp.ndarray, list, tuple)) or isinstance(b, (realnp.ndarray, list, tuple)):
        a, b = realnp.broadcast_arrays(realnp.asarray(mkArray(a)), realnp.asarray(mkArray(b)))
        return elementwise(close, a, b)
    return close(a, b)


def npAllclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    res = npIsclose(a, b)
    return all(bool(v) for v in res.flat) if isinstance(res, realnp.ndarray) else bool(res)


def npAbs(val):
    return scalarOrArray(lambda v: abs(v))(val)


def npArgsort(val, *a, **k):
    return mkArray(val, copy=False).argsort() if not (isinstance(val, realnp.ndarray) and val.dtype != object) \
        else realnp.argsort(val, *a, **k)


def npSort(val, *a, **k):
    arr = mkArray(val)
    return arr[arr.argsort()]


def npWhere(cond, *args):
    if isinstance(cond, realnp.ndarray) and cond.dtype == object:
        cond = realnp.array([bool(c) for c in cond.flat]).reshape(cond.shape)
    if not args:
        return realnp.where(cond)
    if isinstance(cond, (bool, SymBool)):
        return args[0] if cond else args[1]
    a, b = [realnp.asarray(mkArray(v)) for v in args]
    return wrap(realnp.where(cond, a, b))


def npAngle(val, deg=False):
    raise Inconclusive('np.angle')


def npMax(val, *a, **k):
    if symbolic(val):
        return max(mkArray(val).flat)
    return realnp.max(val, *a, **k)


def npMin(val, *a, **k):
    if symbolic(val):
        return min(mkArray(val).flat)
    return realnp.min(val, *a, **k)


def npIsreal(val):
    return scalarOrArray(lambda v: Num.lift(v).imag == 0)(val)


def npMatrixPower(mat, n):
    res = npEye(mat.shape[0])
    for _ in range(int(n)):
        res = res @ mat
    return res


def npIsscalar(val):
    return True if isinstance(val, Num) else realnp.isscalar(val)


def npAppend(arr, vals, axis=None):
    if symbolic(arr) or symbolic(vals):
        return wrap(realnp.append(realnp.asarray(mkArray(arr)), realnp.asarray(mkArray(vals)), axis=axis))
    return realnp.append(arr, vals, axis=axis)


class binop:
    """a binary ufunc: func on symbolic operands, the real one on the rest"""

    def __init__(self, func, real):
        self.func, self.real = func, real

    def __call__(self, a, b, **kw):
        if symbolic(a) or symbolic(b):
            return self.func(mkArray(a) if isinstance(a, (list, tuple)) else a,
                             mkArray(b) if isinstance(b, (list, tuple)) else b)
        return self.real(a, b, **kw)

    def outer(self, a, b):
        if not (symbolic(a) or symbolic(b)):
            return self.real.outer(a, b)
        a, b = mkArray(a), mkArray(b)
        return self(a.reshape(a.shape + (1,)*len(b.shape)), b.reshape((1,)*len(a.shape) + b.shape))

    def reduce(self, a, axis=0, **kw):
        if not symbolic(a):
            return self.real.reduce(a, axis=axis, **kw)
        if kw:
            raise Inconclusive('reduce with ' + ', '.join(kw))
        a = mkArray(a)
        if axis is None:
            a, axis = a.ravel(), 0
        parts = [a[(slice(None),)*axis + (k,)] for k in range(a.shape[axis])]
        if not parts:
            return self.real.identity
        out = parts[0]
        for part in parts[1:]:
            out = self(out, part)
        return out


def _deobj(func):
    """structural numpy functions on lists that contain symbolic entries"""
    def call(val, *args, **kw):
        if isinstance(val, (list, tuple)) and symbolic(val):
            val = [mkArray(v) if isinstance(v, (list, tuple)) else v for v in val]
            val = [v.toarray() if isinstance(v, SymSparse) else v for v in val]
        return wrap(func(val, *args, **kw))
    return call


def npAsarray(val, dtype=None, *a, **k):
    if isinstance(val, realnp.ndarray) and dtype is None:
        return val if val.dtype.kind not in 'fc' else mkArray(val)
    return npArray(val, dtype)


def npConstBool(value):
    """entries are never NaN or infinite"""
    def call(val, *args, **kwargs):
        if isinstance(val, Num):
            return value
        if isinstance(val, SymSparse) or _hasNum(val) or (isinstance(val, realnp.ndarray) and val.dtype == object):
            return realnp.full(realnp.shape(val), value)
        return realnp.isfinite(val) if value else ~realnp.isfinite(val)
    return call


def npIscomplexobj(val):
    if isinstance(val, Num):
        return val.kind == 2
    if isinstance(val, SymSparse):
        val = val.toarray()
    if isinstance(val, (SymArray, list, tuple)):
        return any(npIscomplexobj(v) for v in (val.flat if isinstance(val, SymArray) else val))
    return realnp.iscomplexobj(val)


def npAllAny(real):
    def call(val, axis=None, **kwargs):
        if isinstance(val, types.GeneratorType):
            return val
        if isinstance(val, SymSparse):
            val = val.toarray()
        arr = realnp.asarray(val)
        if arr.dtype == object:
            arr = realnp.array([bool(v) for v in arr.flat]).reshape(arr.shape)
        return real(arr, axis=axis, **kwargs)
    return call


def npAtleast2d(val):
    return realnp.atleast_2d(mkArray(val, copy=False))


class LinAlgFacade(Facade):
    pass


def npNorm(val, ord=None, axis=None, **kw):
    if isinstance(val, SymSparse):
        val = val.toarray()
    arr = mkArray(val, copy=False)
    if axis is not None or ord not in (None, 'fro', 2) or (ord == 2 and 1 not in arr.shape and arr.ndim != 1):
        raise Inconclusive('this norm')
    acc = 0
    for v in arr.flat:
        acc = acc + (Num.lift(v)*Num.lift(v).conjugate()).real
    return N.sqrt(acc)


EIG = {'hook': None}


def eig(mat, *args, **kwargs):
    """an uninterpreted eigensolver: diagonal matrices give their diagonal, any other matrix goes to the harness"""
    shape, d = A.toDict(mat)
    if all(i == j for i, j in d):
        vals = mkArray([d.get((i, i), 0) for i in range(shape[0])])
        return vals, npEye(shape[0])
    if EIG['hook'] is not None:
        return EIG['hook'](mat)
    raise Inconclusive('eigen-decomposition of a non-diagonal symbolic matrix')


def eigvals(mat, *args, **kwargs):
    return eig(mat)[0]


def sqrtm(mat, *args, **kwargs):
    shape, d = A.toDict(mat)
    if all(i == j for i, j in d):
        out = _filled(0)(shape)
        for (i, j), v in d.items():
            out[i, j] = N.sqrt(v)
        return out
    raise Inconclusive('matrix square root of a non-diagonal symbolic matrix')


def det(mat):
    """by Laplace expansion"""
    arr = mkArray(mat.toarray() if isinstance(mat, SymSparse) else mat, copy=False)
    if arr.ndim != 2 or arr.shape[0] != arr.shape[1]:
        raise realnp.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    if arr.shape[0] > 5:
        raise Inconclusive('determinant of a large matrix')
    return _laplace([list(row) for row in arr])


def _laplace(rows):
    if not rows:
        return Num.lift(1)
    out = Num.lift(0)
    for k, val in enumerate(rows[0]):
        out = out + (-1)**k*Num.lift(val)*_laplace([row[:k] + row[k+1:] for row in rows[1:]])
    return out


def inv(mat):
    """the adjugate over the determinant"""
    arr = mkArray(mat.toarray() if isinstance(mat, SymSparse) else mat, copy=False)
    dmt = det(arr)
    if dmt == 0:
        raise realnp.linalg.LinAlgError('Singular matrix')
    rows = [list(row) for row in arr]
    dim = len(rows)
    out = _filled(0)((dim, dim))
    for i in range(dim):
        for j in range(dim):
            minor = [row[:i] + row[i+1:] for k, row in enumerate(rows) if k != j]
            out[i, j] = (-1)**(i+j)*_laplace(minor)/dmt
    return type(mat)(out) if isinstance(mat, SymSparse) else out


def solve(mat, rhs):
    return inv(mat.toarray() if isinstance(mat, SymSparse) else mat) @ \
        mkArray(rhs.toarray() if isinstance(rhs, SymSparse) else rhs, copy=False)


def triangle(keep):
    def call(mat, k=0, format=None):
        shape, entries = A.toDict(mat)
        out = _filled(0)(shape)
        for (i, j), val in entries.items():
            if keep(j - i, k):
                out[i, j] = val
        return A.CLASSES[format or 'coo'](out)
    return call


def spFind(mat):
    _, entries = A.toDict(mat)
    keys = sorted(entries)
    return (realnp.array([i for i, _ in keys]), realnp.array([j for _, j in keys]), mkArray([entries[k] for k in keys]))


def factorial(n, exact=False):
    if isinstance(n, Num):
        n = int(n)
    if isinstance(n, (list, realnp.ndarray)):
        return mkArray([realmath.factorial(int(v)) for v in realnp.ravel(n)]).reshape(realnp.shape(n))
    return realmath.factorial(int(n))


def gamma(val):
    """exactly, at integers and half-integers"""
    val = Fraction(Num.lift(val).re.constVal()) if isinstance(val, Num) else Fraction(val)
    if val.denominator == 1 and val > 0:
        return Num.lift(realmath.factorial(int(val)-1))
    if val.denominator == 2 and val > 0:
        num = int(val - Fraction(1, 2))
        return N.sqrt(N.PI())*Num.lift(Fraction(realmath.factorial(2*num), 4**num*realmath.factorial(num)))
    raise Inconclusive('this gamma function')


def gammaln(val):
    if isinstance(val, Num) and not val.re.isConst():
        if val.kind != 0:
            raise Inconclusive('gamma function of a symbolic number')
        val = int(val)
    return N.log(gamma(val))


NPLINALG = Facade('numpy.linalg', realnp.linalg, {
    'eig': eig, 'eigvals': eigvals, 'eigh': eig, 'norm': npNorm, 'matrix_power': npMatrixPower, 'inv': inv,
    'det': det, 'solve': solve})


class _FloatLike:
    pass


NUMPY = Facade('numpy', realnp, {
    'array': npArray, 'asarray': npAsarray, 'asanyarray': npAsarray,
    'zeros': _filled(0), 'ones': _filled(1), 'empty': _filled(0), 'full': npFull,
    'zeros_like': _like(0), 'ones_like': _like(1), 'empty_like': _like(0),
    'eye': npEye, 'identity': npEye, 'arange': npArange, 'linspace': npLinspace, 'logspace': npLogspace,
    'sqrt': scalarOrArray(N.sqrt), 'exp': scalarOrArray(N.exp), 'cos': scalarOrArray(N.cos),
    'sin': scalarOrArray(N.sin), 'tan': scalarOrArray(N.tan), 'cosh': scalarOrArray(N.cosh),
    'sinh': scalarOrArray(N.sinh), 'tanh': scalarOrArray(N.tanh), 'log': scalarOrArray(N.log),
    'log2': scalarOrArray(lambda v: N.log(v)/N.log(2)), 'log10': scalarOrArray(lambda v: N.log(v)/N.log(10)),
    'floor': scalarOrArray(lambda v: N.floor(Num.lift(v))), 'ceil': scalarOrArray(lambda v: -N.floor(-Num.lift(v))),
    'rint': scalarOrArray(lambda v: N.npround(v, 0)), 'trunc': scalarOrArray(lambda v: N.toInt(Num.lift(v))),
    'square': scalarOrArray(lambda v: Num.lift(v)**2), 'sign': scalarOrArray(lambda v: 0 if v == 0 else
                                                                             (1 if v > 0 else -1)),
    'real': npReal, 'imag': npImag, 'conj': npConj, 'conjugate': npConj, 'round': npRound, 'around': npRound,
    'round_': npRound, 'abs': npAbs, 'absolute': npAbs, 'fabs': npAbs, 'sum': npSum, 'prod': npProd, 'power': npPower,
    'trace': npTrace, 'shape': npShape, 'dot': npDot, 'matmul': npDot, 'kron': npKron, 'outer': npOuter,
    'vdot': npVdot, 'inner': npDot, 'einsum': npEinsum, 'isclose': npIsclose, 'allclose': npAllclose,
    'array_equal': npAllclose, 'argsort': npArgsort, 'sort': npSort, 'where': npWhere, 'angle': npAngle,
    'max': npMax, 'amax': npMax, 'min': npMin, 'amin': npMin, 'isreal': npIsreal, 'isscalar': npIsscalar,
    'append': npAppend, 'linalg': NPLINALG,
    'multiply': binop(lambda a, b: a*b, realnp.multiply), 'add': binop(lambda a, b: a+b, realnp.add),
    'subtract': binop(lambda a, b: a-b, realnp.subtract), 'divide': binop(lambda a, b: a/b, realnp.divide),
    'true_divide': binop(lambda a, b: a/b, realnp.divide), 'mod': binop(lambda a, b: a % b, realnp.mod),
    'hstack': _deobj(realnp.hstack), 'vstack': _deobj(realnp.vstack), 'concatenate': _deobj(realnp.concatenate),
    'stack': _deobj(realnp.stack), 'diag': _deobj(realnp.diag), 'atleast_2d': npAtleast2d,
    'isnan': npConstBool(False), 'isfinite': npConstBool(True), 'isinf': npConstBool(False),
    'iscomplexobj': npIscomplexobj, 'all': npAllAny(realnp.all), 'any': npAllAny(realnp.any),
    'mean': lambda v, **k: mkArray(v, copy=False).mean(**k),
})


def lazyPi(name, value):
    pass


# ------------------------------------------------------------------ scipy

def issparse(val):
    return isinstance(val, SymSparse) or realsp.issparse(val)


def splExpm(mat):
    return A.expm(mat)


SPLINALG = Facade('scipy.sparse.linalg', realspl, {'expm': splExpm, 'norm': npNorm, 'inv': inv,
                                                   'eigs': eig, 'eigsh': eig})
SPARSE = Facade('scipy.sparse', realsp, dict(
    [(f'{f}_matrix', c) for f, c in A.CLASSES.items()] + [(f'{f}_array', c) for f, c in A.ARRCLASSES.items()],
    spmatrix=SymSparse, sparray=SymSparse, issparse=issparse, isspmatrix=issparse,
    isspmatrix_csc=lambda v: isinstance(v, SymSparse) and v.format == 'csc',
    isspmatrix_csr=lambda v: isinstance(v, SymSparse) and v.format == 'csr',
    tril=triangle(lambda off, k: off <= k), triu=triangle(lambda off, k: off >= k), find=spFind,
    kron=A.kron, identity=A.identity, eye=A.eye, diags=A.diags, bmat=A.bmat, linalg=SPLINALG,
    vstack=lambda b, format=None, dtype=None: A.bmat([[v] for v in b], format),
    hstack=lambda b, format=None, dtype=None: A.bmat([list(b)], format),
    block_diag=lambda mats, format=None, dtype=None: A.bmat(
        [[m if i == j else None for j, m in enumerate(mats)] for i in range(len(mats))], format)))
LINALG = Facade('scipy.linalg', realla, {'expm': lambda m: A.expm(m), 'eig': eig, 'eigvals': eigvals, 'eigh': eig,
                                         'sqrtm': sqrtm, 'norm': npNorm, 'inv': inv, 'kron': npKron,
                                         'det': det, 'solve': solve})
SPECIAL = Facade('scipy.special', realspecial, {'factorial': factorial, 'gamma': scalarOrArray(gamma),
                                                 'gammaln': scalarOrArray(gammaln)})
CONSTANTS = Facade('scipy.constants', realconst, {})
SCIPY = Facade('scipy', realscipy, {'sparse': SPARSE, 'linalg': LINALG, 'special': SPECIAL, 'constants': CONSTANTS})
CMATH = Facade('cmath', realcmath, {
    'sqrt': N.sqrt, 'exp': N.exp, 'cos': N.cos, 'sin': N.sin, 'log': N.log, 'cosh': N.cosh, 'sinh': N.sinh, 'tanh': N.tanh,
    'tan': N.tan, 'isclose': npIsclose, 'phase': npAngle,
    'rect': lambda r, phi: Num.lift(r)*N.exp(Num.lift(phi)*1j), 'isnan': lambda v: False, 'isfinite': lambda v: True})
MATH = Facade('math', realmath, {
    'sqrt': N.sqrt, 'exp': N.exp, 'cos': N.cos, 'sin': N.sin, 'log': N.log, 'floor': lambda v: N.floor(Num.lift(v)),
    'ceil': lambda v: -N.floor(-Num.lift(v)), 'fabs': abs, 'isclose': npIsclose, 'pow': lambda a, b: Num.lift(a)**b,
    'trunc': lambda v: N.toInt(Num.lift(v)), 'prod': lambda v: npProd(list(v)), 'factorial': factorial, 'gamma': gamma, 'lgamma': gammaln,
    'cosh': N.cosh, 'sinh': N.sinh, 'tanh': N.tanh, 'tan': N.tan})

MODULES = {'numpy': NUMPY, 'numpy.linalg': NPLINALG, 'scipy': SCIPY, 'scipy.sparse': SPARSE,
           'scipy.sparse.linalg': SPLINALG, 'scipy.linalg': LINALG, 'scipy.special': SPECIAL, 'math': MATH, 'cmath': CMATH,
           'scipy.constants': CONSTANTS}


def refreshPi():
    """the variable pi belongs to the current term space"""
    for mod in (NUMPY, MATH, SCIPY, CMATH, CONSTANTS):
        mod.__dict__['pi'] = N.PI()
    NUMPY.__dict__['e'] = N.exp(1)
    MATH.__dict__['e'] = N.exp(1)


# ------------------------------------------------------------------ builtins

class _NumMeta(type):
    def __instancecheck__(cls, obj):
        if isinstance(obj, cls._real):
            return True
        return cls._sym(obj)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, cls._real)

    def __eq__(cls, other):
        return other is cls or other is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, name):
        return getattr(cls._real, name)

    def __or__(cls, other):
        return cls._real | other


def _parse(val, kind, msg):
    """the number a written token stands for"""
    if not (N.TEXT['on'] and isinstance(val, str)):
        return val
    num = N.parsed(val)
    if num is None:
        return val
    if num.kind > kind:
        raise ValueError(f'{msg}: {val!r}')
    return num


def symIsinstance(obj, cls):
    """isinstance, with the abstract classes of numbers and the scalar classes of numpy for symbolic numbers"""
    if isinstance(obj, Num) and not isinstance(cls, tuple):
        kind = _ABSTRACT.get(cls) if isinstance(cls, type) else None
        if kind is not None:
            return obj.kind <= kind
        if isinstance(cls, type) and issubclass(cls, realnp.generic) and cls not in (symint, symfloat, symcomplex):
            scalar = (realnp.int64, realnp.float64, realnp.complex128)[obj.kind]
            return N.TEXT['numpy'] and issubclass(scalar, cls)
    if isinstance(obj, Num) and isinstance(cls, tuple):
        return any(symIsinstance(obj, one) for one in cls)
    return isinstance(obj, cls)


_ABSTRACT = {numbers.Number: 2, numbers.Complex: 2, numbers.Real: 1, numbers.Rational: 0, numbers.Integral: 0}


class symint(metaclass=_NumMeta):
    _real = int

    @staticmethod
    def _sym(obj):
        return isinstance(obj, Num) and obj.kind == 0 and not N.TEXT['numpy']

    def __new__(cls, val=0, *args):
        val = _parse(val, 0, 'invalid literal for int() with base 10')
        if isinstance(val, (Num, SymBool)):
            return N.toInt(val)
        if isinstance(val, realnp.ndarray) and val.dtype == object and val.size == 1:
            return N.toInt(Num.lift(val.item()))
        return int(val, *args)


class symfloat(metaclass=_NumMeta):
    _real = float

    @staticmethod
    def _sym(obj):
        return isinstance(obj, Num) and obj.kind == 1

    def __new__(cls, val=0.0):
        val = _parse(val, 1, 'could not convert string to float')
        if isinstance(val, Num):
            if val.kind == 2:
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            return Num(val.re, val.im, 1)
        if isinstance(val, realnp.ndarray) and val.dtype == object and val.size == 1:
            return symfloat(val.item())
        return float(val)


class symcomplex(metaclass=_NumMeta):
    _real = complex

    @staticmethod
    def _sym(obj):
        return isinstance(obj, Num) and obj.kind == 2

    def __new__(cls, rea=0, ima=0):
        rea = _parse(rea, 2, 'complex() arg is a malformed string')
        if isinstance(rea, Num) or isinstance(ima, Num):
            res = Num.lift(rea) + Num.lift(ima)*1j
            return Num(res.re, res.im, 2)
        return complex(rea, ima) if ima else complex(rea)


def _plainReal(val):
    return isinstance(val, (int, float, realnp.integer, realnp.floating)) and not isinstance(val, Num) and \
        not (isinstance(val, (float, realnp.floating)) and not realmath.isfinite(val))


def symDiv(a, b):
    """a / b in the code under test: the quotient of two plain numbers is exact"""
    if _plainReal(a) and _plainReal(b) and b != 0:
        return Num.lift(a)/Num.lift(b)
    return a / b


def symPow(a, b):
    if _plainReal(a) and _plainReal(b):
        if isinstance(a, (int, realnp.integer)) and isinstance(b, (int, realnp.integer)) and b >= 0:
            return a**b
        if Fraction(b).denominator <= 2 and a > 0:
            return Num.lift(a)**b
    return a**b


def symIdiv(a, b):
    """a /= b: arrays change in place"""
    return symDiv(a, b) if _plainReal(a) and _plainReal(b) else operator.itruediv(a, b)


def symIpow(a, b):
    return symPow(a, b) if _plainReal(a) and _plainReal(b) else operator.ipow(a, b)


def symPowMod(a, b, mod=None):
    return symPow(a, b) if mod is None else pow(a, b, mod)


OPERATOR = Facade('operator', operator, {'truediv': symDiv, 'pow': symPow, 'itruediv': symIdiv, 'ipow': symIpow})
MODULES['operator'] = OPERATOR


def symType(*args):
    """type(x) of a symbolic number is the Python type it stands for"""
    if len(args) == 1:
        if isinstance(args[0], Num):
            return (symint, symfloat, symcomplex)[args[0].kind]
        return type(args[0])
    return type(*args)
