"""Symbolic dense arrays (object ndarrays) and sparse matrices (dictionaries of exact entries)."""
import numpy as np
from . import num as N
from . import poly as P
from .num import Num, Num as _Num, SymBool
from .poly import Inconclusive, ZERO, SPACE


def entry(val):
    """an array element: exact"""
    if isinstance(val, (Num, SymBool)):
        return val
    if type(val) is int:
        return val
    num = Num.lift(val)
    return val if num is None else num.done()


def isZero(val):
    if isinstance(val, Num):
        return not val.re.t and not val.im.t
    return isinstance(val, (int, float, complex)) and val == 0


_PYFUNC = {}


def elementwise(func, *arrs):
    out = np.frompyfunc(func, len(arrs), 1)(*[np.asarray(a, dtype=object) if not isinstance(a, np.ndarray)
                                               else a for a in arrs])
    return wrap(out)


def wrap(res):
    if isinstance(res, np.ndarray):
        if res.dtype == object and not isinstance(res, SymArray):
            return res.view(SymArray)
        return res
    return res


class SymArray(np.ndarray):
    """object array whose elements are exact terms"""
    __array_priority__ = 4

    def __array_finalize__(self, obj):
        pass

    @property
    def real(self):
        return elementwise(lambda v: v.real, self)

    @real.setter
    def real(self, val):
        raise Inconclusive('assignment to .real')

    @property
    def imag(self):
        return elementwise(lambda v: v.imag, self)

    def conj(self):
        return elementwise(lambda v: v.conjugate(), self)
    conjugate = conj

    def astype(self, dtype, *_, **__):
        if dtype in (object, 'O'):
            return self.copy()
        kind = np.dtype(dtype).kind
        if kind in 'iu' and all(not isinstance(v, Num) or v.re.isConst() for v in self.flat):
            return intArray(np.array([int(v) for v in self.flat], dtype=int).reshape(self.shape))
        return elementwise(lambda v: N.castTo(v, dtype), self)

    def round(self, decimals=0, out=None):
        return elementwise(lambda v: N.npround(v, decimals), self)

    def sum(self, axis=None, dtype=None, out=None, **kw):
        return wrap(np.add.reduce(np.asarray(self).ravel() if axis is None else np.asarray(self),
                                  axis=0 if axis is None else axis, **kw))

    def prod(self, axis=None, **kw):
        return wrap(np.multiply.reduce(np.asarray(self).ravel() if axis is None else np.asarray(self),
                                       axis=0 if axis is None else axis))

    def mean(self, axis=None, **kw):
        count = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis)/count

    def dot(self, other):
        return self @ other

    def trace(self, *a, **k):
        return self.diagonal(*a, **k).sum()

    def max(self, *a, **k):
        return max(self.flat) if not a and not k else wrap(np.maximum.reduce(np.asarray(self), *a, **k))

    def min(self, *a, **k):
        return min(self.flat) if not a and not k else wrap(np.minimum.reduce(np.asarray(self), *a, **k))

    def argsort(self, axis=-1, kind=None, order=None):
        if self.ndim != 1:
            raise Inconclusive('argsort of a matrix')
        return argsort(list(self))

    def sort(self, *a, **k):
        idx = argsort(list(self))
        self[:] = self[idx]

    def any(self, *a, **k):
        return any(bool(v) for v in self.flat) if not a and not k else wrap(super().any(*a, **k))

    def all(self, *a, **k):
        return all(bool(v) for v in self.flat) if not a and not k else wrap(super().all(*a, **k))

    def nonzero(self):
        mask = np.array([bool(v != 0) for v in self.flat], dtype=bool).reshape(self.shape)
        return mask.nonzero()

    # element comparisons decide each element
    def _cmp(self, other, func):
        if isinstance(other, SymSparse):
            return NotImplemented
        return elementwise(func, self, other if isinstance(other, np.ndarray) else _obj(other)).view(SymArray)

    def __eq__(self, other):
        return self._cmp(other, lambda a, b: a == b)

    def __ne__(self, other):
        return self._cmp(other, lambda a, b: a != b)

    def __lt__(self, other):
        return self._cmp(other, lambda a, b: a < b)

    def __le__(self, other):
        return self._cmp(other, lambda a, b: a <= b)

    def __gt__(self, other):
        return self._cmp(other, lambda a, b: a > b)

    def __ge__(self, other):
        return self._cmp(other, lambda a, b: a >= b)
    __hash__ = None

    def __bool__(self):
        if self.size == 1:
            return bool(self.item())
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __getitem__(self, idx):
        if isinstance(idx, np.ndarray) and idx.dtype == object and idx.size:
            first = idx.flat[0]
            if isinstance(first, (bool, SymBool, np.bool_)):
                idx = np.array([bool(v) for v in idx.flat]).reshape(idx.shape)
            else:
                idx = np.array([int(v) for v in idx.flat]).reshape(idx.shape)
        return super().__getitem__(_conc(idx))

    def __setitem__(self, idx, val):
        if isinstance(idx, np.ndarray) and idx.dtype == object:
            idx = np.array([bool(v) for v in idx.flat]).reshape(idx.shape)
        if isinstance(val, SymSparse):
            val = val.toarray()
        if not isinstance(val, np.ndarray) and not isinstance(val, (list, tuple)):
            val = entry(val)
        super().__setitem__(_conc(idx), val)

    def __iadd__(self, other):
        return self + other

    # scalars
    def _scalar(self, other, func):
        return elementwise(func, self, _obj(other))

    def __mul__(self, other):
        if isinstance(other, SymSparse):
            return NotImplemented
        return _dense(self, other, lambda a, b: a*b)

    def __rmul__(self, other):
        return _dense(self, other, lambda a, b: b*a)

    def __add__(self, other):
        if isinstance(other, SymSparse):
            return NotImplemented
        return _dense(self, other, lambda a, b: a+b)

    def __radd__(self, other):
        return _dense(self, other, lambda a, b: b+a)

    def __sub__(self, other):
        if isinstance(other, SymSparse):
            return NotImplemented
        return _dense(self, other, lambda a, b: a-b)

    def __rsub__(self, other):
        return _dense(self, other, lambda a, b: b-a)

    def __truediv__(self, other):
        return _dense(self, other, lambda a, b: entry(a)/b if not isinstance(entry(a), int) else Num.lift(a)/b)

    def __rtruediv__(self, other):
        return _dense(self, other, lambda a, b: Num.lift(b)/a)

    def __pow__(self, other):
        return _dense(self, other, lambda a, b: a**b if isinstance(b, int) and isinstance(a, int) and b >= 0
                      else Num.lift(a)**b)

    def __imul__(self, other):
        self[...] = self*other
        return self

    def __isub__(self, other):
        return self - other

    def __itruediv__(self, other):
        self[...] = self/other
        return self

    def __matmul__(self, other):
        if isinstance(other, SymSparse):
            return NotImplemented
        return matmul(self, other)

    def __rmatmul__(self, other):
        if isinstance(other, SymSparse):
            return NotImplemented
        return matmul(other, self)

    def __neg__(self):
        return elementwise(lambda v: -v, self)

    def __abs__(self):
        return elementwise(abs, self)


def _intOther(val):
    return isinstance(val, (int, np.integer, np.bool_)) or \
        isinstance(val, np.ndarray) and val.dtype.kind in 'iub'


def _intOp(name, exact):
    base = getattr(np.ndarray, name)

    def call(self, other):
        if self.dtype.kind not in 'iub':
            return base(self, other)
        if _intOther(other) and exact(other):
            return base(self, other)
        if isinstance(other, SymSparse) or Num.lift(other) is None and not isinstance(other, (np.ndarray, list, tuple)):
            return base(self, other)
        return getattr(mkArray(self), name)(other)
    return call


class IntArray(np.ndarray):
    """machine integers (index material) that turn exact as soon as they meet anything else"""
    __array_priority__ = 3
    for _name in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__mod__', '__floordiv__'):
        locals()[_name] = _intOp(_name, lambda other: True)
    for _name in ('__truediv__', '__rtruediv__'):
        locals()[_name] = _intOp(_name, lambda other: False)
    __pow__ = _intOp('__pow__', lambda other: isinstance(other, (int, np.integer)) and other >= 0)

    def __array_finalize__(self, obj):
        pass

    def __imul__(self, other):
        return self*other

    def __iadd__(self, other):
        return self+other

    def __isub__(self, other):
        return self-other

    def __itruediv__(self, other):
        return self/other

    def __rpow__(self, other):
        return elementwise(lambda v: Num.lift(other)**v, mkArray(self))

    def astype(self, dtype, *a, **k):
        if np.dtype(dtype).kind in 'fc':
            return mkArray(self, dtype)
        return super().astype(dtype, *a, **k)

    def mean(self, *a, **k):
        return mkArray(self).mean(*a, **k)

    def __getitem__(self, idx):
        res = super().__getitem__(_conc(idx))
        return int(res) if isinstance(res, np.integer) else res

    def __iter__(self):
        if self.ndim == 1:
            return iter([int(v) for v in self.tolist()])
        return super().__iter__()


def intArray(arr):
    return arr.view(IntArray) if isinstance(arr, np.ndarray) and type(arr) is np.ndarray and \
        arr.dtype.kind in 'iu' else arr


def _conc(idx):
    if isinstance(idx, Num):
        return int(idx)
    if isinstance(idx, tuple):
        return tuple(_conc(i) for i in idx)
    if isinstance(idx, slice):
        return slice(*[int(v) if isinstance(v, Num) else v for v in (idx.start, idx.stop, idx.step)])
    if isinstance(idx, list):
        return [_conc(i) for i in idx]
    return idx


def _obj(val):
    if isinstance(val, (list, tuple)):
        return mkArray(val)
    box = np.empty((), dtype=object)
    box[()] = entry(val)
    return box


def _dense(arr, other, func):
    if isinstance(other, (list, tuple)):
        other = mkArray(other)
    if isinstance(other, np.ndarray):
        if other.dtype != object:
            other = mkArray(other)
        res = np.frompyfunc(func, 2, 1)(np.asarray(arr), np.asarray(other))
    else:
        other = entry(other)
        if Num.lift(other) is None:
            return NotImplemented
        res = np.frompyfunc(lambda a: func(a, other), 1, 1)(np.asarray(arr))
    return wrap(res)


def matmul(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.dtype != object:
        a = np.asarray(mkArray(a))
    if b.dtype != object:
        b = np.asarray(mkArray(b))
    if a.ndim > 2 or b.ndim > 2 or a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul of these dimensions is not modelled')
    left = a if a.ndim == 2 else a.reshape(1, -1)
    right = b if b.ndim == 2 else b.reshape(-1, 1)
    if left.shape[1] != right.shape[0]:
        raise ValueError(f'matmul: mismatch {a.shape} {b.shape}')
    out = np.empty((left.shape[0], right.shape[1]), dtype=object)
    cols = [[(k, right[k, j]) for k in range(right.shape[0]) if not isZero(right[k, j])]
            for j in range(right.shape[1])]
    for i in range(left.shape[0]):
        row = left[i]
        nz = [not isZero(v) for v in row]
        for j, col in enumerate(cols):
            acc = 0
            for k, val in col:
                if nz[k]:
                    acc = acc + row[k]*val
            out[i, j] = acc
    if a.ndim == 1 and b.ndim == 1:
        return out[0, 0]
    if a.ndim == 1:
        out = out[0]
    elif b.ndim == 1:
        out = out[:, 0]
    return out.view(SymArray)


def mkArray(val, dtype=None, copy=True):
    """what np.array does, with exact elements"""
    if isinstance(val, SymSparse):
        box = np.empty((), dtype=object)
        box[()] = val
        return box
    if isinstance(val, SymArray):
        res = val.copy() if copy else val
        return res if dtype is None or dtype in (object, 'O') else res.astype(dtype)
    if isinstance(val, np.ndarray):
        if val.dtype == object or val.dtype.kind in 'fc' or dtype is not None or val.dtype.kind in 'iu':
            out = np.empty(val.shape, dtype=object)
            for idx in np.ndindex(val.shape):
                out[idx] = entry(val[idx])
            res = out.view(SymArray)
            return res if dtype is None or dtype in (object, 'O') else res.astype(dtype)
        return val.copy()
    if isinstance(val, (list, tuple, range)):
        raw = np.array(_plain(val), dtype=object)
        if raw.size and any(isinstance(v, (list, tuple)) for v in raw.flat):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        out = np.empty(raw.shape, dtype=object)
        for idx in np.ndindex(raw.shape):
            out[idx] = entry(raw[idx])
        res = out.view(SymArray)
        return res if dtype is None or dtype in (object, 'O') else res.astype(dtype)
    if Num.lift(val) is not None:
        box = np.empty((), dtype=object)
        box[()] = entry(val)
        return box.view(SymArray)
    return np.array(val, dtype=object)


class _Box:
    """hides a Num from np.array's introspection"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def _plain(val):
    if isinstance(val, (list, tuple, range)):
        return [_plain(v) for v in val]
    if isinstance(val, np.ndarray):
        return _plain(list(val)) if val.ndim else val.item()
    return val


def argsort(vals):
    """stable order of symbolic values; each comparison is decided on the path (complex: real part, then imaginary)"""
    idx = []

    def less(a, b):
        a, b = Num.lift(a), Num.lift(b)
        if not a.im.t and not b.im.t:
            return bool(a < b)
        if bool(a.real < b.real):
            return True
        if bool(a.real > b.real):
            return False
        return bool(Num.lift(a.imag) < b.imag)
    for i in range(len(vals)):
        pos = len(idx)
        while pos > 0 and less(vals[i], vals[idx[pos-1]]):
            pos -= 1
        idx.insert(pos, i)
    return np.array(idx, dtype=int)


# ------------------------------------------------------------------ sparse

class SymSparse:
    """a sparse matrix: shape and the entries that are not syntactically zero"""
    __array_ufunc__ = None
    __array_priority__ = 10.1
    format = 'csc'
    ndim = 2
    isarray = False

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        self.d = {}
        if isinstance(arg, SymSparse):
            self._shape = arg.shape
            self.d = dict(arg.d)
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list)):
            data, (rows, cols) = arg
            rows = [int(r) for r in rows]
            cols = [int(c) for c in cols]
            data = list(data)
            if not len(rows) == len(cols) == len(data):
                raise ValueError('row, column, and data array must all be the same length')
            if shape is None:
                shape = (max(rows)+1, max(cols)+1)
            self._shape = (int(shape[0]), int(shape[1]))
            for r, c, v in zip(rows, cols, data):
                if not (0 <= r < self._shape[0]):
                    raise ValueError('row index exceeds matrix dimensions' if r >= 0 else 'negative row index found')
                if not (0 <= c < self._shape[1]):
                    raise ValueError('column index exceeds matrix dimensions'
                                     if c >= 0 else 'negative column index found')
                self._add((r, c), entry(v))
        elif isinstance(arg, tuple) and len(arg) == 2:
            self._shape = (int(arg[0]), int(arg[1]))
        elif isinstance(arg, tuple) and len(arg) == 3:
            data, ind, ptr = [list(a) for a in arg]
            nmaj = len(ptr)-1
            if shape is None:
                nmin = max(ind)+1 if ind else 0
                shape = (nmaj, nmin) if self.format == 'csr' else (nmin, nmaj)
            self._shape = tuple(int(s) for s in shape)
            for maj in range(nmaj):
                for k in range(int(ptr[maj]), int(ptr[maj+1])):
                    key = (maj, int(ind[k])) if self.format == 'csr' else (int(ind[k]), maj)
                    self._add(key, entry(data[k]))
        else:
            arr = mkArray(arg) if not isinstance(arg, np.ndarray) else arg
            if arr.ndim == 1:
                arr = arr.reshape(1, -1)
            if arr.ndim == 0:
                arr = arr.reshape(1, 1)
            if arr.ndim != 2:
                raise TypeError('expected dimension <= 2 array or matrix')
            self._shape = arr.shape
            for (i, j), v in np.ndenumerate(arr):
                v = entry(v)
                if not isZero(v):
                    self.d[(i, j)] = v

    def _add(self, key, val):
        if key in self.d:
            val = self.d[key] + val
        if isZero(val):
            self.d.pop(key, None)
        else:
            self.d[key] = val

    def _new(self, shape, d, fmt=None):
        cls = CLASSES[fmt or self.format]
        res = cls.__new__(cls)
        res._shape = shape
        res.d = d
        return res

    # ---- attributes
    @property
    def shape(self):
        return self._shape

    def get_shape(self):
        return self._shape

    @property
    def nnz(self):
        return len(self.d)

    def getnnz(self, axis=None):
        return len(self.d)

    def count_nonzero(self):
        return len(self.d)

    @property
    def dtype(self):
        return np.dtype(complex)

    @property
    def data(self):
        return mkArray([v for _, v in sorted(self.d.items(), key=lambda kv: (kv[0][1], kv[0][0]))])

    @property
    def size(self):
        return len(self.d)

    @property
    def T(self):
        return self.transpose()

    @property
    def H(self):
        return self.T.conj()

    def getH(self):
        return self.T.conj()

    @property
    def A(self):
        return self.toarray()

    @property
    def real(self):
        return self._map(lambda v: v.real)

    @property
    def imag(self):
        return self._map(lambda v: v.imag)

    def getformat(self):
        return self.format

    def toarray(self, order=None, out=None):
        arr = np.empty(self._shape, dtype=object)
        arr[...] = 0
        for key, val in self.d.items():
            arr[key] = val
        return arr.view(SymArray)

    todense = toarray

    def transpose(self, axes=None, copy=False):
        fmt = {'csc': 'csr', 'csr': 'csc'}.get(self.format, self.format)
        return self._new((self._shape[1], self._shape[0]), {(j, i): v for (i, j), v in self.d.items()}, fmt)

    def _map(self, func):
        out = {}
        for key, val in self.d.items():
            new = func(val)
            if not isZero(new):
                out[key] = new
        return self._new(self._shape, out)

    def conj(self, copy=True):
        return self._map(lambda v: v.conjugate())
    conjugate = conj

    def copy(self):
        return self._new(self._shape, dict(self.d))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, **_):
        return self._map(lambda v: N.castTo(v, dtype))

    def asformat(self, fmt, copy=False):
        return self if fmt is None else self._new(self._shape, dict(self.d), fmt)

    def tocsc(self, copy=False):
        return self.asformat('csc')

    def tocsr(self, copy=False):
        return self.asformat('csr')

    def tocoo(self, copy=False):
        return self.asformat('coo')

    def tolil(self, copy=False):
        return self.asformat('lil')

    def todok(self, copy=False):
        return self.asformat('dok')

    def tobsr(self, *a, **k):
        return self.asformat('bsr')

    def todia(self, copy=False):
        return self.asformat('dia')

    def eliminate_zeros(self):
        pass

    def sort_indices(self):
        pass

    def sum_duplicates(self):
        pass

    def diagonal(self, k=0):
        rows, cols = self._shape
        num = min(rows, cols) if k == 0 else max(0, min(rows+min(k, 0), cols-max(k, 0)))
        return mkArray([self.d.get((i-min(k, 0), i+max(k, 0)), 0) for i in range(num)])

    def trace(self, offset=0):
        return self.diagonal(offset).sum()

    def setdiag(self, values, k=0):
        for i in range(min(self._shape)):
            val = values if not hasattr(values, '__len__') else values[i]
            self.d.pop((i, i), None)
            self._add((i, i), entry(val))

    def sum(self, axis=None, dtype=None, out=None):
        if axis is None:
            acc = 0
            for val in self.d.values():
                acc = acc + val
            return acc
        return self.toarray().sum(axis=axis).reshape((1, -1) if axis in (0, -2) else (-1, 1))

    def mean(self, axis=None, **k):
        return self.sum(axis)/(self._shape[0]*self._shape[1] if axis is None else self._shape[axis])

    def max(self, axis=None, out=None):
        return self.toarray().max()

    def min(self, axis=None, out=None):
        return self.toarray().min()

    def reshape(self, *args, order='C', copy=False):
        shape = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
        shape = [int(s) for s in shape]
        total = self._shape[0]*self._shape[1]
        if -1 in shape:
            known = -int(np.prod(shape))
            shape[shape.index(-1)] = total//known
        if len(shape) != 2 or shape[0]*shape[1] != total:
            raise ValueError(f'cannot reshape array of size {total} into shape {tuple(shape)}')
        out = {}
        for (i, j), val in self.d.items():
            if order == 'F':
                flat = i + j*self._shape[0]
                out[(flat % shape[0], flat//shape[0])] = val
            else:
                flat = i*self._shape[1] + j
                out[(flat//shape[1], flat % shape[1])] = val
        return self._new(tuple(shape), out)

    resize = None

    def nonzero(self):
        keys = sorted(k for k, v in self.d.items() if bool(v != 0))
        return np.array([k[0] for k in keys], dtype=int), np.array([k[1] for k in keys], dtype=int)

    # ---- arithmetic
    def _scalar(self, other):
        if isinstance(other, np.ndarray) and other.size == 1 and other.ndim == 0:
            other = other.item()
        if isinstance(other, (SymSparse, np.ndarray, list, tuple, str)):
            return None
        return Num.lift(other) if not isinstance(other, SymBool) else Num.lift(int(other))

    def __neg__(self):
        return self._map(lambda v: -v)

    def __abs__(self):
        return self._map(abs)

    def __add__(self, other):
        if isinstance(other, SymSparse):
            if other.shape != self.shape:
                raise ValueError('inconsistent shapes')
            res = self.copy()
            for key, val in other.d.items():
                res._add(key, val)
            return res
        if isinstance(other, np.ndarray):
            return self.toarray() + other
        if self._scalar(other) is not None:
            if isZero(other):
                return self.copy()
            raise NotImplementedError('adding a nonzero scalar to a sparse matrix is not supported')
        return NotImplemented

    def __radd__(self, other):
        return self.__add__(other)

    def __sub__(self, other):
        if isinstance(other, SymSparse):
            return self + (-other)
        if isinstance(other, np.ndarray):
            return self.toarray() - other
        if self._scalar(other) is not None:
            if isZero(other):
                return self.copy()
            raise NotImplementedError('subtracting a nonzero scalar from a sparse matrix is not supported')
        return NotImplemented

    def __rsub__(self, other):
        res = self.__sub__(other)
        return res if res is NotImplemented else -res

    def __iadd__(self, other):
        return self + other

    def __isub__(self, other):
        return self - other

    def __imul__(self, other):
        return self * other

    def __itruediv__(self, other):
        return self / other

    def __matmul__(self, other):
        if isinstance(other, SymSparse):
            if self._shape[1] != other._shape[0]:
                raise ValueError('dimension mismatch')
            byRow = {}
            for (i, j), val in other.d.items():
                byRow.setdefault(i, []).append((j, val))
            out = {}
            for (i, k), val in self.d.items():
                for j, oth in byRow.get(k, ()):
                    key = (i, j)
                    prod = val*oth
                    out[key] = out[key] + prod if key in out else prod
            out = {k: v for k, v in out.items() if not isZero(v)}
            return self._new((self._shape[0], other._shape[1]), out)
        if isinstance(other, (np.ndarray, list, tuple)):
            arr = mkArray(other, copy=False)
            if arr.ndim == 0:
                raise ValueError('Scalar operands are not allowed, use \'*\' instead')
            if arr.shape[0] != self._shape[1]:
                raise ValueError('dimension mismatch')
            return matmul(self.toarray(), arr)
        if self._scalar(other) is not None:
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        return NotImplemented

    def __rmatmul__(self, other):
        if isinstance(other, (np.ndarray, list, tuple)):
            return matmul(mkArray(other, copy=False), self.toarray())
        return NotImplemented

    def dot(self, other):
        return self*other if self._scalar(other) is not None else self @ other

    def __mul__(self, other):
        scal = self._scalar(other)
        if scal is not None:
            if isZero(scal):
                return self._new(self._shape, {})
            return self._map(lambda v: v*scal)
        if self.isarray:
            return self.multiply(other)
        return self.__matmul__(other)

    def __rmul__(self, other):
        scal = self._scalar(other)
        if scal is not None:
            return self.__mul__(other)
        if self.isarray:
            return self.multiply(other)
        return self.__rmatmul__(other)

    def __truediv__(self, other):
        scal = self._scalar(other)
        if scal is not None:
            inv = Num.lift(1)/scal
            return self._map(lambda v: v*inv)
        if isinstance(other, SymSparse):
            return self.toarray()/other.toarray()
        return NotImplemented

    def multiply(self, other):
        scal = self._scalar(other)
        if scal is not None:
            return self*scal
        if isinstance(other, SymSparse) and other.shape == self.shape:
            return self._new(self._shape, {k: v*other.d[k] for k, v in self.d.items() if k in other.d})
        arr = other.toarray() if isinstance(other, SymSparse) else mkArray(other)
        return CLASSES['csr'](self.toarray()*arr)

    def power(self, n, dtype=None):
        return self._map(lambda v: v**n)

    def __pow__(self, exp):
        if self._shape[0] != self._shape[1]:
            raise TypeError('matrix is not square')
        exp = int(exp)
        if exp < 0:
            raise ValueError('exponent must be >= 0')
        if self.isarray:
            return self.power(exp)
        res = self._new(self._shape, {(i, i): 1 for i in range(self._shape[0])})
        for _ in range(exp):
            res = res @ self
        return res

    def __eq__(self, other):
        if isinstance(other, SymSparse):
            if other.shape != self.shape:
                return False
            keys = set(self.d) | set(other.d)
            out = self._new(self._shape, {})
            arr = np.empty(self._shape, dtype=object)
            arr[...] = True
            for key in keys:
                arr[key] = self.d.get(key, 0) == other.d.get(key, 0)
            return BoolSparse(arr)
        if isinstance(other, np.ndarray):
            return self.toarray() == other
        return NotImplemented

    def __ne__(self, other):
        if isinstance(other, SymSparse):
            if other.shape != self.shape:
                return True
            arr = np.empty(self._shape, dtype=object)
            arr[...] = False
            for key in set(self.d) | set(other.d):
                arr[key] = self.d.get(key, 0) != other.d.get(key, 0)
            return BoolSparse(arr)
        if isinstance(other, np.ndarray):
            return self.toarray() != other
        return NotImplemented
    __hash__ = object.__hash__

    def __bool__(self):
        if self._shape == (1, 1):
            return bool(self.d.get((0, 0), 0) != 0)
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all().')

    def __len__(self):
        raise TypeError('sparse matrix length is ambiguous; use getnnz() or shape[0] or shape[1]')

    def __getitem__(self, idx):
        idx = _conc(idx)
        if isinstance(idx, tuple) and len(idx) == 2 and all(isinstance(i, (int, np.integer)) for i in idx):
            i, j = idx
            rows, cols = self._shape
            if not (-rows <= i < rows and -cols <= j < cols):
                raise IndexError('index out of range')
            return self.d.get((i % rows, j % cols), 0)
        arr = self.toarray()
        if not isinstance(idx, tuple):
            idx = (idx, slice(None))
        idx = tuple(slice(i, i+1 if i != -1 else None) if isinstance(i, (int, np.integer)) else i for i in idx)
        return CLASSES[self.format](arr[idx])

    def __setitem__(self, idx, val):
        arr = self.toarray()
        arr[idx] = val
        new = CLASSES[self.format](arr)
        self.d = new.d

    def __iter__(self):
        for i in range(self._shape[0]):
            yield self[i, :]

    def getrow(self, i):
        return self[i, :]

    def getcol(self, j):
        return self[:, j]

    def __repr__(self):
        return f'<{self._shape} symbolic sparse {self.d}>'


class BoolSparse:
    def __init__(self, arr):
        self.arr = arr
        self.shape = arr.shape

    def toarray(self):
        return self.arr.view(SymArray)
    A = property(toarray)
    todense = toarray

    def all(self):
        return all(bool(v) for v in self.arr.flat)

    def any(self):
        return any(bool(v) for v in self.arr.flat)

    @property
    def nnz(self):
        return sum(1 for v in self.arr.flat if bool(v))

    def sum(self):
        return self.nnz

    def __bool__(self):
        raise ValueError('The truth value of an array with more than one element is ambiguous.')


CLASSES = {}
for _fmt in ('csc', 'csr', 'coo', 'lil', 'dok', 'dia', 'bsr'):
    CLASSES[_fmt] = type(f'{_fmt}_matrix', (SymSparse,), {'format': _fmt})
ARRCLASSES = {f: type(f'{f}_array', (c,), {'isarray': True}) for f, c in CLASSES.items()}


def kron(a, b, format=None):
    a = a if isinstance(a, SymSparse) else CLASSES['csc'](a)
    b = b if isinstance(b, SymSparse) else CLASSES['csc'](b)
    rows, cols = b.shape
    out = {}
    for (i, j), va in a.d.items():
        for (k, l), vb in b.d.items():
            val = va*vb
            if not isZero(val):
                out[(i*rows+k, j*cols+l)] = val
    return a._new((a.shape[0]*rows, a.shape[1]*cols), out, format or 'bsr')


def eye(m, n=None, k=0, dtype=None, format=None):
    m = int(m)
    n = m if n is None else int(n)
    res = CLASSES[format or 'dia']((m, n))
    for i in range(m):
        if 0 <= i+k < n:
            res.d[(i, i+k)] = 1
    return res


def identity(n, dtype='d', format=None):
    return eye(n, format=format)


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if np.ndim(offsets) == 0 and (len(diagonals) == 0 or not hasattr(diagonals[0], '__len__')):
        diagonals = [diagonals]
    offsets = [offsets] if np.ndim(offsets) == 0 else list(offsets)
    if shape is None:
        dim = len(diagonals[0])+abs(offsets[0])
        shape = (dim, dim)
    res = CLASSES[format or 'dia'](tuple(shape))
    for diag, off in zip(diagonals, offsets):
        diag = list(diag)
        num = min(shape[0]+min(off, 0), shape[1]-max(off, 0))
        for i in range(num):
            res._add((i-min(off, 0), i+max(off, 0)), entry(diag[i] if len(diag) > 1 else diag[0]))
    return res


def bmat(blocks, format=None, dtype=None):
    blocks = [[None if b is None else (b if isinstance(b, SymSparse) else CLASSES['csc'](b)) for b in row]
              for row in blocks]
    heights = [next(b.shape[0] for b in row if b is not None) for row in blocks]
    widths = [next(blocks[i][j].shape[1] for i in range(len(blocks)) if blocks[i][j] is not None)
              for j in range(len(blocks[0]))]
    res = CLASSES[format or 'coo']((sum(heights), sum(widths)))
    for i, row in enumerate(blocks):
        for j, blk in enumerate(row):
            if blk is not None:
                for (r, c), v in blk.d.items():
                    res._add((sum(heights[:i])+r, sum(widths[:j])+c), v)
    return res


# ------------------------------------------------------------------ matrix exponential

def toDict(mat):
    if isinstance(mat, SymSparse):
        return mat.shape, {k: v for k, v in mat.d.items()}
    arr = mkArray(mat, copy=False)
    return arr.shape, {k: entry(v) for k, v in np.ndenumerate(arr) if not isZero(entry(v))}


def expmDict(shape, d):
    """exp of a square matrix: block by block over the connected components of its pattern; diagonal blocks exactly,
    every other block an uninterpreted function of the block's entries (equal blocks have equal exponentials)"""
    if len(shape) != 2 or shape[0] != shape[1]:
        raise ValueError('expected a square matrix')
    dim = shape[0]
    parent = list(range(dim))

    def find(i):
        while parent[i] != i:
            parent[i] = parent[parent[i]]
            i = parent[i]
        return i
    for i, j in d:
        a, b = find(i), find(j)
        if a != b:
            parent[max(a, b)] = min(a, b)
    groups = {}
    for i in range(dim):
        groups.setdefault(find(i), []).append(i)
    out = {}
    for group in groups.values():
        if len(group) == 1:
            i = group[0]
            val = d.get((i, i))
            out[(i, i)] = 1 if val is None else N.exp(val)
            continue
        block = tuple(tuple(canonEntry(d.get((i, j), 0)) for j in group) for i in group)
        key = ('expm', block)
        rows = SPACE.keys.get(key)
        if rows is None:
            # a function of its argument: remember the pairs for congruence
            rows = []
            tag = len(SPACE.vars)
            for r in range(len(group)):
                line = []
                for c in range(len(group)):
                    rea = SPACE.new(None, f'expm{tag}_{r}_{c}_re', 'expm', (key, r, c, 're'))
                    ima = SPACE.new(None, f'expm{tag}_{r}_{c}_im', 'expm', (key, r, c, 'im'))
                    line.append(Num(P.Poly.var(rea), P.Poly.var(ima), 2))
                rows.append(line)
            SPACE.keys[key] = rows
        for r, i in enumerate(group):
            for c, j in enumerate(group):
                out[(i, j)] = rows[r][c]
    return {k: v for k, v in out.items() if not isZero(v)}


def tidied(val):
    if isinstance(val, Num):
        return Num(P.tidy(val.re), P.tidy(val.im), val.kind)
    return val


def canonEntry(val):
    num = Num.lift(val)
    return (P.tidy(num.re).key(), P.tidy(num.im).key())


def expm(mat):
    shape, d = toDict(mat)
    d = {k: v for k, v in ((k, tidied(v)) for k, v in d.items()) if not isZero(v)}
    out = expmDict(shape, d)
    if isinstance(mat, SymSparse):
        return mat._new(mat.shape, out)
    arr = np.empty(shape, dtype=object)
    arr[...] = 0
    for k, v in out.items():
        arr[k] = v
    return arr.view(SymArray)
