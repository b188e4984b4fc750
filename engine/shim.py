"""Symbolic stand-ins for numpy, scipy.linalg, math and random numbers.

Float data lives in object arrays (SArr) of engine.sym.Sym; integer and boolean arrays are real numpy."""
from fractions import Fraction
import math as _math
import types
import itertools
import numpy as np
from engine import sym as S
from engine.sym import Sym, Unsupported, lift, ctx
from engine import poly as P

FLOATS = (float, np.float64, np.float32, np.double)


class LinAlgError(np.linalg.LinAlgError):
    pass


def isnum(x):
    return isinstance(x, (Sym, int, float, Fraction, np.number, np.bool_, bool, S.SymBool))


def el(x):
    """normalise one array element of a float array"""
    if type(x) is Sym:
        return x
    if isinstance(x, (float, np.floating)):
        if not _math.isfinite(x):
            return float(x)
        return lift(x)
    if isinstance(x, (int, np.integer, Fraction, np.bool_, bool, S.SymBool)):
        return lift(x)
    return x


def into(out, r):
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        return r
    out[...] = r
    return out


def outkw(f):
    """a function whose result may be wanted in out="""
    import functools

    @functools.wraps(f)
    def g(*a, **k):
        out = k.pop('out', None)
        if k.get('where', True) is not True:
            raise Unsupported('where=')
        return into(out, f(*a, **k))
    return g


_el = np.frompyfunc(el, 1, 1)


class SArr(np.ndarray):
    """object array of symbolic floats"""
    __array_priority__ = 1000

    def __array_finalize__(self, obj):
        pass

    # what the program sees
    dtype = property(lambda self: np.dtype(float))

    # scalar assignment of size-1 arrays, as float arrays allow
    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray):
            if v.dtype != object:
                v = sarr(v)
            if v.size == 1 and v.ndim > 0:
                tgt = np.ndarray.__getitem__(self, k)
                if not isinstance(tgt, np.ndarray):
                    v = v.ravel()[0]
        elif isinstance(v, (list, tuple)):
            v = sarr(v)
            return self.__setitem__(k, v)
        elif isinstance(v, (float, int, np.number)) and not isinstance(v, bool):
            v = el(v)
        if v is None:
            v = float('nan')
        if isinstance(v, SArr) and v.size and np.may_share_memory(v, self):
            v = v.copy()
        np.ndarray.__setitem__(self, k, v)

    def __iadd__(self, o):
        self[...] = self + fix(o)
        return self

    def __isub__(self, o):
        self[...] = self - fix(o)
        return self

    def __imul__(self, o):
        self[...] = self * fix(o)
        return self

    def __itruediv__(self, o):
        self[...] = self / fix(o)
        return self

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return into(out, reduce_(self, axis, S.maximum_of, keepdims))

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return into(out, reduce_(self, axis, S.minimum_of, keepdims))

    def argmax(self, axis=None, out=None, **kw):
        return argred(self, axis, lambda a, b: S.gt(a, b))

    def argmin(self, axis=None, out=None, **kw):
        return argred(self, axis, lambda a, b: S.gt(b, a))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        n = self.size if axis is None else (np.prod([self.shape[a] for a in axis]) if isinstance(axis, tuple) else self.shape[axis])
        if n == 0:
            return float('nan')
        return into(out, self.sum(axis=axis, keepdims=keepdims) / int(n))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        if self.size == 0 and axis is None:
            return lift(0)
        r = np.ndarray.sum(self, axis=axis, keepdims=keepdims)
        return into(out, r)

    def var(self, axis=None, **kw):
        m = self.mean(axis=axis, keepdims=True)
        return ((self - m) ** 2).mean(axis=axis)

    def std(self, axis=None, **kw):
        return np_exp_like(S.sqrt, self.var(axis=axis))

    def astype(self, dtype, copy=True, **kw):
        if dtype in (int, np.int64, np.int32, np.intp):
            return np.vectorize(lambda x: int(x), otypes=[int])(self) if self.size else np.zeros(self.shape, int)
        if dtype in (bool, np.bool_):
            return np.array([bool(x) for x in self.ravel()], dtype=bool).reshape(self.shape)
        return np.array(self, copy=True, subok=True)

    def resize(self, *shape, **kw):
        np.ndarray.resize(self, *shape, refcheck=False)
        f = self.reshape(-1)
        for i in range(f.size):
            if isinstance(f[i], int):
                np.ndarray.__setitem__(f, i, lift(0))

    def all(self, axis=None, **kw):
        if axis is None:
            for x in self.ravel():
                if not bool(x):
                    return False
            return True
        return np.ndarray.all(self, axis=axis)

    def any(self, axis=None, **kw):
        if axis is None:
            for x in self.ravel():
                if bool(x):
                    return True
            return False
        return np.ndarray.any(self, axis=axis)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def __float__(self):
        return float(self.item())

    def __lt__(self, o):
        return cmparr(self, o, lambda a, b: S.gt(b, a))

    def __gt__(self, o):
        return cmparr(self, o, S.gt)

    def __le__(self, o):
        return cmparr(self, o, lambda a, b: S.ge(b, a))

    def __ge__(self, o):
        return cmparr(self, o, S.ge)

    def __eq__(self, o):
        if o is None:
            return np.zeros(self.shape, dtype=bool)
        return cmparr(self, o, S.eq)

    def __ne__(self, o):
        if o is None:
            return np.ones(self.shape, dtype=bool)
        return ~cmparr(self, o, S.eq)

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(self.ravel()[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return int(self.ravel()[0])

    def __hash__(self):
        raise TypeError('unhashable')

    def __reduce__(self):
        raise Unsupported('pickling symbolic arrays')

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def dot(self, b, out=None):
        r = dot(self, b)
        if out is not None:
            out[...] = r
            return out
        return r

    def clip(self, a_min=None, a_max=None, **kw):
        out = self.copy()
        for ix in np.ndindex(out.shape):
            if a_min is not None and bool(S.gt(a_min, out[ix])):
                out[ix] = a_min
            if a_max is not None and bool(S.gt(out[ix], a_max)):
                out[ix] = a_max
        return out

    def round(self, *a, **k):
        raise Unsupported('round')

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side, sorter)

    def argsort(self, axis=-1, **kw):
        return argsort(self, axis)

    def sort(self, axis=-1, **kw):
        self[...] = npsort(self, axis)

    def ptp(self, axis=None, **kw):
        return self.max(axis=axis) - self.min(axis=axis)

    def trace(self, *a, **kw):
        return nptrace(self, *a, **kw)


def cmparr(a, b, f):
    b = np.asarray(b)
    A, B = np.broadcast_arrays(np.asarray(a, dtype=object), b)
    out = np.empty(A.shape, dtype=bool)
    for ix in np.ndindex(A.shape):
        out[ix] = bool(f(A[ix], B[ix]))
    return out if out.ndim else bool(out)


def fix(o):
    if isinstance(o, np.ndarray) and o.dtype.kind == 'f':
        return sarr(o)
    if isinstance(o, (float, np.floating)):
        return el(o)
    return o


def reduce_(a, axis, f, keepdims=False):
    if axis is None:
        r = f(list(a.ravel()))
        return r if not keepdims else sarr(r).reshape((1,) * a.ndim)
    if isinstance(axis, tuple):
        axis = sorted(x % a.ndim for x in axis)
        b = np.moveaxis(a, axis, range(-len(axis), 0))
        b = sarr_view(np.asarray(b).reshape(b.shape[:b.ndim - len(axis)] + (-1,)))
        r = reduce_(b, -1, f)
        if keepdims:
            r = sarr(r).reshape(tuple(1 if i in axis else n for i, n in enumerate(a.shape)))
        return r
    axis = axis % a.ndim
    b = np.moveaxis(a, axis, -1)
    shp = b.shape[:-1]
    out = mk(shp)
    for ix in np.ndindex(shp):
        out[ix] = f(list(b[ix].ravel()))
    if keepdims:
        return np.expand_dims(out, axis)
    return out if shp else out.item()


def argred(a, axis, better):
    def one(xs):
        b = 0
        for i in range(1, len(xs)):
            if bool(better(xs[i], xs[b])):
                b = i
        return b
    if axis is None:
        return one(list(a.ravel()))
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=int)
    for ix in np.ndindex(out.shape):
        out[ix] = one(list(b[ix]))
    return out


def mk(shape):
    """owning, uninitialised SArr"""
    return np.ndarray.__new__(SArr, shape, dtype=object)


def filled(shape, v):
    a = mk(shape)
    np.ndarray.fill(a, v)
    return a


def fresh(shape):
    a = mk(shape)
    f = a.reshape(-1)
    for i in range(f.size):
        np.ndarray.__setitem__(f, i, S.uninit())
    return a


def sarr(x):
    """float array of anything numeric"""
    if isinstance(x, SArr):
        return x
    a = np.array(x, dtype=object)
    r = mk(a.shape)
    if a.size:
        np.ndarray.__setitem__(r, Ellipsis, _el(a) if a.ndim else el(a.item()))
    return r


def isintlike(a):
    return isinstance(a, np.ndarray) and a.dtype.kind in 'iub'


def to_arr(x, dtype=None):
    """numpy.asarray semantics"""
    if dtype is not None and not is_float_dtype(dtype):
        if is_obj_dtype(dtype):
            return np.asarray(x, dtype=object)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return sarr(x).astype(dtype)
        if isinstance(x, Sym):
            return np.asarray(int(x), dtype=dtype)
        try:
            return np.asarray(x, dtype=dtype)
        except TypeError:
            return sarr(x).astype(dtype)
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'f':
            return sarr(x)
        if dtype is not None and is_float_dtype(dtype) and x.dtype.kind in 'iub':
            return sarr(x)
        if x.dtype == object and not isinstance(x, SArr):
            if x.size and all(isnum(e) for e in x.ravel()):
                return sarr(x)
        return x
    if isinstance(x, Sym):
        return sarr(x)
    if isinstance(x, (list, tuple, range)) or hasattr(x, '__iter__'):
        x = list(x) if not isinstance(x, (list, tuple, range)) else x
        if has_special_objects(x):
            a = np.asarray(x, dtype=object)
            return a
        a = np.array(x)
        if a.dtype.kind == 'f' or (a.dtype == object and a.size and all(isnum(e) for e in a.ravel())):
            return sarr(np.array(x, dtype=object))
        if a.dtype == object:
            b = flatten_nested(x)
            if b is not None:
                return b
        if dtype is not None and is_float_dtype(dtype):
            return sarr(a)
        if a.size == 0 and a.dtype.kind == 'f':
            return mk(a.shape)
        return a
    a = np.asarray(x)
    if a.dtype.kind == 'f' or (dtype is not None and is_float_dtype(dtype) and a.dtype.kind in 'iub'):
        return sarr(a)
    return a


def flatten_nested(x):
    try:
        parts = [to_arr(e) for e in x]
        if parts and all(p.shape == parts[0].shape and (isinstance(p, SArr) or isintlike(p)) for p in parts):
            r = mk((len(parts),) + parts[0].shape)
            for i, p in enumerate(parts):
                r[i] = sarr(p) if parts[0].shape else el(p.item())
            return r
    except Exception:
        return None
    return None


def has_special_objects(x):
    for e in x:
        if e is None:
            return True
        if isinstance(e, (list, tuple, np.ndarray, Sym)) or isnum(e):
            continue
        return True
    return False


def is_float_dtype(d):
    return d in FLOATS or (isinstance(d, np.dtype) and d.kind == 'f') or d in ('float', 'f8', 'd', 'float64')


def is_obj_dtype(d):
    return d is object or d == object or d in (np.ndarray, SArr) or (isinstance(d, type) and not issubclass(d, (int, float, np.generic, bool, complex, str)))


# ------------------------------------------------------------- linear algebra kernels
def dot(a, b):
    a = a if isinstance(a, np.ndarray) else to_arr(a)
    b = b if isinstance(b, np.ndarray) else to_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if isintlike(a) and isintlike(b):
        return np.dot(a, b)
    A = np.asarray(sarr(a), dtype=object).view(np.ndarray)
    B = np.asarray(sarr(b), dtype=object).view(np.ndarray)
    if A.shape[-1] != (B.shape[0] if B.ndim == 1 else B.shape[-2]):
        raise ValueError('shapes %s and %s not aligned' % (A.shape, B.shape))
    if A.shape[-1] == 0:
        shp = A.shape[:-1] + (B.shape[:-2] + B.shape[-1:] if B.ndim > 1 else ())
        return filled(shp, lift(0)) if shp else lift(0)
    r = np.dot(A, B)
    if isinstance(r, np.ndarray):
        return sarr_view(r)
    return el(r)


def sarr_view(r):
    if isinstance(r, SArr):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype != object:
            return sarr(r)
        o = mk(r.shape)
        if r.size:
            np.ndarray.__setitem__(o, Ellipsis, r)
        return o
    return r


def mdet(A):
    n = A.shape[0]
    if n == 0:
        return lift(1)
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    s = lift(0)
    for j in range(n):
        if type(A[0, j]) is Sym and A[0, j].r.iszero():
            continue
        c = A[0, j] * mdet(np.delete(np.delete(A, 0, 0), j, 1))
        s = s + c if j % 2 == 0 else s - c
    return s


def madj(A):
    n = A.shape[0]
    out = mk((n, n))
    for i in range(n):
        for j in range(n):
            c = mdet(np.delete(np.delete(A, j, 0), i, 1))
            out[i, j] = c if (i + j) % 2 == 0 else -c
    return out


def blocks(A):
    """connected components of the sparsity pattern (rows/cols), for block diagonal matrices"""
    n = A.shape[0]
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            x = A[i, j]
            if i != j and not (type(x) is Sym and x.r.iszero()):
                comp[find(i)] = find(j)
    g = {}
    for i in range(n):
        g.setdefault(find(i), []).append(i)
    return list(g.values())


def minv(A):
    A = sarr(A)
    n = A.shape[0]
    out = filled((n, n), lift(0))
    for b in blocks(A):
        sub = A[np.ix_(b, b)]
        d = mdet(sub)
        z = S.eq(d, 0)
        nz = ~z if isinstance(z, S.SymBool) else not z
        if not nz:
            raise LinAlgError('Singular matrix')
        adj = madj(sub)
        for i, bi in enumerate(b):
            for j, bj in enumerate(b):
                out[bi, bj] = adj[i, j] / d
    return out


def check_square(A):
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise ValueError('expected square matrix')


CHO = {}


def cho_upper(A):
    """upper triangular U with U'U = A (uses the upper triangle of A); assumes A positive definite"""
    n = A.shape[0]
    U = filled((n, n), lift(0))
    c = ctx()
    for i in range(n):
        s = A[i, i]
        for k in range(i):
            s = s - U[k, i] * U[k, i]
        s = lift(s)
        if type(s) is float:
            raise LinAlgError('not positive definite')
        if s.r.isconst():
            if s.r.const() <= 0:
                raise LinAlgError('%d-th leading minor not positive definite' % (i + 1))
        else:
            known = S.sign_rat_known(s.r)
            if known is None:
                g = S.gt(s, 0)
                if isinstance(g, S.SymBool):
                    # precondition of the routine: the matrix is positive definite
                    if c.known.get(g.e.get_id()) is False:
                        raise LinAlgError('not positive definite')
                    c.assume(g)
                    c.count('pd_assumptions')
            elif known <= 0:
                raise LinAlgError('not positive definite')
        d = S.sqrt(s)
        U[i, i] = d
        for j in range(i + 1, n):
            t = A[i, j]
            for k in range(i):
                t = t - U[k, i] * U[k, j]
            U[i, j] = t / d
    return U


def overwrites(pos, flag):
    """scipy stores the result in the argument when it may and the memory layout allows it"""
    import functools

    def deco(f):
        @functools.wraps(f)
        def g(*a, **k):
            r = f(*a, **k)
            if k.get(flag) and len(a) > pos and type(a[pos]) is SArr and a[pos].flags.f_contiguous and a[pos].ndim:
                x = r[0] if isinstance(r, tuple) else r
                if np.shape(x) == a[pos].shape:
                    a[pos][...] = x
            return r
        return g
    return deco


@overwrites(0, 'overwrite_a')
def cho_factor(a, lower=False, overwrite_a=False, check_finite=True):
    A = sarr(a)
    A = A if A.ndim == 2 else A.reshape((1, 1)) if A.size == 1 and A.ndim == 0 else A
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise ValueError('expected a square matrix')
    n = A.shape[0]
    out = A.copy()
    if lower:
        U = cho_upper(A.T)
        L = U.T
        for i in range(n):
            for j in range(i + 1):
                out[i, j] = L[i, j]
    else:
        U = cho_upper(A)
        for i in range(n):
            for j in range(i, n):
                out[i, j] = U[i, j]
    if not lower:
        ms = A.copy()
        for i in range(n):
            for j in range(i):
                ms[i, j] = ms[j, i]
        CHO[tuple(out[i, j].r for i in range(n) for j in range(i, n))] = ms
    return (out, bool(lower))


@overwrites(1, 'overwrite_b')
def cho_solve(c_and_lower, b, overwrite_b=False, check_finite=True):
    c, lower = c_and_lower
    c = sarr(c)
    n = c.shape[0]
    b1 = sarr(b)
    if c.ndim != 2 or c.shape[0] != c.shape[1]:
        raise ValueError('The factored matrix c is not square.')
    if n != b1.shape[0]:
        raise ValueError('incompatible dimensions (%s and %s)' % (c.shape, b1.shape))
    A = None
    if not lower:
        A = CHO.get(tuple(c[i, j].r for i in range(n) for j in range(i, n)))
    if A is None:
        if lower:
            L = tril(c)
            A = dot(L, L.T)
        else:
            U = triu(c)
            A = dot(U.T, U)
    return dot(minv(A), b1)


def cholesky_np(a):
    A = sarr(a)
    if A.ndim > 2:
        return flatten_nested([cholesky_np(x) for x in A])
    check_square(A)
    return cho_upper(A.T).T   # lower


@overwrites(0, 'overwrite_a')
def cholesky_sp(a, lower=False, overwrite_a=False, check_finite=True):
    A = sarr(a)
    if lower:
        return cho_upper(A.T).T
    return cho_upper(A)


def triu(a, k=0):
    A = to_arr(a)
    out = A.copy()
    for ix in np.ndindex(A.shape[:-2]):
        for i in range(A.shape[-2]):
            for j in range(A.shape[-1]):
                if j - i < k:
                    out[ix + (i, j)] = 0
    return out


def tril(a, k=0):
    A = to_arr(a)
    out = A.copy()
    for ix in np.ndindex(A.shape[:-2]):
        for i in range(A.shape[-2]):
            for j in range(A.shape[-1]):
                if j - i > k:
                    out[ix + (i, j)] = 0
    return out


def stacked(f):
    def g(a, *args):
        A = sarr(a)
        if A.ndim > 2:
            parts = [g(A[i], *args) for i in range(A.shape[0])]
            return flatten_nested(parts)
        check = A.ndim == 2 and A.shape[0] == A.shape[1]
        if not check:
            raise LinAlgError('Last 2 dimensions of the array must be square')
        return f(A, *args)
    return g


@stacked
def inv(a):
    return minv(a)


@stacked
def det(a):
    return mdet(a)


def solve_np(a, b):
    A = sarr(a)
    B = sarr(b)
    if A.ndim == 3:
        if B.ndim == 2:
            raise Unsupported('stacked solve with 2-d right-hand side')
        return flatten_nested([solve_np(A[i], B[i] if B.ndim == 3 else B) for i in range(len(A))])
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    if A.shape[0] != B.shape[0]:
        raise ValueError('solve: Input operand 1 has a mismatch')
    return dot(minv(A), B)


def solve_sp(a, b, *args, **kw):
    assume_a = kw.get('assume_a')
    A = sarr(a)
    if assume_a in ('pos', 'sym') or kw.get('sym_pos'):
        A = A.copy()
        for i in range(len(A)):
            for j in range(i):
                A[i, j] = A[j, i]
    return solve_np(A, b)


@overwrites(1, 'overwrite_b')
def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, check_finite=True):
    A = tril(sarr(a)) if lower else triu(sarr(a))
    if unit_diagonal:
        for i in range(len(A)):
            A[i, i] = 1
    if trans in (1, 'T', 2, 'C'):
        A = A.T
    return dot(minv(A), sarr(b))


def slogdet(a):
    A = sarr(a)
    if A.ndim > 2:
        r = [slogdet(x) for x in A]
        return (flatten_nested([x[0] for x in r]), flatten_nested([x[1] for x in r]))
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    d = lift(1)
    ld = lift(0)
    sg = lift(1)
    for b in blocks(A):
        d = lift(mdet(A[np.ix_(b, b)]))
        k = S.sign_rat_known(d.r)
        if k is None:
            if bool(S.gt(d, 0)):
                k = 1
            elif bool(S.eq(d, 0)):
                k = 0
            else:
                k = -1
        if k == 0:
            return (lift(0), -S.INF)
        if k < 0:
            sg = -sg
            d = -d
        ld = ld + S.log(d)
    return (sg, ld)


def known_svd(A):
    """decomposition of a symmetric matrix the harness built from one"""
    n = len(A)
    if n == 1:
        a = lift(A[0, 0])
        if a.r.isconst():
            k = a.r.const()
            return [[1 if k >= 0 else -1]], [abs(k)], [[1]]
        if S.gt(a, 0):
            return [[1]], [a], [[1]]
        return [[-1]], [-a], [[1]]
    if all(lift(A[i, j]).r.iszero() for i in range(n) for j in range(n)):
        I = [[int(i == j) for j in range(n)] for i in range(n)]
        return I, [0] * n, I
    for B, U, s in ctx().counters.get('svd', []):
        if len(B) == n and all(S.eq(A[i, j], B[i, j]) is True for i in range(n) for j in range(n)):
            return U, s, U.T
    raise Unsupported('decomposition of a matrix whose eigenvectors are not known')


def register_svd(A, U, s):
    ctx().counters.setdefault('svd', []).append((A, U, s))


def svd(a, full_matrices=True, compute_uv=True, **k):
    A = sarr(a)
    check_square(A)
    U, s, Vt = known_svd(A)
    U, s, Vt = sarr(U).copy(), sarr(s).copy(), sarr(Vt).copy()
    return (U, s, Vt) if compute_uv else s


def eigh(a, *args, **k):
    A = sarr(a)
    check_square(A)
    U, s, Vt = known_svd(A)
    sg = [1 if S.eq(x, y) is True else -1 for x, y in zip(list(sarr(U).ravel()), list(sarr(Vt).T.ravel()))] if len(A) == 1 else [1]
    if sg[0] < 0:
        s = [-s[0]]
        U = [[1]]
    return sarr(s)[::-1].copy(), sarr(U)[:, ::-1].copy()


def mexpm(*a, **k):
    raise Unsupported('expm')


def np_exp_like(f, x):
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return f(x.item())
        r = mk(x.shape)
        xr = x.reshape(-1)
        rr = r.reshape(-1)
        for i in range(xr.size):
            np.ndarray.__setitem__(rr, i, f(xr[i]))
        return r
    if isinstance(x, (list, tuple, range)):
        return np_exp_like(f, sarr(x))
    return f(x)


def _ufunc1(f):
    def g(x, out=None, **kw):
        if kw.get('where', True) is not True:
            raise Unsupported('where=')
        return into(out, np_exp_like(f, x))
    return g


def _absel(x):
    x = lift(x)
    if type(x) is float:
        return abs(x)
    return abs(x)


def _signel(x):
    x = lift(x)
    if type(x) is float:
        return lift(1 if x > 0 else -1)
    if bool(S.gt(x, 0)):
        return lift(1)
    if bool(S.gt(0, x)):
        return lift(-1)
    return lift(0)


def pred(f):
    def g(x, **kw):
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=bool)
            for ix in np.ndindex(x.shape):
                out[ix] = f(x[ix])
            return out if x.ndim else bool(out)
        if isinstance(x, (list, tuple)):
            return g(sarr(x))
        return f(x)
    return g


isnan = pred(lambda x: isinstance(x, float) and x != x)
isinf = pred(lambda x: isinstance(x, float) and x in (S.INF, -S.INF))
isfinite = pred(lambda x: not isinstance(x, float) or _math.isfinite(x))
isneginf = pred(lambda x: isinstance(x, float) and x == -S.INF)
isposinf = pred(lambda x: isinstance(x, float) and x == S.INF)


def searchsorted(a, v, side='left', sorter=None):
    if sorter is not None:
        a = a[sorter]
    A = list(np.asarray(a).ravel())

    def one(x):
        # monotone table: linear scan; each comparison is a path decision
        for i, e in enumerate(A):
            c = S.ge(e, x) if side == 'left' else S.gt(e, x)
            if bool(c):
                return i
        return len(A)
    if isinstance(v, np.ndarray) and v.ndim or isinstance(v, (list, tuple)):
        vv = np.asarray(v, dtype=object)
        out = np.empty(vv.shape, dtype=int)
        for ix in np.ndindex(vv.shape):
            out[ix] = one(vv[ix])
        return out
    return np.int64(one(v if not isinstance(v, np.ndarray) else v.item()))


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')


def argsort(a, axis=-1, kind=None, order=None, **kw):
    A = to_arr(a)
    if not isinstance(A, SArr):
        return np.argsort(A, axis=axis, kind=kind or 'stable')
    if A.ndim != 1:
        raise Unsupported('argsort of matrices')
    idx = list(range(len(A)))
    # insertion sort on symbolic comparisons (stable)
    for i in range(1, len(idx)):
        j = i
        while j > 0 and bool(S.gt(A[idx[j - 1]], A[idx[j]])):
            idx[j - 1], idx[j] = idx[j], idx[j - 1]
            j -= 1
    return np.array(idx, dtype=int)


def npsort(a, axis=-1, **kw):
    A = to_arr(a)
    if not isinstance(A, SArr):
        return np.sort(A, axis=axis)
    if A.ndim == 1:
        return A[argsort(A)]
    raise Unsupported('sort of matrices')


def percentile(a, q, axis=None, **kw):
    A = npsort(sarr(a).ravel())
    n = len(A)
    if isinstance(q, Sym):
        q = q.r.const()
    pos = Fraction(P.norm_coef(S.frac(q))) / 100 * (n - 1)
    lo = int(pos)
    fr = pos - lo
    if fr == 0:
        return A[lo]
    return A[lo] + (A[lo + 1] - A[lo]) * fr


@outkw
def npmax(a, axis=None, keepdims=False, initial=None, **kw):
    if initial is not None:
        raise Unsupported('initial= of max')
    A = to_arr(a)
    if isinstance(A, SArr):
        return A.max(axis=axis, keepdims=keepdims)
    return np.max(A, axis=axis, keepdims=keepdims)


@outkw
def npmin(a, axis=None, keepdims=False, initial=None, **kw):
    if initial is not None:
        raise Unsupported('initial= of min')
    A = to_arr(a)
    if isinstance(A, SArr):
        return A.min(axis=axis, keepdims=keepdims)
    return np.min(A, axis=axis, keepdims=keepdims)


class Ufunc2(object):
    """a two-argument ufunc: call, reduce, accumulate, outer, at"""

    def __init__(self, real, f, whole=False, red=None):
        self.real, self.f, self.whole, self.red = real, f, whole, red
        self.__name__ = real.__name__
        self.nin, self.nout, self.identity = 2, 1, real.identity

    def __call__(self, a, b, out=None, where=None, dtype=None, **kw):
        if where is not None and where is not True:
            raise Unsupported('where= of numpy.%s' % self.__name__)
        A, B = to_arr(a), to_arr(b)
        if not isinstance(A, SArr) and not isinstance(B, SArr) and A.dtype != object and B.dtype != object and not any(isinstance(x, Sym) for x in (a, b)):
            r = self.real(a, b)
            r = sarr(r) if isinstance(r, np.ndarray) and r.dtype.kind == 'f' else r
        elif self.whole:
            r = self.f(A if isinstance(a, (list, tuple)) else a, B if isinstance(b, (list, tuple)) else b)
        else:
            r = _bin2(a, b, self.f)
        return into(out, r)

    def _one(self, x, y):
        return self.f(x, y)

    def _seq(self, xs):
        if self.red:
            return self.red(xs)
        r = xs[0]
        for x in xs[1:]:
            r = self._one(r, x)
        return r

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, **kw):
        A = to_arr(a)
        if kw.get('where', True) is not True:
            raise Unsupported('where= of numpy.%s.reduce' % self.__name__)
        if not isinstance(A, SArr):
            k = {} if initial is None else {'initial': initial}
            return self.real.reduce(A, axis=axis, keepdims=keepdims, **k)
        if A.ndim == 0:
            return A.item()

        def f(xs):
            if initial is not None:
                xs = [el(initial)] + list(xs)
            if not xs:
                if self.identity is None:
                    raise ValueError('zero-size array to reduction operation %s which has no identity' % self.__name__)
                return lift(self.identity)
            return self._seq(xs)
        return into(out, reduce_(A, axis, f, keepdims))

    def accumulate(self, a, axis=0, dtype=None, out=None):
        A = to_arr(a)
        if not isinstance(A, SArr):
            return self.real.accumulate(A, axis=axis)
        B = np.moveaxis(A, axis, -1)
        r = mk(B.shape)
        for ix in np.ndindex(B.shape[:-1]):
            for j in range(B.shape[-1]):
                r[ix + (j,)] = self._one(r[ix + (j - 1,)], B[ix + (j,)]) if j else B[ix + (j,)]
        return into(out, sarr_view(np.moveaxis(r, -1, axis)))

    def outer(self, a, b, **kw):
        A, B = to_arr(a), to_arr(b)
        return self(A.reshape(A.shape + (1,) * B.ndim), B)

    def at(self, a, idx, b=None):
        if not isinstance(a, SArr):
            return self.real.at(a, idx, b)
        I = np.arange(a.size).reshape(a.shape)[idx]
        Bv = np.broadcast_to(np.asarray(b, dtype=object), np.shape(I))
        for ix in np.ndindex(np.shape(I)):
            k = np.unravel_index(int(I[ix]), a.shape)
            a[k] = self._one(a[k], Bv[ix])


_add = Ufunc2(np.add, lambda a, b: a + b, True)
_sub = Ufunc2(np.subtract, lambda a, b: a - b, True)
_mul = Ufunc2(np.multiply, lambda a, b: a * b, True)
_div = Ufunc2(np.divide, lambda a, b: a / b, True)
_pow = Ufunc2(np.power, lambda a, b: a ** b, True)
maximum = Ufunc2(np.maximum, lambda x, y: S.maximum_2(x, y), red=S.maximum_of)
minimum = Ufunc2(np.minimum, lambda x, y: S.minimum_2(x, y), red=S.minimum_of)


def _lae(xs):
    xs = [x for x in xs if not (isinstance(x, float) and x == -S.INF)]
    if not xs:
        return -S.INF
    return logsum(xs)


def logsum(xs):
    t = lift(0)
    for x in xs:
        t = t + S.exp(x)
    return S.log(t)


logaddexp = Ufunc2(np.logaddexp, lambda x, y: _lae([x, y]), red=_lae)


def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    if return_sign:
        raise Unsupported('logsumexp with sign')
    A = sarr(a)
    m = None
    if b is not None:
        A, B = np.broadcast_arrays(A, sarr(b))
        A = sarr_view(np.asarray(A))
        m = sarr_view(np.asarray(B))

    def f(xs):
        t = lift(0)
        for x in xs:
            t = t + (S.exp(x) if m is None else x)
        return S.log(t)
    if m is not None:
        A = np_exp_like(S.exp, A) * m
    return reduce_(A, axis, f, keepdims)


def softmax(x, axis=None):
    e = np_exp_like(S.exp, sarr(x))
    return e / e.sum(axis=axis, keepdims=True)


def log_softmax(x, axis=None):
    A = sarr(x)
    return A - logsumexp(A, axis=axis, keepdims=True)


def xlogy(a, b):
    def f(x, y):
        if S.eq(lift(x), 0) is True or bool(S.eq(lift(x), 0)):
            return lift(0)
        return x * S.log(y)
    return _bin2(a, b, f)


class Norm(object):
    """scipy.stats.norm"""

    def __call__(self, loc=0, scale=1):
        return types.SimpleNamespace(logpdf=lambda x: self.logpdf(x, loc, scale), pdf=lambda x: self.pdf(x, loc, scale))

    def logpdf(self, x, loc=0, scale=1):
        x, loc, scale = [to_arr(v) if isinstance(v, (list, tuple)) else el(v) if isnum(v) else v for v in (x, loc, scale)]
        e = (x - loc) / scale
        return -(e * e) / 2 - np_exp_like(S.log, scale) - S.log(2 * S.PI) / 2

    def pdf(self, x, loc=0, scale=1):
        return np_exp_like(S.exp, self.logpdf(x, loc, scale))


class MvNorm(object):
    """scipy.stats.multivariate_normal"""

    def __call__(self, mean=None, cov=1, **kw):
        return types.SimpleNamespace(logpdf=lambda x: self.logpdf(x, mean, cov), pdf=lambda x: self.pdf(x, mean, cov))

    def logpdf(self, x, mean=None, cov=1, **kw):
        C = sarr(cov)
        X = sarr(x)
        d = C.shape[-1] if C.ndim == 2 else len(C) if C.ndim == 1 else (sarr(mean).size if mean is not None else 1)
        if C.ndim == 0:
            C = sarr(np.eye(d)) * C
        elif C.ndim == 1:
            C = npdiag(C)
        m = filled((d,), lift(0)) if mean is None else sarr(mean)
        if m.ndim > 1:
            raise ValueError('Array `mean` must be a vector of length %d.' % d)
        if X.ndim == 0:
            X = X.reshape((1,))
        elif X.ndim == 1 and d == 1:
            X = X.reshape((-1, 1))
        sg, ld = slogdet(C)
        Ci = minv(C)

        def one(v):
            e = v - m
            return -(dot(dot(e, Ci), e) + ld) / 2 - d * S.log(2 * S.PI) / 2
        if X.ndim == 1:
            return one(X)
        r = mk(X.shape[:-1])
        for ix in np.ndindex(r.shape):
            r[ix] = one(X[ix])
        return r if r.size != 1 else r.ravel()[0]

    def pdf(self, x, mean=None, cov=1, **kw):
        return np_exp_like(S.exp, self.logpdf(x, mean, cov))


def matrix_power(a, n):
    A = sarr(a)
    if n < 0:
        A, n = inv(A), -n
    r = sarr(np.eye(A.shape[-1]))
    if A.ndim > 2:
        r = sarr_view(np.array(np.broadcast_to(r, A.shape)))
    for _ in range(n):
        r = matmul(r, A)
    return r


def lanorm(a, ord=None, axis=None, keepdims=False, **kw):
    A = sarr(a)
    if axis is None and ord in (None, 'fro') or axis is None and ord == 2 and A.ndim == 1 or isinstance(axis, int) and ord in (None, 2) or isinstance(axis, tuple) and ord in (None, 'fro'):
        return np_exp_like(S.sqrt, (A * A).sum(axis=axis, keepdims=keepdims))
    if ord == 1 and (axis is None and A.ndim == 1 or isinstance(axis, int)):
        return np_exp_like(_absel, A).sum(axis=axis, keepdims=keepdims)
    raise Unsupported('norm of order %r' % (ord,))


def lstsq(a, b, *args, **kw):
    A = sarr(a)
    if A.ndim == 2 and A.shape[0] == A.shape[1]:
        return (solve_np(A, b), sarr(np.zeros(0)), len(A), None)
    raise Unsupported('lstsq')


class Concat(object):
    """numpy.r_ and numpy.c_ without the string directives"""

    def __init__(self, cols):
        self.cols = cols

    def __getitem__(self, key):
        parts = []
        for k in key if isinstance(key, tuple) else (key,):
            if isinstance(k, str):
                raise Unsupported('string directive of r_')
            if isinstance(k, slice):
                k = arange(k.start or 0, k.stop, 1 if k.step is None else k.step) if not isinstance(k.step, complex) else linspace(k.start, k.stop, int(abs(k.step)))
            a = to_arr(k)
            a = a.reshape((1,)) if a.ndim == 0 else a
            parts.append(a.reshape((-1, 1)) if self.cols and a.ndim == 1 else a)
        return cat(np.concatenate)(parts, axis=-1 if self.cols else 0)


def apply_along_axis(f, axis, a, *args, **kw):
    B = np.moveaxis(to_arr(a), axis, -1)
    out = None
    for ix in np.ndindex(B.shape[:-1]):
        r = to_arr(f(B[ix], *args, **kw))
        if out is None:
            out = mk(B.shape[:-1] + r.shape) if isinstance(r, SArr) else np.empty(B.shape[:-1] + r.shape, r.dtype)
        out[ix] = r if r.ndim else r.item()
    k = out.ndim - B.ndim + 1
    return np.moveaxis(out, range(B.ndim - 1, out.ndim), range(axis % B.ndim, axis % B.ndim + k)) if k else out


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = lift(Fraction(np.finfo(float).max))

    def f(v):
        if not isinstance(v, float):
            return v
        if v != v:
            return el(nan)
        return (big if posinf is None else el(posinf)) if v > 0 else (-big if neginf is None else el(neginf))
    r = np_exp_like(f, to_arr(x))
    if copy:
        return r
    x[...] = r
    return x


def _nan(f):
    def g(a, axis=None, keepdims=False, **kw):
        A = sarr(a)
        return reduce_(A, axis, lambda xs: f([x for x in xs if x == x or not isinstance(x, float)]), keepdims)
    return g


def fromiter(it, dtype=float, count=-1, **kw):
    x = list(it) if count < 0 else list(itertools.islice(it, count))
    if is_float_dtype(dtype):
        return sarr(x) if x else mk((0,))
    if dtype in (bool, np.bool_):
        return np.array([bool(v) for v in x], dtype=bool)
    return to_arr(x, dtype)


def _bin2(a, b, f):
    A = np.asarray(a, dtype=object)
    B = np.asarray(b, dtype=object)
    if A.ndim == 0 and B.ndim == 0:
        return f(A.item(), B.item())
    A, B = np.broadcast_arrays(A, B)
    r = mk(A.shape)
    for ix in np.ndindex(A.shape):
        r[ix] = f(A[ix], B[ix])
    return r


def where(c, *args):
    if not args:
        return np.where(c)
    x, y = args
    C, X, Y = np.broadcast_arrays(np.asarray(c), np.asarray(x, dtype=object), np.asarray(y, dtype=object))
    r = mk(C.shape)
    for ix in np.ndindex(C.shape):
        r[ix] = X[ix] if C[ix] else Y[ix]
    return r


def npdiag(a, k=0):
    A = to_arr(a)
    if A.ndim == 1:
        n = len(A) + abs(k)
        r = filled((n, n), lift(0)) if isinstance(A, SArr) else np.zeros((n, n), A.dtype)
        for i in range(len(A)):
            r[i + (-k if k < 0 else 0), i + (k if k > 0 else 0)] = A[i]
        return r
    return np.diagonal(A, k).copy()


@outkw
def matmul(a, b, **kw):
    A, B = sarr(a), sarr(b)
    if A.ndim <= 2 and B.ndim <= 2:
        return dot(A, B)
    shp = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A2 = np.broadcast_to(A, shp + A.shape[-2:])
    B2 = np.broadcast_to(B, shp + B.shape[-2:])
    out = mk(shp + (A.shape[-2], B.shape[-1]))
    for ix in np.ndindex(shp):
        out[ix] = dot(sarr_view(A2[ix]), sarr_view(B2[ix]))
    return out


@outkw
def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported('einsum without subscripts')
    ops = [np.asarray(sarr(o), dtype=object) for o in ops]
    if '->' in spec:
        ins, out = spec.replace(' ', '').split('->')
    else:
        ins = spec.replace(' ', '')
        out = ''.join(sorted(c for c in set(ins) if c != ',' and ins.count(c) == 1))
    ins = ins.split(',')
    if '...' in spec:
        free = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in spec]
        nel = [o.ndim - len(s.replace('...', '')) if '...' in s else 0 for s, o in zip(ins, ops)]
        k = max(nel)
        shp = np.broadcast_shapes(*[o.shape[s.index('...'):s.index('...') + n] for s, o, n in zip(ins, ops, nel) if '...' in s])
        for q, (s, o, n) in enumerate(zip(ins, ops, nel)):
            if '...' in s:
                i = s.index('...')
                o = o.reshape(o.shape[:i] + (1,) * (k - n) + o.shape[i:])
                ops[q] = np.broadcast_to(o, o.shape[:i] + shp + o.shape[i + k:])
                ins[q] = s.replace('...', ''.join(free[:k]))
        out = out.replace('...', ''.join(free[:k])) if '->' in spec else ''.join(free[:k]) + out.replace('.', '')
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in out]
    res = mk(tuple(dims[c] for c in out))
    for ix in np.ndindex(res.shape):
        e = dict(zip(out, ix))
        t = lift(0)
        for jx in itertools.product(*[range(dims[c]) for c in summed]):
            e.update(zip(summed, jx))
            p = lift(1)
            for s, o in zip(ins, ops):
                p = p * o[tuple(e[c] for c in s)]
            t = t + p
        res[ix] = t
    return res if res.ndim else res.item()


def npcopy(a, order='K', subok=False):
    A = to_arr(a)
    if A.dtype == object and not isinstance(A, SArr):
        return np.array(A, copy=True)
    return A.copy()


def nparray(a, dtype=None, copy=True, **kw):
    A = to_arr(a, dtype)
    A = A.copy() if copy else A
    nd = kw.get('ndmin', 0)
    while A.ndim < nd:
        A = A[np.newaxis]
    return A


def creation(val):
    def f(shape, dtype=float, order='C', **kw):
        if dtype is None or is_float_dtype(dtype):
            if isinstance(shape, Sym):
                shape = int(shape)
            if val is None:
                return fresh(shape)
            return filled(shape, lift(val))
        if is_obj_dtype(dtype):
            return np.empty(shape, dtype=object) if val is None else np.full(shape, val, dtype=object)
        if val is None:
            # uninitialised integers: an out-of-range marker unlikely to be right
            r = np.empty(shape, dtype=dtype)
            if r.dtype.kind == 'i':
                r[...] = -987654
            return r
        return np.full(shape, val, dtype=dtype)
    return f


def full(shape, v, dtype=None, **kw):
    if dtype is None and isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return np.full(shape, v)
    if isinstance(v, (bool, np.bool_)) and dtype is None:
        return np.full(shape, v)
    if dtype is not None and not is_float_dtype(dtype):
        return np.full(shape, v, dtype=dtype)
    if isinstance(v, np.ndarray):
        r = mk(shape)
        r[...] = v
        return r
    return filled(shape, el(v))


def like(val):
    c = creation(val)

    def f(a, dtype=None, shape=None, **kw):
        A = to_arr(a)
        if dtype is None:
            dtype = float if isinstance(A, SArr) else A.dtype
        return c(A.shape if shape is None else shape, dtype)
    return f


def full_like(a, v, dtype=None, **kw):
    A = to_arr(a)
    if dtype is None:
        dtype = float if isinstance(A, SArr) else A.dtype
    return full(A.shape, v, dtype)


def eye(N, M=None, k=0, dtype=float, **kw):
    r = np.eye(N, M, k)
    return sarr(r) if is_float_dtype(dtype) else r.astype(dtype)


def arange(*a, **kw):
    dt = kw.get('dtype')
    if any(isinstance(x, (Sym, float)) for x in a):
        a = [x.r.const() if isinstance(x, Sym) else x for x in a]
        return sarr(np.arange(*[float(x) for x in a]))
    r = np.arange(*a, **kw)
    return sarr(r) if r.dtype.kind == 'f' else r


def linspace(a, b, n=50, endpoint=True, **kw):
    a = lift(a)
    b = lift(b)
    den = (n - 1) if endpoint else n
    return sarr([a + (b - a) * Fraction(i, den) if den else a for i in range(n)])


def cat(f):
    def g(seq, *args, **kw):
        parts = [to_arr(x) for x in seq]
        if any(isinstance(p, SArr) for p in parts):
            parts = [p if (isinstance(p, SArr) or p.dtype == object) else sarr(p) for p in parts]
            kw.pop('dtype', None)
            return sarr_view(f([np.asarray(p) for p in parts], *args, **kw))
        return f(parts, *args, **kw)
    return g


def shapefn(f):
    def g(a, *args, **kw):
        A = to_arr(a)
        return f(A, *args, **kw)
    return g


@outkw
def cumsum(a, axis=None, dtype=None):
    A = to_arr(a)
    if isinstance(A, SArr):
        return sarr_view(np.cumsum(np.asarray(A, dtype=object), axis=axis))
    return np.cumsum(A, axis=axis)


@outkw
def npsum(a, axis=None, dtype=None, keepdims=False, initial=0, **kw):
    if initial:
        return initial + npsum(a, axis=axis, keepdims=keepdims)
    if isinstance(a, types.GeneratorType):
        return sum(a)
    A = to_arr(a)
    if isinstance(A, SArr):
        return A.sum(axis=axis, keepdims=keepdims)
    r = np.sum(A, axis=axis, keepdims=keepdims)
    return r


@outkw
def npmean(a, axis=None, dtype=None, keepdims=False, **kw):
    A = to_arr(a)
    if not isinstance(A, SArr):
        A = sarr(A)
    return A.mean(axis=axis, keepdims=keepdims)


def average(a, axis=None, weights=None, returned=False, **kw):
    A = sarr(a)
    if weights is None:
        return A.mean(axis=axis)
    W = sarr(weights)
    if W.shape != A.shape:
        if axis is None or W.ndim != 1:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        shp = [1] * A.ndim
        shp[axis] = len(W)
        W = W.reshape(shp)
        W = sarr_view(np.broadcast_to(W, A.shape))
    return (A * W).sum(axis=axis) / W.sum(axis=axis)


def closeto(x, y, rtol, atol):
    x, y = lift(x), lift(y)
    if type(x) is float or type(y) is float:
        return type(x) is float and type(y) is float and x == y
    d = x - y
    if d.r.isconst() and d.r.const() == 0:
        return True
    tol = lift(atol) + lift(rtol) * abs(y)
    return bool(S.ge(tol, d)) and bool(S.ge(tol, -d))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    A, B = np.broadcast_arrays(np.asarray(sarr(a)), np.asarray(sarr(b)))
    return all(closeto(x, y, rtol, atol) for x, y in zip(A.ravel(), B.ravel()))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _bin2(a, b, lambda x, y: closeto(x, y, rtol, atol))
    return r.astype(bool) if isinstance(r, np.ndarray) else r


def array_equal(a, b, **kw):
    A, B = to_arr(a), to_arr(b)
    if A.shape != B.shape:
        return False
    return all(bool(S.eq(x, y)) if isnum(x) and isnum(y) else bool(x == y) for x, y in zip(A.ravel(), B.ravel()))


def array_equiv(a, b):
    A, B = to_arr(a), to_arr(b)
    try:
        A, B = np.broadcast_arrays(np.asarray(A), np.asarray(B))
    except ValueError:
        return False
    return all(bool(S.eq(x, y)) for x, y in zip(A.ravel(), B.ravel()))


def npany(a, axis=None, **kw):
    A = to_arr(a)
    return A.any(axis=axis)


def npall(a, axis=None, **kw):
    A = to_arr(a)
    return A.all(axis=axis)


def nptrace(a, *args, **kw):
    A = to_arr(a)
    kw.pop('dtype', None)
    r = np.trace(np.asarray(A), *args, **kw)
    return r if not isinstance(r, np.ndarray) else sarr_view(r)


def kron(a, b):
    A, B = sarr(a), sarr(b)
    r = mk((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]))
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            r[i * B.shape[0]:(i + 1) * B.shape[0], j * B.shape[1]:(j + 1) * B.shape[1]] = A[i, j] * B
    return r


def outer(a, b, **kw):
    A, B = sarr(a).ravel(), sarr(b).ravel()
    return sarr_view(A.reshape(-1, 1) * B.reshape(1, -1))


def argmaxf(a, axis=None, **kw):
    A = to_arr(a)
    return A.argmax(axis=axis)


def argminf(a, axis=None, **kw):
    A = to_arr(a)
    return A.argmin(axis=axis)


def floor_(x):
    x = lift(x)
    if type(x) is Sym and x.r.isconst():
        return lift(_math.floor(x.r.const()))
    if type(x) is Sym:
        # symbolic floor: small search range, forks
        for k in range(0, 64):
            if bool(S.gt(k + 1, x)) and bool(S.ge(x, k)):
                return lift(k)
    raise Unsupported('floor')


def rint_(x):
    x = lift(x)
    if type(x) is Sym and x.r.isconst():
        return lift(round(x.r.const()))
    raise Unsupported('rint')


def ceil_(x):
    return -floor_(-lift(x))


def square_(x):
    return x * x if not isinstance(x, (list, tuple)) else sarr(x) * sarr(x)


def log1p_(x):
    return S.log(lift(x) + 1)


def log2_(x):
    return S.log(x) / S.log(lift(2))


def dotf(a, b, out=None):
    r = dot(a, b)
    if out is not None:
        out[...] = r
        return out
    return r


def make_numpy(rnd):
    m = types.ModuleType('numpy')
    real = np

    class _NP(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith('__'):
                raise AttributeError(k)
            return getattr(real, k)     # raises AttributeError for removed aliases, as numpy does
    m = _NP('numpy')
    d = m.__dict__
    d.update(
        __path__=[], __version__=np.__version__, ndarray=np.ndarray, pi=S.PI, inf=S.INF, Inf=S.INF, nan=float('nan'),
        empty=creation(None), zeros=creation(0), ones=creation(1), full=full,
        empty_like=like(None), zeros_like=like(0), ones_like=like(1), full_like=full_like, eye=eye,
        identity=lambda n, dtype=float: eye(n), arange=arange, linspace=linspace,
        array=nparray, asarray=lambda a, dtype=None, order=None: to_arr(a, dtype),
        asanyarray=lambda a, dtype=None: to_arr(a, dtype), ascontiguousarray=lambda a, dtype=None: to_arr(a, dtype),
        asfortranarray=lambda a, dtype=None: to_arr(a, dtype),
        copy=npcopy, exp=_ufunc1(S.exp), log=_ufunc1(S.log), sqrt=_ufunc1(S.sqrt), abs=_ufunc1(_absel),
        absolute=_ufunc1(_absel), fabs=_ufunc1(_absel), sign=_ufunc1(_signel), floor=_ufunc1(floor_), ceil=_ufunc1(ceil_),
        log1p=_ufunc1(log1p_), log2=_ufunc1(log2_), log10=_ufunc1(lambda x: S.log(x) / S.log(lift(10))),
        expm1=_ufunc1(lambda x: S.exp(x) - 1), exp2=_ufunc1(lambda x: S.exp(x * S.log(lift(2)))), reciprocal=_ufunc1(lambda x: 1 / lift(x)),
        rint=_ufunc1(rint_), fmax=maximum, fmin=minimum, hypot=Ufunc2(np.hypot, lambda a, b: S.sqrt(a * a + b * b)),
        float_power=_pow, fromiter=fromiter, r_=Concat(False), c_=Concat(True), apply_along_axis=apply_along_axis, nan_to_num=nan_to_num,
        nansum=_nan(lambda x: sum(x, lift(0))), nanmean=_nan(lambda x: sum(x, lift(0)) / len(x)), nanmin=_nan(S.minimum_of), asfarray=lambda a, dtype=None: sarr(to_arr(a)),
        square=_ufunc1(lambda x: lift(x) * lift(x)), isnan=isnan, isinf=isinf, isfinite=isfinite, isneginf=isneginf, isposinf=isposinf,
        max=npmax, min=npmin, amax=npmax, amin=npmin, nanmax=_nan(S.maximum_of), maximum=maximum, minimum=minimum,
        argmax=argmaxf, argmin=argminf, argsort=argsort, sort=npsort, searchsorted=searchsorted, digitize=digitize,
        percentile=percentile, where=where, diag=npdiag, triu=triu, tril=tril, dot=dotf, matmul=matmul, einsum=einsum,
        vdot=lambda a, b: dot(sarr(a).ravel(), sarr(b).ravel()), inner=lambda a, b: dot(sarr(a), sarr(b).T),
        outer=outer, kron=kron, trace=nptrace, cumsum=cumsum, sum=npsum, mean=npmean, average=average,
        logaddexp=logaddexp, allclose=allclose, isclose=isclose, array_equal=array_equal,
        array_equiv=array_equiv, any=npany, all=npall,
        power=_pow, add=_add, subtract=_sub, multiply=_mul, divide=_div, true_divide=_div, negative=_ufunc1(lambda x: -lift(x)),
        concatenate=cat(np.concatenate), vstack=cat(np.vstack), hstack=cat(np.hstack), stack=cat(np.stack),
        column_stack=cat(np.column_stack), dstack=cat(np.dstack),
        var=lambda a, axis=None, **k: sarr(a).var(axis=axis), std=lambda a, axis=None, **k: sarr(a).std(axis=axis),
        prod=shapefn(np.prod), ravel=shapefn(np.ravel), reshape=shapefn(np.reshape), repeat=shapefn(np.repeat),
        tile=shapefn(np.tile), transpose=shapefn(np.transpose), squeeze=shapefn(np.squeeze),
        expand_dims=shapefn(np.expand_dims), diff=shapefn(np.diff), diagonal=shapefn(np.diagonal),
        atleast_1d=shapefn(np.atleast_1d), atleast_2d=shapefn(np.atleast_2d), swapaxes=shapefn(np.swapaxes),
        moveaxis=shapefn(np.moveaxis), rollaxis=shapefn(np.rollaxis), roll=shapefn(np.roll), flip=shapefn(np.flip),
        delete=shapefn(np.delete), take=shapefn(np.take), clip=lambda a, lo, hi, **k: sarr(a).clip(lo, hi),
        broadcast_to=lambda a, s, **k: sarr_view(np.broadcast_to(to_arr(a), s)) if isinstance(to_arr(a), SArr) else np.broadcast_to(a, s),
        random=rnd,
    )
    la = types.ModuleType('numpy.linalg')
    la.__dict__.update(LinAlgError=np.linalg.LinAlgError, inv=inv, det=det, solve=solve_np, slogdet=slogdet, svd=svd, eigh=eigh, eigvalsh=lambda a, **k: eigh(a)[0],
                       cholesky=cholesky_np, pinv=inv, multi_dot=lambda l: __import__('functools').reduce(dot, l),
                       norm=lanorm, matrix_power=matrix_power, lstsq=lstsq)

    def la_missing(k):
        raise Unsupported('numpy.linalg.%s' % k)
    la.__getattr__ = la_missing
    d['linalg'] = la
    return m


def make_scipy(opt):
    sp = types.ModuleType('scipy')
    sp.__path__ = []
    la = types.ModuleType('scipy.linalg')

    def block_diag(*arrs):
        arrs = [sarr(a) if sarr(a).ndim == 2 else sarr(a).reshape((1, -1)) for a in arrs]
        r = filled((sum(a.shape[0] for a in arrs), sum(a.shape[1] for a in arrs)), lift(0))
        i = j = 0
        for a in arrs:
            r[i:i + a.shape[0], j:j + a.shape[1]] = a
            i += a.shape[0]
            j += a.shape[1]
        return r
    la.__dict__.update(cho_factor=cho_factor, cho_solve=cho_solve, cholesky=cholesky_sp, inv=overwrites(0, 'overwrite_a')(lambda a, **k: inv(a)),
                       det=lambda a, **k: det(a), solve=solve_sp, solve_triangular=solve_triangular,
                       LinAlgError=np.linalg.LinAlgError, block_diag=block_diag, svd=svd, eigh=eigh, pinv=lambda a, **k: inv(a),
                       triu=triu, tril=tril, norm=lanorm, lstsq=lstsq, eigvalsh=lambda a, **k: eigh(a)[0])

    def la_missing(k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('scipy.linalg.%s' % k)
    la.__getattr__ = la_missing
    sp.linalg = la
    sp.optimize = opt
    sp.special = types.ModuleType('scipy.special')
    sp.special.__dict__.update(logsumexp=logsumexp, softmax=softmax, log_softmax=log_softmax, xlogy=xlogy,
                               log1p=_ufunc1(log1p_), expm1=_ufunc1(lambda x: S.exp(x) - 1))
    sp.stats = types.ModuleType('scipy.stats')
    sp.stats.__dict__.update(norm=Norm(), multivariate_normal=MvNorm())

    def missing(m):
        def f(k):
            if k.startswith('__'):
                raise AttributeError(k)
            raise Unsupported('%s.%s' % (m.__name__, k))
        m.__getattr__ = f
    for m in (sp, sp.special, sp.stats):
        missing(m)
    return sp, la


def make_bisect():
    m = types.ModuleType('bisect')

    def find(side):
        def f(a, x, lo=0, hi=None, key=None):
            hi = len(a) if hi is None else hi
            for i in range(lo, hi):
                e = a[i] if key is None else key(a[i])
                if bool(S.ge(e, x) if side == 'left' else S.gt(e, x)) if isnum(e) and isnum(x) else (not e < x if side == 'left' else x < e):
                    return i
            return hi
        return f
    m.bisect_left, m.bisect_right = find('left'), find('right')
    m.bisect = m.bisect_right
    m.insort = m.insort_right = lambda a, x, **k: a.insert(m.bisect_right(a, x, **k), x)
    m.insort_left = lambda a, x, **k: a.insert(m.bisect_left(a, x, **k), x)
    return m


def make_math():
    m = types.ModuleType('math')

    def wrap(f, g):
        def h(x, *a):
            if isinstance(x, (Sym, np.ndarray)) or type(x) is Fraction:
                if isinstance(x, np.ndarray):
                    if x.size != 1:
                        raise TypeError('only length-1 arrays can be converted to Python scalars')
                    x = x.ravel()[0]
                if isinstance(x, Sym) or type(x) is Fraction:
                    r = f(lift(x))
                    if g == 'log' and isinstance(r, float) and r != S.INF:
                        raise ValueError('math domain error')
                    if g == 'sqrt' and isinstance(r, float):
                        raise ValueError('math domain error')
                    return r
            if g in ('log', 'sqrt', 'exp'):
                if g == 'log' and x <= 0:
                    raise ValueError('math domain error')
                if g == 'sqrt' and x < 0:
                    raise ValueError('math domain error')
                return f(lift(x))
            return getattr(_math, g)(x, *a)
        return h

    def ceil(x):
        if isinstance(x, Sym):
            return int(ceil_(x))
        return _math.ceil(x)

    def floor(x):
        if isinstance(x, Sym):
            return int(floor_(x))
        return _math.floor(x)
    m.__dict__.update({k: getattr(_math, k) for k in dir(_math) if not k.startswith('__')})
    m.log = wrap(S.log, 'log')
    m.exp = wrap(S.exp, 'exp')
    m.sqrt = wrap(S.sqrt, 'sqrt')
    m.fabs = lambda x: _absel(x)
    m.ceil = ceil
    m.floor = floor
    m.pi = S.PI
    m.pow = lambda a, b: a ** b
    m.isnan = lambda x: isinstance(x, float) and x != x
    m.isinf = lambda x: isinstance(x, float) and _math.isinf(x)
    m.isfinite = lambda x: not isinstance(x, float) or _math.isfinite(x)

    def log(x, base=None):
        r = wrap(S.log, 'log')(x)
        return r if base is None else r / wrap(S.log, 'log')(base)

    def issym(x):
        return isinstance(x, (Sym, np.ndarray, Fraction))
    m.log = log
    for k, f in dict(log2=lambda x: log(x, 2), log10=lambda x: log(x, 10), log1p=lambda x: log(lift(x) + 1), expm1=lambda x: S.exp(lift(x)) - 1,
                     hypot=lambda *x: m.sqrt(sum(lift(v) * lift(v) for v in x)), copysign=lambda a, b: _absel(a) if S.ge(b, 0) else -_absel(a)).items():
        setattr(m, k, (lambda f, g: lambda *x: f(*x) if any(issym(v) for v in x) else g(*x))(f, getattr(_math, k)))
    m.fsum = lambda xs: sum(list(xs), lift(0))
    return m
