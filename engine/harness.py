"""Two-mode harnesses: symbolic execution of /repo's code, and concrete replay against the real modules."""
import decimal
import json
import math
import os
import random
import sys
import time
import traceback
import types
import zlib
from fractions import Fraction

import warnings
import numpy as np
warnings.simplefilter('ignore')

from engine import sym as S
from engine import shim
from engine import poly as P
from engine.sym import Sym, Unsupported, Infeasible, lift
from engine.loader import SymLoader, RealLoader, build_ext
import z3

SEED = int(os.environ.get('VERIF_SEED', '1'))


class Fail(BaseException):
    def __init__(self, what, detail=''):
        self.what = what
        self.detail = detail


class Discard(BaseException):
    pass


# ------------------------------------------------------------------ randomness stub
class Rand(types.ModuleType):
    """numpy.random replacement in both modes; primitive draws come from the harness"""

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy.random')
        self.h = None

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('numpy.random.%s' % k)

    def _size(self, size):
        if size is None:
            return None
        if isinstance(size, (int, np.integer)):
            return (int(size),)
        return tuple(int(x) for x in size)

    def _fill(self, size, f):
        size = self._size(size)
        if size is None:
            return f()
        n = int(np.prod(size)) if size else 1
        return self.h.mkarr([f() for _ in range(n)], size)

    def _u(self):
        return self.h.draw('U')

    def _z(self):
        return self.h.draw('Z')

    def rand(self, *shape):
        return self._fill(shape if shape else None, self._u)

    def random_sample(self, size=None):
        return self._fill(size, self._u)
    random = ranf = random_sample

    def sample(self, size=None):
        return self._fill(size, self._u)

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self._fill(size, self._u)
        if isinstance(low, (int, float)) and isinstance(high, (int, float)) and low == 0 and high == 1:
            return r
        return low + (high - low) * r

    def randn(self, *shape):
        return self._fill(shape if shape else None, self._z)

    def standard_normal(self, size=None):
        return self._fill(size, self._z)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (isinstance(loc, np.ndarray) or isinstance(scale, np.ndarray)):
            size = np.broadcast_shapes(np.shape(loc), np.shape(scale))
        r = self._fill(size, self._z)
        if isinstance(loc, (int, float)) and isinstance(scale, (int, float)) and loc == 0 and scale == 1:
            return r
        return loc + scale * r

    def multivariate_normal(self, mean, cov, size=None, check_valid='warn', tol=1e-8, **kw):
        mean = self.h.asarr(mean)
        cov = self.h.asarr(cov)
        if mean.ndim != 1:
            raise ValueError('mean must be 1 dimensional')
        if cov.ndim != 2 or cov.shape[0] != cov.shape[1]:
            raise ValueError('cov must be 2 dimensional and square')
        if cov.shape[0] != mean.shape[0]:
            raise ValueError('mean and cov must have same length')
        size = self._size(size)
        n = 1 if size is None else int(np.prod(size))
        d = len(mean)
        rows = []
        for _ in range(n):
            w = self.h.draw_group(d, cov)
            rows.extend([mean[i] + w[i] for i in range(d)])
        return self.h.mkarr(rows, (size or ()) + (d,))

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            x = np.arange(x)
        x = np.asarray(x) if not isinstance(x, np.ndarray) else x
        n = len(x)
        left = list(range(n))
        order = []
        if n > 16:      # a bound: one shuffle stands for all
            step = next(k for k in (7, 11, 13) if n % k)
            order = [(step * i + 3) % n for i in range(n)]
            left = []
        while left:
            k = self.h.choose(len(left), 'perm') if len(left) > 1 else 0
            order.append(left.pop(k))
        if n > 1:
            self.h.events.append(('perm', list(order)))
        return x[np.array(order, dtype=int)] if n else x.copy()

    def shuffle(self, x):
        x[:] = self.permutation(x)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        f = lambda: int(low) + self.h.choose(int(high) - int(low), 'randint')
        if size is None:
            return f()
        size = self._size(size)
        return np.array([f() for _ in range(int(np.prod(size)))], dtype=int).reshape(size)

    def choice(self, a, size=None, replace=True, p=None):
        items = np.arange(a) if isinstance(a, (int, np.integer)) else a if isinstance(a, np.ndarray) else np.asarray(a)
        n = len(items)
        shp = self._size(size)
        m = 1 if shp is None else int(np.prod(shp))
        if not replace:
            if p is not None:
                raise Unsupported('numpy.random.choice without replacement and with probabilities')
            idx = np.asarray(self.permutation(n))[:m]
        elif p is None:
            idx = np.array([self.h.choose(n, 'choice') for _ in range(m)], dtype=int)
        else:
            cdf = self.h.np.cumsum(self.h.asarr(p))
            cdf = cdf / cdf[-1]
            idx = np.array([int(self.h.np.searchsorted(cdf, self._u(), side='right')) for _ in range(m)], dtype=int)
        return items[int(idx[0])] if shp is None else items[idx.reshape(shp)]

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if endpoint:
            low, high = (0, low + 1) if high is None else (low, high + 1)
        return self.randint(low, high, size)

    def seed(self, *a):
        pass

    def RandomState(self, *a):
        return self

    def default_rng(self, *a):
        return self


class OptStub(types.ModuleType):
    """scipy.optimize replacement: hands calls of minimize to the harness"""

    def __init__(self):
        types.ModuleType.__init__(self, 'scipy.optimize')
        self.handler = None

    def minimize(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None):
        return self.handler(fun=fun, x0=x0, args=args, method=method, jac=jac, bounds=bounds, tol=tol, options=options)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('scipy.optimize.%s' % k)


class OptResult(dict):
    __getattr__ = dict.__getitem__


# ------------------------------------------------------------------ common part
class Base(object):
    def __init__(self, params):
        self.p = params
        self.nobl = 0
        self.counter = {}
        self.zvars = []       # normal draws in order: (name, group index, position)
        self.groups = []      # covariance of each group
        self.inject = None
        self.choices = []
        self.store = {}
        self.events = []      # ('U', name) and ('perm', order) in the order of use

    # naming
    def cnt(self, k):
        n = self.counter.get(k, 0)
        self.counter[k] = n + 1
        return n

    def vec(self, name, *shape, **kw):
        kind = kw.get('kind', 'real')
        f = getattr(self, kind)
        n = int(np.prod(shape)) if shape else 1
        vals = []
        for ix in np.ndindex(*shape):
            vals.append(f('%s%s' % (name, list(ix))))
        return self.mkarr(vals, shape)

    def spdn(self, name, N, n):
        """N positive definite matrices"""
        out = self.zeros((N, n, n))
        for i in range(N):
            out[i] = self.spd('%s%d' % (name, i), n)
        return out

    def same(self, a, b, what):
        """plain Python equality of untyped data"""
        self.nobl += 1
        if not (a == b):
            self.failed(what, 'got %r, expected %r' % (a, b))

    def fail(self, what, detail=''):
        self.nobl += 1
        self.failed(what, detail)

    def less(self, a, b):
        """a < b on this path, equality excluded (a null event)"""
        self.assume(self.ne(a, b))
        return bool(self.lt(a, b))

    def tape(self, start=0):
        return Tape(self, self.events[start:])

    def reg(self):
        r = self.store.get('reg')
        if r is None:
            r = Registry()
            self.store['reg'] = r
        return r


class Tape(object):
    """the random numbers the code used, for a reference computation"""

    def __init__(self, h, ev):
        self.h = h
        self.ev = list(ev)

    def u(self):
        if not self.ev or self.ev[0][0] != 'U':
            self.h.fail('uniform numbers are used where the method needs them', 'next event %s' % (self.ev[:1],))
        return self.h.unit(self.ev.pop(0)[1])

    def perm(self, n):
        if n < 2:
            return list(range(n))
        if not self.ev or self.ev[0][0] != 'perm' or len(self.ev[0][1]) != n:
            self.h.fail('drawn indices are randomly permuted among the trajectories', 'next event %s' % (self.ev[:1],))
        return self.ev.pop(0)[1]

    def sample(self, w, n):
        """systematic sampling of n indices for weights w with one offset; None stands for weight zero"""
        h = self.h
        u = self.u()
        w = [h.const(0) if x is None else x for x in w]
        tot = w[0]
        for x in w[1:]:
            tot = tot + x
        out = []
        for k in range(n):
            c = None
            for i, x in enumerate(w):
                c = x if c is None else c + x
                last = i == len(w) - 1
                if not last:
                    h.assume(h.ne((u + k) * tot, n * c))    # ties have probability zero
                if last or h.less((u + k) * tot, n * c):
                    out.append(i)
                    break
        return out


class Registry(object):
    """hash-consed provenance tokens"""

    def __init__(self):
        self.ids = {}
        self.keys = []

    def tok(self, key):
        i = self.ids.get(key)
        if i is None:
            i = len(self.keys)
            self.ids[key] = i
            self.keys.append(key)
        return i + 1000


# ------------------------------------------------------------------ symbolic mode
class SymH(Base):
    mode = 'sym'
    sym = True

    def __init__(self, params, ctx, config):
        Base.__init__(self, params)
        self.ctx = ctx
        self.rnd = Rand()
        self.rnd.h = self
        self.opt = OptStub()
        self.loader = SymLoader(config, self.rnd, self.opt)
        self.np = self.loader.np
        self.base = set()
        self.reached = False

    def mod(self, name):
        return self.loader.load(name)

    def _v(self, name, kind):
        self.base.add(name)
        return Sym(P.rvar(P.new_var(name, kind)))

    def real(self, name):
        return self._v(name, 'real')

    def pos(self, name):
        return self._v(name, 'pos')

    def unit(self, name):
        return self._v(name, 'unit')

    def const(self, x):
        return lift(x)

    def mkarr(self, vals, shape):
        a = shim.mk((len(vals),))
        for i, v in enumerate(vals):
            np.ndarray.__setitem__(a, i, shim.el(v))
        return a.reshape(shape)

    def arr(self, x):
        return shim.sarr(np.array(x, dtype=object)).copy()

    def asarr(self, x):
        return shim.sarr(x)

    def zeros(self, shape):
        return shim.filled(shape, lift(0))

    def spd(self, name, n):
        A = self.zeros((n, n))
        for i in range(n):
            for j in range(i, n):
                v = self.pos('%s[%d,%d]' % (name, i, j)) if i == j else self.real('%s[%d,%d]' % (name, i, j))
                A[i, j] = v
                A[j, i] = v
        for k in range(2, n + 1):
            d = shim.mdet(A[:k, :k])
            P.factor(d.r.n)
            self.ctx.assume(S.gt(d, 0))
        return A

    def spd_svd(self, name, n, rank=None):
        """positive (semi)definite n x n matrix with known eigenvectors: every one is reached"""
        rank = n if rank is None else rank
        if n == 1:
            r = self.pos(name + '_r') if rank else lift(0)
            return self.mkarr([r * r], (1, 1))
        if n != 2:
            raise S.Unsupported('eigenvectors in more than two dimensions')
        a, b, k = self.real(name + '_a'), self.real(name + '_b'), (self.pos(name + '_k') if rank == 2 else lift(0))
        w = a * a + b * b
        P.factor(w.r.n)
        self.ctx.assume(S.gt(w, 0))             # (a, b) is not the null vector
        if rank == 0:
            return self.zeros((2, 2))
        if rank == 2:
            self.ctx.assume(S.ge(1, k))         # singular values are sorted
        q = S.sqrt(w)
        U = self.mkarr([a / q, -b / q, b / q, a / q], (2, 2))
        k2 = k * k
        A = self.mkarr([a * a + k2 * b * b, (1 - k2) * a * b, (1 - k2) * a * b, b * b + k2 * a * a], (2, 2))
        shim.register_svd(A.copy(), U, self.mkarr([w, k2 * w], (2,)))
        if rank == 2:
            self.pd(A)
        return A

    def pd(self, M):
        """M is positive definite by a lemma of linear algebra (named at the call): its principal minors are positive"""
        import itertools
        M = shim.sarr(M)
        n = len(M)
        for k in range(1, n + 1):
            for b in itertools.combinations(range(n), k):
                d = lift(shim.mdet(M[np.ix_(b, b)]))
                if d.r.isconst() or S.sign_rat_known(d.r) == 1:
                    continue
                P.factor(d.r.n)
                self.ctx.assume(S.gt(d, 0))
                self.ctx.count('pd_lemmas')
        return M

    def draw(self, kind):
        n = self.cnt(kind)
        if kind == 'U':
            self.events.append(('U', 'U%d' % n))
            return self.unit('U%d' % n)
        v = self.real('Z%d' % n)
        self.groups.append(None)
        self.zvars.append(('Z%d' % n, len(self.groups) - 1, 0))
        return v

    def draw_group(self, d, cov):
        n = self.cnt('W')
        self.groups.append(cov.copy())
        out = []
        for i in range(d):
            nm = 'W%d_%d' % (n, i)
            out.append(self.real(nm))
            self.zvars.append((nm, len(self.groups) - 1, i))
        return out

    def choose(self, n, what=''):
        if what in ('anc', 'find') and self.p.get('fixed'):      # one choice stands for all, a bound
            self.chosen = getattr(self, 'chosen', 0) + 1
            return (7 * self.chosen + 3) % n
        c = self.ctx
        k = len(c.decisions)
        if k < len(c.prefix):
            d = c.prefix[k]
        else:
            d = 0
            for alt in range(1, n):
                c.pending.append(c.decisions + [alt])
                c.count('branches')
        c.decisions.append(d)
        c.count('transitions')
        self.choices.append(d)
        return d

    def assume(self, cond):
        """cond: symbolic condition (no fork) or bool"""
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise Infeasible()
            return
        self.ctx.assume(cond)

    # conditions usable without forking
    def lt(self, a, b):
        return S.gt(b, a)

    def le(self, a, b):
        return S.ge(b, a)

    def eqc(self, a, b):
        return S.eq(a, b)

    def ne(self, a, b):
        c = S.eq(a, b)
        if isinstance(c, (bool, np.bool_)):
            return not c
        return ~c

    def log(self, x):
        return S.log(x)

    def exp(self, x):
        return S.exp(x)

    def sqrt(self, x):
        return S.sqrt(x)

    def maxof(self, xs):
        return S.maximum_of(list(xs))

    # ---------------------------------------------------------- obligations
    def failed(self, what, detail=''):
        """a failure on this path, unconditional"""
        self.counterexample([], set(), what, detail)

    def true(self, cond, what):
        self.nobl += 1
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                self.failed(what, 'condition is false')
            return
        self.ctx.count('obligations')
        neg = z3.Not(cond.e)
        self.refute([neg], set(cond.vs), what)

    def eq(self, a, b, what):
        """a == b elementwise, for every value of the symbols on this path"""
        self.nobl += 1
        A = shim.to_arr(a) if not isinstance(a, (Sym, float)) else a
        B = shim.to_arr(b) if not isinstance(b, (Sym, float)) else b
        sa, sb = np.shape(A), np.shape(B)
        if sa != sb:
            self.failed(what, 'shape %s, expected %s' % (sa, sb))
            return
        fa = [A] if sa == () and not isinstance(A, np.ndarray) else list(np.asarray(A, dtype=object).ravel())
        fb = [B] if sb == () and not isinstance(B, np.ndarray) else list(np.asarray(B, dtype=object).ravel())
        ors = []
        vs = set()
        pairs = []
        for k, (x, y) in enumerate(zip(fa, fb)):
            try:
                x = lift(x)
                y = lift(y)
            except Unsupported:
                if x is y:
                    continue
                self.failed(what, 'element %d is %r, expected %r' % (k, x, y))
                return
            if type(x) is float or type(y) is float:
                if type(x) is float and type(y) is float and x == y:
                    continue
                self.failed(what, 'element %d is %r, expected %r' % (k, x, y))
                return
            d = P.radd(x.r, P.rneg(y.r))
            if S.has_log(d):
                R, logs = S.decompose(d)
            else:
                R, logs = None, {}
            if logs:
                den = 1
                for c in logs.values():
                    q = Fraction(c).denominator
                    den = den * q // math.gcd(den, q)
                il = {i: Fraction(c) * den for i, c in logs.items()}
                X = S._prod(il, 1)
                Y = S._prod(il, -1)
                t = z3.Or(S.zpoly(R.n) != 0, self.cross(X, Y))
                vs |= S.rvars(R) | S.rvars(X) | S.rvars(Y)
            else:
                t = self.cross(x.r, y.r)
                vs |= S.rvars(x.r) | S.rvars(y.r)
            self.ctx.count('obligations')
            ors.append(t)
            pairs.append((x, y))
        if ors:
            self.refute([z3.Or(*ors) if len(ors) > 1 else ors[0]], vs, what, pairs, len(ors))

    def cross(self, x, y):
        l = S.zpoly(x.n)
        r = S.zpoly(y.n)
        xd = dict(x.d or {})
        yd = dict(y.d or {})
        for f in list(xd):
            if f in yd:
                m = min(xd[f], yd[f])
                xd[f] -= m
                yd[f] -= m
        for f, e in yd.items():
            for _ in range(e):
                l = l * S.zpoly(f)
        for f, e in xd.items():
            for _ in range(e):
                r = r * S.zpoly(f)
        return l != r

    def refute(self, negs, vs, what, pairs=None, n=1):
        """ask the solver for values violating the obligation; raise on success"""
        c = self.ctx
        t = [z3.simplify(n, som=True) for n in negs]
        for x in t:
            if z3.is_false(x):
                c.count('queries')
                c.count('discharged', n)
                c.count('solver_simplified')
                return
        r, s = c.check(negs, vs, self.p.get('timeout', 20000))
        if r == z3.unsat:
            c.count('discharged', n)
            return
        if r == z3.unknown:
            r, s = c.check(t, vs, self.p.get('timeout', 20000))
            if r == z3.unsat:
                c.count('discharged', n)
                return
        self.counterexample(negs, vs, what, '', pairs, r)

    def counterexample(self, negs, vs, what, detail, pairs=None, verdict=None):
        """find values for the whole path, preferring moderate ones"""
        c = self.ctx
        self.ctx.count('sat')
        allv = set(vs)
        for pv in c.pcvars:
            allv |= pv
        allv = S.closure_vars(allv)
        def boxed(lo, hi, r):
            b = []
            for i in allv:
                v = P.VARS[i]
                z = S.zvar(i)
                if v.kind == 'pos' and not isinstance(v.data, tuple):
                    b += [z >= lo, z <= hi]
                elif v.kind == 'unit':
                    b += [z >= z3.RatVal(1, 64), z <= z3.RatVal(63, 64)]
                elif v.kind == 'real' and not isinstance(v.data, tuple):
                    b += [z >= -r, z <= r]
            return b
        box = boxed(z3.RatVal(1, 8), 8, 8)
        margin = []
        if pairs:
            ms = []
            for x, y in pairs:
                d = P.radd(x.r, P.rneg(y.r))
                if not S.has_log(d):
                    n = S.zpoly(d.n)
                    dd = S.zden(d)
                    if dd is None:
                        ms.append(z3.Or(n > z3.RatVal(1, 50), n < -z3.RatVal(1, 50)))
                    else:
                        ms.append(z3.Or(n * n > dd * dd * z3.RatVal(1, 2500)))
            if ms:
                margin = [z3.Or(*ms)]
        models = []
        tries = [(box + margin, 5000), (box, 5000), ([], 20000)] if margin else [(box, 5000), ([], 20000)]
        for extra, to in tries:
            r, s = c.check(list(negs) + extra, vs | allv, to, full=True)
            if r == z3.sat:
                models.append(self.model_values(s.model()))
                break
            if r == z3.unsat and not extra:
                # the path itself is infeasible (a branch was left undecided)
                if verdict is None or verdict == z3.unknown or True:
                    c.count('discharged')
                    raise Infeasible()
        scaled = []
        if pairs and not any(self.visible(pairs, m) for m in models):
            # the difference is small at moderate values: look where covariances are tiny or huge. What is found there counts only if the
            # exact difference (60 digits) is large, so that rounding cannot be mistaken for it
            for lo, hi, r in ((z3.RatVal(1, 10 ** 10), z3.RatVal(1, 10 ** 9), 8), (z3.RatVal(1, 10 ** 10), z3.RatVal(1, 10 ** 9), z3.RatVal(1, 10 ** 4)),
                              (z3.RatVal(1, 10 ** 14), z3.RatVal(1, 10 ** 13), 1), (10 ** 8, 10 ** 9, 8),
                             (z3.RatVal(1, 8), 8, z3.RatVal(1, 10 ** 9))):
                r, s = c.check(list(negs) + boxed(lo, hi, r), vs | allv, 5000, full=True)
                if r == z3.sat:
                    m = self.model_values(s.model())
                    if self.visible(pairs, m, 1e-7):
                        scaled.append(m)
                        if len(scaled) > 1:
                            break
        raise Fail(what, {'detail': detail, 'models': models, 'scaled': scaled, 'choices': list(self.choices),
                          'verdict': str(verdict), 'decisions': len(c.decisions)})

    def visible(self, pairs, m, floor=1):
        """is some pair exactly and clearly different at these values? (yes when it cannot be told)"""
        for x, y in pairs:
            a, b = S.dval(x, m), S.dval(y, m)
            if a is None or b is None:
                return True
            if abs(a - b) * 10000 > decimal.Decimal(floor) + abs(a) + abs(b):
                return True
        return False

    def model_values(self, m):
        vals = {}
        for d in m.decls():
            n = d.name()
            if n[0] == 'v' and n[1:].isdigit():
                v = P.VARS[int(n[1:])]
                if v.name in self.base:
                    x = m[d]
                    if z3.is_algebraic_value(x):
                        x = x.approx(20)
                    try:
                        vals[v.name] = float(x.as_fraction())
                    except OverflowError:
                        vals[v.name] = 1e300
        return vals

    # ---------------------------------------------------------- laws and derivatives
    def law(self, thunk):
        """mean and covariance of an affine image of the normal draws made by thunk"""
        start = len(self.zvars)
        res = thunk()
        zs = self.zvars[start:]
        x = [lift(v) for v in np.asarray(shim.to_arr(res), dtype=object).ravel()]
        idx = [P.BYNAME[nm].idx for nm, _g, _p in zs]
        mean = [S.subst0(v, idx) for v in x]
        J = shim.filled((len(x), len(zs)), lift(0))
        for k, i in enumerate(idx):
            var = Sym(P.rvar(P.VARS[i]))
            for a, v in enumerate(x):
                if type(v) is Sym and i in S.rvars(v.r):
                    dv = S.diff(v, var)
                    if S.rvars(dv.r) & set(idx):
                        raise Unsupported('not affine in the normal draws')
                    J[a, k] = dv
        C = self.zcov(zs)
        return shim.sarr(mean), shim.dot(shim.dot(J, C), J.T) if len(zs) else shim.filled((len(x), len(x)), lift(0)), len(zs)

    def zcov(self, zs):
        C = shim.filled((len(zs), len(zs)), lift(0))
        for a, (na, ga, pa) in enumerate(zs):
            for b, (nb, gb, pb) in enumerate(zs):
                if ga == gb:
                    cov = self.groups[ga]
                    C[a, b] = lift(1) if cov is None else cov[pa, pb]
        return C

    def grad(self, fn, names):
        """derivatives of the scalar fn(theta) at the symbols of that name"""
        val = fn([self.real(n) for n in names])
        if isinstance(val, np.ndarray):
            val = val.ravel()[0]
        return val, shim.sarr([S.diff(val, self.real(n)) for n in names])

    def det(self, A):
        return shim.mdet(shim.sarr(A))

    def inv(self, A):
        return shim.minv(shim.sarr(A))

    def logdet(self, A):
        return shim.slogdet(A)[1]

    def pi(self):
        return S.PI

    def f(self, a, b=1):
        """exact rational constant"""
        return lift(Fraction(a, b))

    def cho(self, A, lower=False):
        return shim.cho_factor(A, lower=lower)

    def grad0(self, fn, name):
        """derivative of the scalar fn([t]) at t = 0"""
        t = self.real(name)
        return S.at0(S.diff(lift(fn([t])), t), t)


# ------------------------------------------------------------------ concrete mode
class ConcH(Base):
    mode = 'conc'
    sym = False

    def __init__(self, params, values, choices, loader, seed):
        Base.__init__(self, params)
        self.only = None      # only this obligation, compared relative to its size (values where covariances are tiny or huge)
        self.values = dict(values)
        self.given = bool(values)
        self.replay_choices = list(choices)
        self.rng = random.Random(seed)
        self.loader = loader
        self.np = np
        self.rnd = Rand()
        self.rnd.h = self
        self.opt = OptStub()
        self.obl = []
        self.tol = params.get('tol', 1e-6)

    def mod(self, name):
        return self.loader.load(name)

    def _get(self, name, gen):
        v = self.values.get(name)
        if v is None:
            v = gen()
            self.values[name] = v
        return float(v)

    def real(self, name):
        return self._get(name, lambda: round(self.rng.uniform(-2, 2), 3))

    def pos(self, name):
        return self._get(name, lambda: round(self.rng.uniform(0.2, 3), 3))

    def unit(self, name):
        return self._get(name, lambda: round(self.rng.uniform(0.02, 0.98), 4))

    def const(self, x):
        return float(x)

    def f(self, a, b=1):
        return a / b

    def mkarr(self, vals, shape):
        return np.array([float(v) for v in vals], dtype=float).reshape(shape)

    def arr(self, x):
        return np.array(x, dtype=float)

    def asarr(self, x):
        return np.asarray(x, dtype=float)

    def zeros(self, shape):
        return np.zeros(shape)

    def spd(self, name, n):
        names = ['%s[%d,%d]' % (name, i, j) for i in range(n) for j in range(i, n)]
        if not any(k in self.values for k in names):
            L = np.array([[self.rng.uniform(-1, 1) if j < i else (self.rng.uniform(0.5, 1.5) if i == j else 0) for j in range(n)] for i in range(n)])
            A = L.dot(L.T)
            for i in range(n):
                for j in range(i, n):
                    self.values['%s[%d,%d]' % (name, i, j)] = A[i, j]
        A = np.zeros((n, n))
        for i in range(n):
            for j in range(i, n):
                v = self.values.get('%s[%d,%d]' % (name, i, j), 1.0 if i == j else 0.0)
                A[i, j] = A[j, i] = v
        if n and np.min(np.linalg.eigvalsh(A)) <= 0:
            raise Discard()
        return A

    def spd_svd(self, name, n, rank=None):
        rank = n if rank is None else rank
        if n == 1:
            return np.array([[self.pos(name + '_r') ** 2 if rank else 0.0]])
        if rank == 0:
            self.real(name + '_a'), self.real(name + '_b')
            return np.zeros((2, 2))
        a, b = self.real(name + '_a'), self.real(name + '_b')
        k = self._get(name + '_k', lambda: round(self.rng.uniform(0.3, 1.0), 3)) if rank == 2 else 0.0
        if a * a + b * b <= 0 or k > 1 or (rank == 2 and k <= 0):
            raise Discard()
        F = np.array([[a, -b * k], [b, a * k]])
        return F.dot(F.T)

    def pd(self, M):
        return M

    def draw(self, kind):
        n = self.cnt(kind)
        if kind == 'U':
            self.events.append(('U', 'U%d' % n))
            return self.unit('U%d' % n)
        nm = 'Z%d' % n
        self.groups.append(None)
        self.zvars.append((nm, len(self.groups) - 1, 0))
        if self.inject is not None:
            return self.inject(len(self.zvars) - 1)
        return self.real(nm)

    def draw_group(self, d, cov):
        n = self.cnt('W')
        self.groups.append(np.array(cov, dtype=float))
        out = []
        for i in range(d):
            nm = 'W%d_%d' % (n, i)
            self.zvars.append((nm, len(self.groups) - 1, i))
            out.append(self.inject(len(self.zvars) - 1) if self.inject is not None else self.real(nm))
        return out

    def choose(self, n, what=''):
        if what in ('anc', 'find') and self.p.get('fixed'):      # one choice stands for all, a bound
            self.chosen = getattr(self, 'chosen', 0) + 1
            return (7 * self.chosen + 3) % n
        k = len(self.choices)
        if k < len(self.replay_choices):
            d = min(self.replay_choices[k], n - 1)
        else:
            d = self.rng.randrange(n)
        self.choices.append(d)
        return d

    def assume(self, cond):
        if not cond:
            raise Discard()

    def lt(self, a, b):
        return a < b

    def le(self, a, b):
        return a <= b

    def ne(self, a, b):
        return abs(a - b) > 1e-9 * (abs(a) + abs(b))

    def eqc(self, a, b):
        return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))

    def log(self, x):
        return math.log(x) if x > 0 else -math.inf

    def exp(self, x):
        return math.exp(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def maxof(self, xs):
        return max(float(x) for x in xs)

    def failed(self, what, detail=''):
        raise Fail(what, {'detail': detail})

    def true(self, cond, what):
        self.nobl += 1
        if not cond:
            self.failed(what, 'condition is false')

    def eq(self, a, b, what):
        self.nobl += 1
        if self.only is not None and what != self.only:
            return
        floor = 1 if self.only is None else 1e-7
        try:
            A = np.asarray(a, dtype=float)
            B = np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            self.failed(what, 'not numeric: %r / %r' % (a, b))
        if A.shape != B.shape:
            self.failed(what, 'shape %s, expected %s' % (A.shape, B.shape))
        for x, y in zip(A.ravel(), B.ravel()):
            if x == y:
                continue
            scale = floor + abs(y) + abs(x)
            if not (abs(x - y) <= self.tol * scale):
                self.failed(what, 'got %s, expected %s' % (np.array2string(A, threshold=40), np.array2string(B, threshold=40)))

    def law(self, thunk):
        start = len(self.zvars)
        snap = dict(self.counter)
        old = self.inject
        self.inject = lambda k: 0.0
        base = np.asarray(thunk(), dtype=float).ravel()
        zs = self.zvars[start:]
        groups = list(self.groups)
        J = np.zeros((len(base), len(zs)))
        end = (list(self.zvars), list(self.groups), dict(self.counter))
        for k in range(len(zs)):
            self.zvars = self.zvars[:start]
            self.groups = self.groups[:groups_len(groups, zs)]
            self.counter = dict(snap)
            self.inject = lambda n, k=k: 1.0 if n == start + k else 0.0
            J[:, k] = np.asarray(thunk(), dtype=float).ravel() - base
        self.zvars, self.groups, self.counter = end
        self.inject = old
        C = np.zeros((len(zs), len(zs)))
        for a, (na, ga, pa) in enumerate(zs):
            for b, (nb, gb, pb) in enumerate(zs):
                if ga == gb:
                    C[a, b] = 1.0 if groups[ga] is None else groups[ga][pa, pb]
        return base, J.dot(C).dot(J.T), len(zs)

    def grad(self, fn, names):
        x0 = np.array([self.real(n) for n in names])
        # the exact symbolic derivative is compared in symbolic mode; here central differences
        val = fn(list(x0))
        val = float(np.asarray(val).ravel()[0])
        g = []
        for k in range(len(names)):
            e = 1e-4
            vs = []
            for s in (-2, -1, 1, 2):
                x = x0.copy()
                x[k] += s * e
                vs.append(float(np.asarray(fn(list(x))).ravel()[0]))
            g.append((vs[0] - 8 * vs[1] + 8 * vs[2] - vs[3]) / (12 * e))
        return val, np.array(g)

    def grad0(self, fn, name):
        v = [float(fn([k * 1e-4])) for k in (-2, -1, 1, 2)]
        return (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / 12e-4

    def cho(self, A, lower=False):
        import scipy.linalg
        return scipy.linalg.cho_factor(A, lower=lower)

    def det(self, A):
        return np.linalg.det(A)

    def inv(self, A):
        return np.linalg.inv(A)

    def logdet(self, A):
        return np.linalg.slogdet(A)[1]

    def pi(self):
        return math.pi


def preload():
    """import what the code under test may import, before numpy.random is replaced"""
    import importlib
    for m in ('numpy.random', 'scipy.linalg', 'scipy.optimize', 'scipy.stats', 'scipy.special', 'scipy.misc'):
        try:
            importlib.import_module(m)
        except Exception:
            pass


def groups_len(groups, zs):
    return min([g for _n, g, _p in zs]) if zs else len(groups)


class Patched(object):
    """numpy.random, numpy.empty and scipy.optimize.minimize replaced during a concrete run"""
    NAMES = ['rand', 'random_sample', 'random', 'ranf', 'sample', 'uniform', 'randn', 'standard_normal', 'normal', 'multivariate_normal',
             'permutation', 'shuffle', 'randint', 'choice', 'seed', 'RandomState', 'default_rng']

    def __init__(self, h):
        self.h = h

    def __enter__(self):
        preload()
        self.old = {k: getattr(np.random, k) for k in self.NAMES}
        for k in self.NAMES:
            setattr(np.random, k, getattr(self.h.rnd, k))
        self.empty = np.empty
        self.empty_like = np.empty_like
        g = random.Random(7)
        real_empty, real_like = self.empty, self.empty_like

        def fill(a):
            if a.dtype.kind == 'f':
                f = a.reshape(-1)
                for i in range(f.size):
                    f[i] = g.uniform(300, 900)
            elif a.dtype.kind == 'i':
                a[...] = -987654
            return a

        def empty(*a, **k):
            return fill(real_empty(*a, **k))

        def empty_like(*a, **k):
            return fill(real_like(*a, **k))
        np.empty = empty
        np.empty_like = empty_like
        import scipy.optimize
        self.minimize = scipy.optimize.minimize
        scipy.optimize.minimize = self.h.opt.minimize
        self.err = np.seterr(all='ignore')

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(np.random, k, v)
        np.empty = self.empty
        np.empty_like = self.empty_like
        import scipy.optimize
        scipy.optimize.minimize = self.minimize
        np.seterr(**self.err)
        return False


def run_conc(fn, params, loader, values, choices, seed, only=None):
    """None if all obligations hold, else (what, detail); raises Discard when an assumption fails"""
    h = ConcH(params, values, choices, loader, seed)
    h.only = only
    with Patched(h):
        try:
            fn(h)
        except Fail as e:
            return (e.what, str(e.detail.get('detail') if isinstance(e.detail, dict) else e.detail)), h
        except Discard:
            raise
        except Exception as e:
            return ('raises %s' % type(e).__name__, '%s: %s\n%s' % (type(e).__name__, e, short_tb())), h
    return None, h


def short_tb():
    tb = traceback.extract_tb(sys.exc_info()[2])
    return ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))


# ------------------------------------------------------------------ functions encoded
class Monitor(object):
    """names of the functions of /repo executed symbolically"""

    def __init__(self):
        from engine.loader import REPO
        self.root = REPO + os.sep
        self.seen = set()

    def start(self, code, off):
        if code.co_filename.startswith(self.root):
            self.seen.add(code.co_filename[len(self.root):] + ':' + code.co_qualname)
        return sys.monitoring.DISABLE

    def __enter__(self):
        try:
            sys.monitoring.use_tool_id(3, 'verif')
            sys.monitoring.register_callback(3, sys.monitoring.events.PY_START, self.start)
            sys.monitoring.set_events(3, sys.monitoring.events.PY_START)
            self.on = True
        except ValueError:
            self.on = False
        return self

    def __exit__(self, *a):
        if self.on:
            sys.monitoring.set_events(3, 0)
            sys.monitoring.free_tool_id(3)
        return False


# ------------------------------------------------------------------ one case
def explore(fn, params, config, budget, max_paths):
    """all paths of one case: stats, failures, files, sample path, reason why undecided (or None)"""
    stats = {'paths': 0, 'queries': 0, 'obligations': 0, 'discharged': 0, 'transitions': 0, 'branches': 0}
    mon = Monitor()
    with mon:
        fails, files, sample, undecided = _explore(fn, params, config, budget, max_paths, stats)
    stats['functions'] = sorted(mon.seen)
    return stats, fails, files, sample, undecided


def _explore(fn, params, config, budget, max_paths, stats):
    fails = []
    t0 = time.time()
    stack = [[]]
    files = {}
    reached = 0
    sample = None
    undecided = None
    while stack:
        prefix = stack.pop()
        c = S.Ctx(prefix, stats)
        c.deadline = t0 + budget
        S.Ctx.cur = c
        shim.CHO.clear()
        h = SymH(params, c, config)
        ended = 'ok'
        try:
            fn(h)
            reached += 1 if h.nobl else 0
        except Fail as e:
            fails.append({'what': e.what, 'info': e.detail})
            ended = 'fail'
            reached += 1
        except Infeasible:
            ended = 'infeasible'
        except (Unsupported, P.TooBig, RecursionError) as e:
            undecided = '%s: %s at %s' % (type(e).__name__, e, short_tb())
            ended = 'undecided'
        except Exception as e:
            det = '%s: %s (%s)' % (type(e).__name__, e, short_tb())
            try:
                h.counterexample([], set(), 'raises %s' % type(e).__name__, det)
            except Fail as f:
                fails.append({'what': f.what, 'info': f.detail})
                ended = 'fail'
            except Infeasible:
                ended = 'infeasible'
        files.update(h.loader.files)
        if ended != 'infeasible':
            stats['paths'] += 1
            if sample is None and ended == 'ok':
                sample = {'choices': list(h.choices), 'decisions': len(c.decisions), 'constraints': [str(x)[:120] for x in c.pc[:4]]}
        else:
            stats['infeasible'] = stats.get('infeasible', 0) + 1
        stack.extend(c.pending)
        if ended == 'undecided' and (fails or stats.get('undecided_paths', 0) >= 3):
            break
        if ended == 'undecided':
            stats['undecided_paths'] = stats.get('undecided_paths', 0) + 1
        if time.time() - t0 > budget:
            if stack and not undecided:
                undecided = 'time budget of %ds exhausted with %d unexplored alternatives' % (budget, len(stack))
            break
        if stats['paths'] >= max_paths and stack:
            undecided = 'more than %d paths' % max_paths
            break
        if len(fails) >= 4:
            stats['stopped_after_failures'] = 1
            break
    stats['reached'] = reached
    return fails, files, sample, undecided
