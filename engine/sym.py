"""Symbolic scalars, path exploration and solver queries."""
from fractions import Fraction
import decimal
import math
import sys
import time
import numbers
import os

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
import numpy as np

from engine import poly as P
from engine.poly import (Poly, Rat, R0, R1, VARS, new_var, rvar, rconst, radd, rneg, rmul, rinv,
                         rscale, rpow, factor, const_poly, var_poly, ZERO, ONE)

INF = float('inf')


class Unsupported(BaseException):
    """the engine cannot encode an operation: the check has no answer"""


class Infeasible(BaseException):
    """the current path cannot happen (or was cut by an assumption)"""


ALLSIGNS = frozenset([-1, 0, 1])


class Ctx(object):
    """state of one symbolic path"""
    cur = None

    def __init__(self, prefix=(), stats=None, branch_timeout=4000):
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []          # alternative prefixes to explore
        self.pc = []               # z3 constraints of this path
        self.pcvars = []           # variable sets for slicing
        self.known = {}            # condition id -> bool
        self.keep = []             # keep z3 asts alive
        self.posset = set()
        self.signs = {}            # polynomial -> signs it may have on this path
        self.stats = stats if stats is not None else {}
        self.branch_timeout = branch_timeout
        self.uninit = 0
        self.maxmemo = {}
        self.counters = {}
        self.deadline = None

    # -- statistics
    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fresh_id(self, k):
        n = self.counters.get(k, 0)
        self.counters[k] = n + 1
        return n

    # -- constraints
    def learn(self, sb, d):
        if sb.sg is not None:
            p, a = sb.sg
            self.signs[p] = self.signs.get(p, ALLSIGNS) & (a if d else ALLSIGNS - a)

    def assume(self, cond):
        """cond: SymBool/bool/z3"""
        if isinstance(cond, SymBool):
            if cond.pos is not None:
                self.posset.add(cond.pos)
            self.learn(cond, True)
            e = cond.e
            vs = cond.vs
        elif isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise Infeasible()
            return
        else:
            e = cond
            vs = z3vars(e)
        self.pc.append(e)
        self.pcvars.append(vs)
        self.known[e.get_id()] = True
        self.keep.append(e)

    def slice(self, vs):
        """constraints sharing variables with vs, transitively (atom axioms included)"""
        vs = closure_vars(vs)
        chosen = [False] * len(self.pc)
        changed = True
        while changed:
            changed = False
            for i, pv in enumerate(self.pcvars):
                if not chosen[i]:
                    cl = closure_vars(pv)
                    if cl & vs:
                        chosen[i] = True
                        if not cl <= vs:
                            vs = vs | cl
                            changed = True
        return [self.pc[i] for i in range(len(self.pc)) if chosen[i]], vs

    def check(self, extra, vs, timeout, full=False):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time budget of the case exhausted')
        if full:
            cs = list(self.pc)
            allv = set(vs)
            for pv in self.pcvars:
                allv |= pv
            allv = closure_vars(allv)
        else:
            cs, allv = self.slice(vs)
        s = z3.Solver()
        s.set('timeout', timeout)
        for v in allv:
            for ax in axioms(v):
                s.add(ax)
        for lv, ax in LINKS.values():
            if lv <= allv:
                for a in ax:
                    s.add(a)
        for c in cs:
            s.add(c)
        for e in extra:
            s.add(e)
        t0 = time.time()
        r = s.check()
        self.count('queries')
        self.count('solver_s', time.time() - t0)
        if r == z3.unknown:
            self.count('unknown')
        return r, s

    def branch(self, sb):
        """decide a symbolic condition, exploring both sides"""
        e = sb.e
        k = self.known.get(e.get_id())
        if k is not None:
            return k
        if sb.sg is not None:
            now = self.signs.get(sb.sg[0])
            if now is not None:
                if now <= sb.sg[1]:
                    return True
                if not now & sb.sg[1]:
                    return False
        if len(self.decisions) < len(self.prefix):
            d = self.prefix[len(self.decisions)]
        else:
            r1, _ = self.check([e], sb.vs, self.branch_timeout)
            if r1 == z3.unsat:
                d = False
                forced = True
            else:
                r0, _ = self.check([z3.Not(e)], sb.vs, self.branch_timeout)
                forced = (r0 == z3.unsat)
                d = True
                if not forced:
                    self.pending.append(self.decisions + [False])
                    self.count('branches')
            if forced:
                # implied by the path condition: not a decision, but keep replays aligned
                self.decisions.append(d)
                self.known[e.get_id()] = d
                self.keep.append(e)
                if d and sb.pos is not None:
                    self.posset.add(sb.pos)
                self.learn(sb, d)
                return d
        self.decisions.append(d)
        self.learn(sb, d)
        self.count('transitions')
        self.known[e.get_id()] = d
        self.keep.append(e)
        if d:
            self.pc.append(e)
            if sb.pos is not None:
                self.posset.add(sb.pos)
        else:
            self.pc.append(z3.Not(e))
            if sb.negpos is not None:
                self.posset.add(sb.negpos)
        self.pcvars.append(sb.vs)
        return d


def ctx():
    return Ctx.cur


# ---------------------------------------------------------------- z3 conversion
_Z = {}


def zvar(i):
    z = _Z.get(i)
    if z is None:
        z = z3.Real('v%d' % i)
        _Z[i] = z
    return z


def zconst(c):
    if type(c) is Fraction:
        return z3.RatVal(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)
    return z3.RealVal(c)


def zpoly(p):
    if p._z is None:
        terms = []
        for m in sorted(p.t, reverse=True):
            c = p.t[m]
            fs = []
            for i, e in P.mono_items(m):
                fs.extend([zvar(i)] * e)
            if not fs:
                terms.append(zconst(c))
            elif c == 1:
                terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
            else:
                terms.append(zconst(c) * (fs[0] if len(fs) == 1 else z3.Product(*fs)))
        p._z = z3.RealVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(*terms))
    return p._z


def zden(r):
    """product of the denominator factors as a z3 term"""
    if not r.d:
        return None
    fs = []
    for f, e in r.d.items():
        fs.extend([zpoly(f)] * e)
    return fs[0] if len(fs) == 1 else z3.Product(*fs)


def z3vars(e):
    res = set()
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n[0] == 'v' and n[1:].isdigit():
                res.add(int(n[1:]))
        stack.extend(x.children())
    return res


def rvars(r):
    s = set(r.n.vars())
    if r.d:
        for f in r.d:
            s |= set(f.vars())
    return s


_AX = {}
_CLOSE = {}


def close1(i):
    c = _CLOSE.get(i)
    if c is None:
        v = VARS[i]
        c = {i}
        if v.kind == 'sqrt':
            for j in v.data.vars():
                c |= close1(j)
        elif v.kind == 'exp':
            for j in rvars(v.data):
                c |= close1(j)
        _CLOSE[i] = c
    return c


_CLM = {}


def closure_vars(vs):
    key = frozenset(vs)
    r = _CLM.get(key)
    if r is None:
        s = set()
        for i in vs:
            s |= close1(i)
        r = frozenset(s)
        _CLM[key] = r
    return r


def axioms(i):
    a = _AX.get(i)
    if a is None:
        v = VARS[i]
        z = zvar(i)
        a = []
        if v.kind == 'pos':
            a.append(z > 0)
        elif v.kind == 'sqrt':
            a.append(z > 0)
            a.append(z * z == zpoly(v.data))
        elif v.kind == 'pi':
            a.append(z > z3.RatVal(314159265, 100000000))
            a.append(z < z3.RatVal(314159266, 100000000))
        elif v.kind == 'exp':
            a.append(z > 0)
            s = zsign(v.data)
            a.append((s > 0) == (z > 1))
            a.append((s < 0) == (z < 1))
        elif v.kind == 'unit':
            a.append(z > 0)
            a.append(z < 1)
        _AX[i] = a
    return a


def zsign(r):
    """a z3 term with the sign of the rational function r"""
    n = zpoly(r.n)
    d = zden(r)
    return n if d is None else n * d


# ---------------------------------------------------------------- booleans
class SymBool(object):
    __slots__ = ('e', 'vs', 'pos', 'negpos', 'sg')

    def __init__(self, e, vs, pos=None, negpos=None, sg=None):
        self.sg = sg    # (polynomial, signs for which the condition holds)
        self.e = e
        self.vs = vs
        self.pos = pos
        self.negpos = negpos

    def __bool__(self):
        return ctx().branch(self)

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.e, o.e), self.vs | o.vs)
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.e, o.e), self.vs | o.vs)
        return NotImplemented
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e), self.vs, self.negpos, self.pos, self.sg and (self.sg[0], ALLSIGNS - self.sg[1]))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __hash__(self):
        return hash(bool(self))


# ---------------------------------------------------------------- scalars
_FM = {}


def frac(x):
    """exact rational for a Python number; floats are snapped to the simplest rational that
    the float is the nearest double of (small denominators first)"""
    if type(x) is int:
        return x
    if isinstance(x, Fraction):
        return P.norm_coef(x)
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        f = _FM.get(x)
        if f is None:
            if x == int(x) and abs(x) < 1e15:
                f = int(x)
            else:
                f = Fraction(x).limit_denominator(1000)
                if float(f) != x:
                    f = Fraction(repr(x))
            f = P.norm_coef(f)
            _FM[x] = f
        return f
    raise Unsupported('not a number: %r' % (type(x),))


def isspecial(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def sign_poly_known(p):
    """+1/-1 when the sign of p follows syntactically, else None"""
    c = ctx()
    ps = c.posset if c is not None else ()
    if P.is_pos_poly(p, ps):
        return 1
    q = p.neg()
    if P.is_pos_poly(q, ps):
        return -1
    if len(p.t) > 1:
        cc, pp = P.primitive(p)
        if pp in ps:
            return 1 if cc > 0 else -1
        np_ = pp.neg()
        if np_ in ps:
            return -1 if cc > 0 else 1
        # split off the monomial content and known factors
        k, fac = factor(p)
        if len(fac) > 1:
            s = 1 if k > 0 else -1
            for f, e in fac.items():
                if e % 2 == 0:
                    continue
                if P.is_pos_poly(f, ps):
                    continue
                if f.neg() in ps:
                    s = -s
                    continue
                return None
            # even powers might vanish
            for f, e in fac.items():
                if e % 2 == 0 and not (P.is_pos_poly(f, ps) or f.neg() in ps):
                    return None
            return s
    return None


def sign_rat_known(r):
    if not r.n.t:
        return 0
    s = sign_poly_known(r.n)
    if s is None:
        return None
    if r.d:
        for f, e in r.d.items():
            if e % 2:
                k = sign_poly_known(f)
                if k is None:
                    return None
                s *= k
    return s


def gt0(r):
    """condition r > 0 for a rational function"""
    if r.isconst():
        return r.const() > 0
    s = sign_rat_known(r)
    if s is not None:
        return s > 0
    n = r.n
    if r.d:
        for f, e in r.d.items():
            if e % 2:
                k = sign_poly_known(f)
                if k == -1:
                    n = n.neg()
                elif k is None:
                    n = n * f
    c, q = P.primitive(n)
    p = q.neg() if c < 0 else q
    return SymBool(zpoly(p) > 0, set(p.vars()), pos=p, sg=(q, frozenset([-1 if c < 0 else 1])))


def ge0(r):
    if r.isconst():
        return r.const() >= 0
    s = sign_rat_known(r)
    if s is not None:
        return s >= 0
    g = gt0(rneg(r))
    if isinstance(g, bool):
        return not g
    return ~g


def iszero_cond(r):
    if r.isconst():
        return r.const() == 0
    s = sign_rat_known(r)
    if s is not None:
        return s == 0
    c, p = P.primitive(r.n)
    return SymBool(zpoly(p) == 0, set(p.vars()), sg=(p, frozenset([0])))


_HASLOG = {}


def has_log(r):
    for i in rvars(r):
        if VARS[i].kind == 'log':
            return True
    return False


def decompose(r):
    """r = R + sum c_i log_i  with R free of linear log terms; logs: {var index: Fraction}"""
    lv = [i for i in r.n.vars() if VARS[i].kind == 'log']
    if not lv:
        return r, {}
    if r.d is None:
        logs = {}
        rest = {}
        lm = {1 << (P.W * i): i for i in lv}
        for m, c in r.n.t.items():
            if m in lm:
                logs[lm[m]] = c
            else:
                rest[m] = c
        return Rat(Poly(rest)), logs
    den = r.denpoly()
    logs = {}
    n = r.n
    for i in lv:
        u = 1 << (P.W * i)
        coef = {}
        okk = True
        for m, c in n.t.items():
            e = (m >> (P.W * i)) & 0x7F
            if e == 1:
                coef[m - u] = c
            elif e > 1:
                okk = False
        if not okk or not coef:
            continue
        q = Poly(coef)
        if len(q.t) != len(den.t):
            continue
        lead = max(den.t)
        if lead not in q.t:
            continue
        k = P.norm_coef(Fraction(q.t[lead]) / den.t[lead])
        if q == den.scale(k):
            logs[i] = k
            n = n + (den * var_poly(VARS[i])).scale(-k)
    return P.cancel(n, r.d), logs


def elementwise(o, x, op):
    """operation of a symbol with an array"""
    if not isinstance(o, np.ndarray):
        return NotImplemented
    from engine import shim
    a = shim.sarr(o)
    r = shim.mk(a.shape)
    f = getattr(Sym, op)
    for ix in np.ndindex(a.shape):
        e = a[ix]
        np.ndarray.__setitem__(r, ix, f(x, e))
    return r


class Sym(object):
    __slots__ = ('r',)
    __array_ufunc__ = None      # arrays leave mixed operations to the reflected methods below

    def __init__(self, r):
        self.r = r

    # --- arithmetic
    def _bin(self, o):
        if type(o) is Sym:
            return o.r
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return self._bin(o.item())
            return None
        if isinstance(o, SymBool):
            return rconst(int(bool(o)))
        if isinstance(o, (int, float, Fraction, np.number, np.bool_)):
            if isspecial(o):
                return float(o)
            return rconst(frac(o))
        return None

    def __add__(self, o):
        b = self._bin(o)
        if b is None:
            return elementwise(o, self, '__add__')
        if type(b) is float:
            return b
        return Sym(radd(self.r, b))
    __radd__ = __add__

    def __sub__(self, o):
        b = self._bin(o)
        if b is None:
            return elementwise(o, self, '__sub__')
        if type(b) is float:
            return -b
        return Sym(radd(self.r, rneg(b)))

    def __rsub__(self, o):
        b = self._bin(o)
        if b is None:
            return elementwise(o, self, '__rsub__')
        if type(b) is float:
            return b
        return Sym(radd(b, rneg(self.r)))

    def __mul__(self, o):
        b = self._bin(o)
        if b is None:
            return elementwise(o, self, '__mul__')
        if type(b) is float:
            if b != b:
                return b
            if gt(self, 0):
                return b
            if gt(0, self):
                return -b
            return float('nan')
        return Sym(rmul(self.r, b))
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = self._bin(o)
        if b is None:
            return elementwise(o, self, '__truediv__')
        if type(b) is float:
            return b if b != b else Sym(R0)
        return div(self.r, b)

    def __rtruediv__(self, o):
        b = self._bin(o)
        if b is None:
            return elementwise(o, self, '__rtruediv__')
        if type(b) is float:
            if gt(self, 0):
                return b
            return -b
        return div(b, self.r)

    def __floordiv__(self, o):
        if self.r.isconst() and isinstance(o, (int, np.integer)):
            return int(self.r.const() // o)
        raise Unsupported('floor division of a symbol')

    def __neg__(self):
        return Sym(rneg(self.r))

    def __pos__(self):
        return self

    def __abs__(self):
        if gt(0, self):
            return -self
        return self

    def __pow__(self, o):
        if type(o) is Sym and o.r.isconst():
            o = o.r.const()
        if isinstance(o, (int, np.integer)):
            o = int(o)
            if o < 0:
                return Sym(R1) / (self ** (-o))
            return Sym(rpow(self.r, o))
        if isinstance(o, (float, np.floating, Fraction)):
            f = Fraction(frac(o))
            if f.denominator == 1:
                return self ** int(f)
            if f.denominator == 2:
                s = sqrt(self)
                return s ** int(f * 2)
        raise Unsupported('power %r' % (o,))

    def __rpow__(self, o):
        if self.r.isconst():
            c = self.r.const()
            return Sym(rconst(frac(o))) ** c
        raise Unsupported('symbolic exponent')

    # --- numpy object ufunc hooks
    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    def square(self):
        return self * self

    def isnan(self):
        return False

    @property
    def real(self):
        return self

    # --- comparison
    def __lt__(self, o):
        return cmp_wrap(o, self, gt)

    def __gt__(self, o):
        return cmp_wrap(self, o, gt)

    def __le__(self, o):
        return cmp_wrap(o, self, ge)

    def __ge__(self, o):
        return cmp_wrap(self, o, ge)

    def __eq__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, SymBool):
            return ~r
        return not r

    def __hash__(self):
        return hash(self.r)

    def __bool__(self):
        if self.r.isconst():
            return self.r.const() != 0
        return not bool(iszero_log(self))

    def __float__(self):
        if self.r.isconst():
            return float(self.r.const())
        v = const_value(self)
        if v is not None:
            return v
        raise Unsupported('float() of a symbol')

    def __int__(self):
        if self.r.isconst():
            return int(self.r.const())
        raise Unsupported('int() of a symbol')

    def __index__(self):
        raise TypeError('float used as an index')

    def __repr__(self):
        return 'S<%r>' % (self.r,)

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # 0-d array look-alikes (numpy scalars have these)
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def ravel(self):
        from engine import shim
        return shim.sarr([self])

    def copy(self):
        return self

    def max(self, *a, **k):
        return self

    def dot(self, o):
        return self * o

    @property
    def T(self):
        return self

    def reshape(self, *a):
        from engine import shim
        return shim.sarr([self]).reshape(*a)

    def flatten(self):
        return self.ravel()

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def astype(self, t):
        return self

    def __round__(self, n=0):
        raise Unsupported('round of symbol')


def const_value(s):
    """numeric value of a symbol built only from constants (logs of constants, pi)"""
    for i in rvars(s.r):
        if VARS[i].kind not in ('pi',) and not (VARS[i].kind == 'log' and (VARS[i].data.isconst() or all(VARS[j].kind == 'pi' for j in VARS[i].data.vars()))):
            return None
    return numeval(s, {})


def lift(x):
    if type(x) is Sym:
        return x
    if isspecial(x):
        return float(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, np.ndarray) and x.size == 1:
        return lift(x.ravel()[0])
    if isinstance(x, SymBool):
        return Sym(rconst(int(bool(x))))
    return Sym(rconst(frac(x)))


def div(a, b):
    if b.isconst():
        c = b.const()
        if c == 0:
            s = Sym(a)
            if gt(s, 0):
                return INF
            if gt(0, s):
                return -INF
            return float('nan')
        return Sym(rscale(a, 1 / Fraction(c)))
    z = iszero_log(Sym(b))
    nz = ~z if isinstance(z, SymBool) else not z
    if not nz:   # forks when undecided
        s = Sym(a)
        if gt(s, 0):
            return INF
        if gt(0, s):
            return -INF
        return float('nan')
    return Sym(rmul(a, rinv(b)))


def iszero_log(s):
    R, logs = decompose(s.r)
    if not logs:
        return iszero_cond(s.r)
    return eq(s, 0)


def _prod(logs, sgn):
    r = R1
    for i, c in logs.items():
        if c * sgn > 0:
            r = rmul(r, Rat(VARS[i].data ** int(abs(c))))
    return r


def log_cmp(d):
    """for d with logs: rational function g with sign(g-1-type) ; returns (A,B) with d>0 <=> A>B"""
    R, logs = decompose(d)
    den = 1
    for c in logs.values():
        q = Fraction(c).denominator
        den = den * q // math.gcd(den, q)
    il = {i: Fraction(c) * den for i, c in logs.items()}
    A = _prod(il, 1)
    B = _prod(il, -1)
    if not R.iszero():
        E = exp(Sym(rscale(R, den)))
        if type(E) is float:        # a constant beyond the range of exp decides
            return R1, R0
        A = rmul(A, E.r)
    return A, B


def gt(a, b):
    a = lift(a)
    b = lift(b)
    if type(a) is float or type(b) is float:
        af = a if type(a) is float else 0.0
        bf = b if type(b) is float else 0.0
        return af > bf
    d = radd(a.r, rneg(b.r))
    if d.isconst():
        return d.const() > 0
    if has_log(d):
        A, B = log_cmp(d)
        d = radd(A, rneg(B))
    return gt0(d)


def ge(a, b):
    a = lift(a)
    b = lift(b)
    if type(a) is float or type(b) is float:
        af = a if type(a) is float else 0.0
        bf = b if type(b) is float else 0.0
        return af >= bf
    g = gt(b, a)
    if isinstance(g, bool):
        return not g
    return ~g


def cmp_wrap(a, b, f):
    if isinstance(a, np.ndarray) and a.ndim or isinstance(b, np.ndarray) and b.ndim:
        return NotImplemented
    if a is None or b is None:
        raise TypeError('comparison with None')
    return f(a, b)


def eq(a, b):
    try:
        a = lift(a)
        b = lift(b)
    except Unsupported:
        return False
    if type(a) is float or type(b) is float:
        if type(a) is float and type(b) is float:
            return a == b
        return False
    d = radd(a.r, rneg(b.r))
    if d.isconst():
        return d.const() == 0
    if has_log(d):
        A, B = log_cmp(d)
        d = radd(A, rneg(B))
    return iszero_cond(d)


# ---------------------------------------------------------------- exp / log / sqrt
LINKS = {}


def _ppow(p, c):
    """p**c for a rational exponent c with p a positive polynomial"""
    c = Fraction(c)
    if c.denominator == 1:
        return rpow(Rat(p), int(c)) if c >= 0 else rpow(rinv(Rat(p)), int(-c))
    if c.denominator == 2:
        s = sqrt(Sym(Rat(p)))
        k = int(c * 2)
        return rpow(s.r, k) if k >= 0 else rpow(rinv(s.r), -k)
    return None


def exp(x):
    x = lift(x)
    if type(x) is float:
        if x != x:
            return x
        return Sym(R0) if x < 0 else INF
    R, logs = decompose(x.r)
    if R.isconst():
        # IEEE range: a constant offset far outside the double range under/overflows
        if R.const() < -2000:
            return Sym(R0)
        if R.const() > 2000:
            return INF
    res = R1
    for i, c in logs.items():
        q = _ppow(VARS[i].data, c)
        if q is None:
            R = radd(R, rscale(rvar(VARS[i]), c))
        else:
            res = rmul(res, q)
    if R.iszero():
        return Sym(res)
    # one atom per term of the numerator
    ex = R1
    for m, c in sorted(R.n.t.items()):
        t = P.cancel(Poly({m: 1}), R.d)
        fc = Fraction(c)
        # integer multiple of 1/den
        base = rscale(t, Fraction(1, fc.denominator))
        k = fc.numerator
        name = 'exp{%r}' % (base,)
        v = new_var(name, 'exp', base)
        a = rvar(v)
        if abs(k) <= 8:
            q = rpow(a, abs(k))
        else:
            base = rscale(t, abs(fc))
            q = rvar(new_var('exp{%r}' % (base,), 'exp', base))
        ex = rmul(ex, q if k > 0 else rinv(q))
    if len(R.n.t) > 1 and R not in LINKS:
        # the product of the atoms compares to one as the sum of the terms to zero
        lo = radd(ex, rneg(R1))
        e, s = zsign(lo), zsign(R)
        LINKS[R] = (frozenset(closure_vars(rvars(lo) | rvars(R))), [(s > 0) == (e > 0), (s < 0) == (e < 0)])
    return Sym(rmul(res, ex))


def primes(n):
    res = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            res[d] = res.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        res[n] = res.get(n, 0) + 1
    return res


def log_atom(p):
    """log of a positive polynomial (no further splitting)"""
    vs = p.vars()
    if len(p.t) == 1 and len(vs) == 1:
        v = VARS[vs[0]]
        e = (next(iter(p.t)) >> (P.W * v.idx)) & 0x7F
        c = next(iter(p.t.values()))
        if c == 1 and e == 1:
            if v.kind == 'sqrt':
                return rscale(log(Sym(Rat(v.data))).r, Fraction(1, 2))
            if v.kind == 'exp':
                return v.data
    return rvar(new_var('log{%r}' % (sorted(p.t.items()),) if len(p.t) > 6 else 'log{%r}' % (p,), 'log', p))


def log_const(c):
    c = Fraction(c)
    r = R0
    for q, e in primes(c.numerator).items():
        r = radd(r, rscale(rvar(new_var('log{%d}' % q, 'log', const_poly(q))), e))
    for q, e in primes(c.denominator).items():
        r = radd(r, rscale(rvar(new_var('log{%d}' % q, 'log', const_poly(q))), -e))
    return r


def poly_sign(p, ask=True):
    """sign of a polynomial under the path condition: 1, -1 or None"""
    s = sign_poly_known(p)
    if s is not None or not ask:
        return s
    c = ctx()
    key = ('psign', p)
    if key in c.counters:
        return c.counters[key]
    vs = set(p.vars())
    r, _ = c.check([zpoly(p) <= 0], vs, c.branch_timeout)
    if r == z3.unsat:
        s = 1
        c.posset.add(p)
    else:
        r, _ = c.check([zpoly(p) >= 0], vs, c.branch_timeout)
        if r == z3.unsat:
            s = -1
            c.posset.add(p.neg())
    c.counters[key] = s
    return s


def signed_factors(r):
    """positive rational function -> (const>0, [(poly>0, exponent)])"""
    c, fac = factor(r.n)
    items = list(fac.items())
    if r.d:
        items += [(f, -e) for f, e in r.d.items()]
    out = []
    unk = []
    for f, e in items:
        if len(items) == 1 and e in (1, -1):
            # total is positive
            if c > 0:
                out.append((f, e))
            else:
                out.append((f.neg(), e))
                c = -c
            return c, out
        s = poly_sign(f)
        if s == 1:
            out.append((f, e))
        elif s == -1:
            out.append((f.neg(), e))
            if e % 2:
                c = -c
        else:
            unk.append((f, e))
    if unk:
        # merge: product of the unknown ones has a definite sign
        odd = [(f, e) for f, e in unk if e % 2]
        even = [(f, e) for f, e in unk if e % 2 == 0]
        for f, e in even:
            if f in [x for x, _ in out]:
                out.append((f, e))
            else:
                # |f|**e : square it
                out.append((f * f, e // 2))
        if len(odd) == 1:
            f, e = odd[0]
            out.append((f if c > 0 else f.neg(), e))
            c = abs(c)
        elif odd:
            pr = ONE
            for f, e in odd:
                pr = pr * f
            if c < 0:
                pr = pr.neg()
                c = -c
            out.append((pr, 1))
            for f, e in odd:
                if e != 1:
                    k = (e - 1) // 2
                    if k:
                        out.append((f * f, k))
    if c < 0:
        raise Unsupported('sign analysis failed')
    return c, out


def log(x):
    x = lift(x)
    if type(x) is float:
        if x != x or x < 0:
            return float('nan')
        return x
    if x.r.isconst():
        c = x.r.const()
        if c == 0:
            return -INF
        if c < 0:
            return float('nan')
        return Sym(log_const(c))
    s = sign_rat_known(x.r)
    if s is None:
        g = gt(x, 0)
        if not g:
            if bool(eq(x, 0)):
                return -INF
            return float('nan')
    elif s < 0:
        return float('nan')
    c, fs = signed_factors(x.r)
    res = log_const(c)
    for f, e in fs:
        res = radd(res, rscale(log_atom(f), e))
    return Sym(res)


def sqrt_int(c):
    """(outside, inside) with sqrt(c)=outside*sqrt(inside), inside squarefree int, c Fraction>0"""
    c = Fraction(c)
    n = c.numerator * c.denominator
    out = Fraction(1, c.denominator)
    ins = 1
    for q, e in primes(n).items():
        out *= q ** (e // 2)
        if e % 2:
            ins *= q
    return out, ins


def sqrt(x):
    x = lift(x)
    if type(x) is float:
        return x if not x < 0 else float('nan')
    if x.r.isconst():
        c = x.r.const()
        if c == 0:
            return Sym(R0)
        if c < 0:
            return float('nan')
    else:
        s = sign_rat_known(x.r)
        if s is None:
            g = gt(x, 0)
            if not g:
                if bool(eq(x, 0)):
                    return Sym(R0)
                return float('nan')
        elif s < 0:
            return float('nan')
    if x.r.isconst():
        c, fs = x.r.const(), []
    else:
        c, fs = signed_factors(x.r)
    o, ins = sqrt_int(c)
    res = rconst(P.norm_coef(o))
    if ins != 1:
        for q in primes(ins):
            v = new_var('sqrt{%d}' % q, 'sqrt', const_poly(q))
            res = rmul(res, rvar(v))
    for f, e in fs:
        h, odd = divmod(e, 2)
        if h:
            res = rmul(res, rpow(Rat(f), h) if h > 0 else rpow(rinv(Rat(f)), -h))
        if odd:
            vs = f.vars()
            if len(f.t) == 1 and VARS[vs[0]].kind == 'exp':
                b = rscale(VARS[vs[0]].data, Fraction(1, 2))
                res = rmul(res, exp(Sym(b)).r)
                continue
            name = 'sqrt{%r}' % (f,) if len(f.t) <= 6 else 'sqrt{%r}' % (sorted(f.t.items()),)
            v = new_var(name, 'sqrt', f)
            res = rmul(res, rvar(v))
    return Sym(res)


PI = Sym(rvar(new_var('pi', 'pi')))


# ---------------------------------------------------------------- max / min
def maximum_of(xs):
    xs = [lift(x) for x in xs]
    fl = [x for x in xs if type(x) is float]
    if any(x != x for x in fl):
        return float('nan')
    if any(x == INF for x in fl):
        return INF
    sy = []
    for x in xs:
        if type(x) is not float and x not in in_list(sy):
            sy.append(x)
    if not sy:
        if not xs:
            raise ValueError('zero-size array to reduction operation maximum which has no identity')
        return -INF
    if len(sy) == 1:
        return sy[0]
    decs = [decompose(x.r) for x in sy]
    if all(not l for _, l in decs):
        return _max_rat([x.r for x in sy])
    R0_ = decs[0][0]
    if all(R == R0_ for R, _ in decs):
        den = 1
        for _, l in decs:
            for c in l.values():
                q = Fraction(c).denominator
                den = den * q // math.gcd(den, q)
        vals = []
        for _, l in decs:
            il = {i: Fraction(c) * den for i, c in l.items()}
            vals.append(rmul(_prod(il, 1), rinv(_prod(il, -1))))
        m = _max_rat(vals, positive=True)
        return Sym(R0_) + log(m) * Fraction(1, den)
    best = sy[0]
    for x in sy[1:]:
        if gt(x, best):
            best = x
    return best


def in_list(l):
    return _InList(l)


class _InList(object):
    def __init__(self, l):
        self.l = l

    def __contains__(self, x):
        return any(y.r == x.r for y in self.l)


def _max_rat(rs, positive=False):
    c = ctx()
    if all(r.isconst() for r in rs):
        return Sym(rconst(max(r.const() for r in rs)))
    # pull out common positive factors
    com = R1
    if positive:
        facs = []
        for r in rs:
            k, f = factor(r.n)
            d = dict(f)
            if r.d:
                for g, e in r.d.items():
                    d[g] = d.get(g, 0) - e
            facs.append(d)
        allf = set()
        for d in facs:
            allf |= set(d)
        for f in allf:
            m = min(d.get(f, 0) for d in facs)
            M = max(d.get(f, 0) for d in facs)
            if m > 0 or M < 0:
                e = m if m > 0 else M
                q = rpow(Rat(f), e) if e > 0 else rpow(rinv(Rat(f)), -e)
                com = rmul(com, q)
                inv = rinv(q)
                rs = [rmul(r, inv) for r in rs]
            elif m < 0:
                # bring to a common denominator
                e = -m
                q = rpow(Rat(f), e)
                com = rmul(com, rinv(q))
                rs = [rmul(r, q) for r in rs]
        if all(r.isconst() for r in rs):
            return Sym(rmul(com, rconst(max(r.const() for r in rs))))
    uniq = []
    for r in rs:
        if r not in uniq:
            uniq.append(r)
    if len(uniq) == 1:
        return Sym(rmul(com, uniq[0]))
    key = frozenset(uniq)
    name = 'max{%s}' % (', '.join(sorted('%r/%r' % (sorted(r.n.t.items()), sorted((repr(f), e) for f, e in (r.d or {}).items())) for r in uniq)))
    v = new_var(name, 'pos' if positive else 'real', ('max', uniq))
    if key not in c.maxmemo:
        c.maxmemo[key] = v
        alts = []
        vs = {v.idx}
        for r in uniq:
            d = zden(r)
            vs |= rvars(r)
            if d is None:
                lhs, rhs = zvar(v.idx), zpoly(r.n)
            else:
                # denominators are positive here or handled by sign
                sg = all(e % 2 == 0 or sign_poly_known(f) == 1 for f, e in r.d.items())
                if sg:
                    lhs, rhs = zvar(v.idx) * d, zpoly(r.n)
                else:
                    lhs, rhs = zvar(v.idx) * d * d, zpoly(r.n) * d
            c.pc.append(lhs >= rhs)
            c.pcvars.append({v.idx} | rvars(r))
            alts.append(lhs == rhs)
        c.pc.append(z3.Or(*alts))
        c.pcvars.append(vs)
    return Sym(rmul(com, rvar(v)))


def minimum_of(xs):
    m = maximum_of([-x for x in xs])
    return -m


def maximum_2(x, y):
    """the larger of two numbers; without logarithms decided by branching, which ties the result to its exponential"""
    a, b = lift(x), lift(y)
    if type(a) is not float and type(b) is not float and not decompose(a.r)[1] and not decompose(b.r)[1]:
        return b if gt(b, a) else a
    return maximum_of([x, y])


def minimum_2(x, y):
    return -maximum_2(-x, -y)


# ---------------------------------------------------------------- numeric evaluation
def numeval(s, model):
    """float value of a Sym under model {var name: number}; atoms are recomputed from their definition"""
    s = lift(s)
    if type(s) is float:
        return s
    cache = {}

    def env(i):
        if i in cache:
            return cache[i]
        v = VARS[i]
        if v.kind == 'pi':
            x = math.pi
        elif v.kind == 'sqrt':
            y = float(P.peval(v.data, env))
            x = math.sqrt(y) if y >= 0 else float('nan')
        elif v.kind == 'log':
            y = float(P.peval(v.data, env))
            x = math.log(y) if y > 0 else float('nan')
        elif v.kind == 'exp':
            try:
                x = math.exp(float(P.reval(v.data, env)))
            except OverflowError:
                x = float('inf')
        elif isinstance(v.data, tuple) and v.data[0] == 'max':
            x = max(P.reval(r, env) for r in v.data[1])
        else:
            x = model.get(v.name)
            if x is None:
                raise KeyError(v.name)
        cache[i] = x
        return x
    try:
        return float(P.reval(s.r, env))
    except ZeroDivisionError:
        return float('nan')
    except OverflowError:
        return float('inf')


def dval(s, model):
    """value of a Sym under model, to 60 digits (None where it cannot be told)"""
    s = lift(s)
    if type(s) is float:
        return None
    cache = {}

    def dec(c):
        c = Fraction(c)
        return decimal.Decimal(c.numerator) / decimal.Decimal(c.denominator)

    def poly(p):
        t = decimal.Decimal(0)
        for m, c in p.t.items():
            x = dec(c)
            for i, e in P.mono_items(m):
                x = x * env(i) ** int(e)
            t += x
        return t

    def rat(r):
        v = poly(r.n)
        for f, e in (r.d or {}).items():
            v = v / poly(f) ** int(e)
        return v

    def env(i):
        if i not in cache:
            v = VARS[i]
            if v.kind == 'pi':
                x = decimal.Decimal('3.14159265358979323846264338327950288419716939937510582097494459')
            elif v.kind == 'sqrt':
                x = poly(v.data).sqrt()
            elif v.kind == 'log':
                x = poly(v.data).ln()
            elif v.kind == 'exp':
                x = rat(v.data).exp()
            elif isinstance(v.data, tuple) and v.data[0] == 'max':
                x = max(rat(r) for r in v.data[1])
            else:
                x = dec(Fraction(model[v.name]))
            cache[i] = x
        return cache[i]
    with decimal.localcontext() as c:
        c.prec = 60
        try:
            x = rat(s.r)
        except (decimal.DecimalException, KeyError, ValueError, TypeError, OverflowError):
            return None
        return x if x.is_finite() else None


def real(name):
    return Sym(rvar(new_var(name, 'real')))


def pos(name):
    return Sym(rvar(new_var(name, 'pos')))


def unit(name):
    return Sym(rvar(new_var(name, 'unit')))


def uninit():
    c = ctx()
    c.uninit += 1
    return real('uninit!%d' % c.uninit)


# ---------------------------------------------------------------- derivatives and linear coefficients
def pdiff(p, i):
    """derivative of a polynomial wrt variable i, atoms included; returns Rat"""
    vs = p.vars()
    res = R0
    direct = {}
    u = 1 << (P.W * i)
    if i in vs:
        for m, c in p.t.items():
            e = (m >> (P.W * i)) & 0x7F
            if e:
                direct[m - u] = P.norm_coef(c * e)
        res = Rat(Poly(direct))
    for j in vs:
        v = VARS[j]
        if j == i or v.kind not in ('sqrt', 'log', 'exp'):
            if j != i and isinstance(v.data, tuple):
                raise Unsupported('derivative of max')
            continue
        if i not in close_all(j):
            continue
        uj = 1 << (P.W * j)
        co = {}
        for m, c in p.t.items():
            e = (m >> (P.W * j)) & 0x7F
            if e:
                co[m - uj] = P.norm_coef(c * e)
        if v.kind == 'sqrt':
            # ds = dp / (2 s)
            dj = rmul(rscale(pdiff(v.data, i), Fraction(1, 2)), rinv(rvar(v)))
        elif v.kind == 'log':
            dj = rmul(pdiff(v.data, i), rinv(Rat(v.data)))
        else:
            dj = rmul(rdiff(v.data, i), rvar(v))
        res = radd(res, rmul(Rat(Poly(co)), dj))
    return res


_CA = {}


def close_all(j):
    r = _CA.get(j)
    if r is None:
        v = VARS[j]
        r = {j}
        if v.kind in ('sqrt', 'log'):
            for k in v.data.vars():
                r |= close_all(k)
        elif v.kind == 'exp':
            for k in rvars(v.data):
                r |= close_all(k)
        _CA[j] = r
    return r


def rdiff(r, i):
    res = pdiff(r.n, i)
    if r.d:
        res = P.cancel(res.n, dict_add(res.d, r.d)) if True else res
        for f, e in r.d.items():
            df = pdiff(f, i)
            if not df.iszero():
                res = radd(res, rneg(rmul(r, rscale(rmul(df, rinv(Rat(f))), e))))
    return res


def dict_add(a, b):
    d = dict(a) if a else {}
    for f, e in (b or {}).items():
        d[f] = d.get(f, 0) + e
    return d


def diff(s, var):
    s = lift(s)
    if type(s) is float:
        return s
    i = next(iter(rvars(var.r)))
    return Sym(rdiff(s.r, i))


def subst0(s, idxs):
    """s with the given variables set to zero (polynomial occurrences only)"""
    s = lift(s)
    if type(s) is float:
        return s
    mask = 0
    for i in idxs:
        mask |= 0xFF << (P.W * i)
    for j in rvars(s.r):
        if j not in idxs and VARS[j].kind in ('sqrt', 'log', 'exp') and close_all(j) & set(idxs):
            raise Unsupported('nonlinear dependence on a normal variable')
    if s.r.d:
        for f in s.r.d:
            if set(f.vars()) & set(idxs):
                raise Unsupported('nonlinear dependence on a normal variable')
    return Sym(P.cancel(Poly({m: c for m, c in s.r.n.t.items() if not m & mask}), s.r.d))


def at0(s, var):
    """rational s with one variable set to zero, also inside denominators"""
    s = lift(s)
    if type(s) is float:
        return s
    i = next(iter(rvars(var.r)))
    mask = 0xFF << (P.W * i)

    def drop(p):
        return Sym(Rat(Poly({m: c for m, c in p.t.items() if not m & mask})))
    for j in rvars(s.r):
        if j != i and i in close_all(j):
            raise Unsupported('substitution inside a function')
    out = drop(s.r.n)
    for f, e in (s.r.d or {}).items():
        g = drop(f)
        for _ in range(e):
            out = out / g
    return out
