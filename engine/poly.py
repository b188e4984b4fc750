"""Exact multivariate rational functions over named atoms.

Monomials are packed into one Python int, 8 bits per variable (7 bits of
exponent, one guard bit), so multiplying monomials is integer addition.
Coefficients are ints or Fractions.  Square-root atoms satisfy s**2 == p.
"""
from fractions import Fraction
import heapq
import math

W = 8


class VarInfo(object):
    __slots__ = ('name', 'kind', 'data', 'idx')

    def __init__(self, name, kind, data, idx):
        self.name = name
        self.kind = kind      # 'real', 'pos', 'sqrt', 'log', 'exp', 'pi'
        self.data = data
        self.idx = idx


VARS = []
BYNAME = {}
_state = {'sqmask': 0, 'sqvars': [], 'guard': 0}


def new_var(name, kind, data=None):
    v = BYNAME.get(name)
    if v is not None:
        if v.kind != kind:
            raise ValueError('variable %s redeclared' % name)
        return v
    v = VarInfo(name, kind, data, len(VARS))
    VARS.append(v)
    BYNAME[name] = v
    _state['guard'] |= 0x80 << (W * v.idx)
    if kind == 'sqrt':
        _state['sqmask'] |= 0x7E << (W * v.idx)
        _state['sqvars'].append(v)
    return v


def norm_coef(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def mono_items(m):
    """[(var index, exponent)]"""
    res = []
    while m:
        low = (m & -m).bit_length() - 1
        i = low // W
        e = (m >> (W * i)) & 0xFF
        res.append((i, e))
        m &= ~(0xFF << (W * i))
    return res


class Poly(object):
    __slots__ = ('t', '_h', '_z', '_vars')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None
        self._vars = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (len(self.t) == len(o.t) and hash(self) == hash(o) and self.t == o.t)

    def iszero(self):
        return not self.t

    def isconst(self):
        t = self.t
        return not t or (len(t) == 1 and 0 in t)

    def const(self):
        return self.t.get(0, 0)

    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        if len(self.t) < len(o.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x = x + c
                if x == 0:
                    del r[m]
                else:
                    r[m] = norm_coef(x)
        return Poly(r)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: norm_coef(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(a) == 1 and 0 in a:
            return o.scale(a[0])
        if len(b) == 1 and 0 in b:
            return self.scale(b[0])
        if len(a) < len(b):
            a, b = b, a
        r = {}
        get = r.get
        if len(a) * len(b) > LIMIT['mul']:
            raise TooBig('product of %d x %d terms' % (len(a), len(b)))
        for mb, cb in b.items():
            for ma, ca in a.items():
                m = ma + mb
                x = get(m)
                if x is None:
                    r[m] = ca * cb
                else:
                    r[m] = x + ca * cb
        msk = _state['sqmask']
        red = False
        out = {}
        for m, c in r.items():
            if c != 0:
                out[m] = norm_coef(c)
                if m & msk:
                    red = True
        p = Poly(out)
        if red:
            p = reduce_sq(p)
        return p

    def __pow__(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def vars(self):
        if self._vars is None:
            acc = 0
            for m in self.t:
                acc |= m
            self._vars = [i for i, _ in mono_items(acc)]
        return self._vars

    def content(self):
        """positive rational content"""
        num = 0
        den = 1
        for c in self.t.values():
            if type(c) is Fraction:
                num = math.gcd(num, c.numerator)
                den = den * c.denominator // math.gcd(den, c.denominator)
            else:
                num = math.gcd(num, c)
        return Fraction(num, den)

    def lead(self):
        return max(self.t)

    def __repr__(self):
        if not self.t:
            return '0'
        s = []
        for m in sorted(self.t, reverse=True)[:12]:
            c = self.t[m]
            ms = '*'.join(VARS[i].name + ('' if e == 1 else '^%d' % e) for i, e in mono_items(m))
            s.append(('%s*%s' % (c, ms)) if ms and c != 1 else (ms or str(c)))
        if len(self.t) > 12:
            s.append('...(%d terms)' % len(self.t))
        return ' + '.join(s)


class TooBig(Exception):
    pass


LIMIT = {'mul': 4000000}
ZERO = Poly({})
ONE = Poly({0: 1})


def const_poly(c):
    if c == 0:
        return ZERO
    if c == 1:
        return ONE
    return Poly({0: norm_coef(c)})


def var_poly(v):
    return Poly({1 << (W * v.idx): 1})


def reduce_sq(p):
    """Replace s**2 by its defining polynomial until no square is left."""
    while True:
        msk = _state['sqmask']
        keep = {}
        extra = ZERO
        for m, c in p.t.items():
            if m & msk:
                rep = ONE
                mm = m
                for v in _state['sqvars']:
                    e = (mm >> (W * v.idx)) & 0x7F
                    if e >= 2:
                        mm -= (e - (e & 1)) << (W * v.idx)
                        rep = rep * (v.data ** (e // 2))
                extra = extra + (Poly({mm: c}) * rep if mm else rep.scale(c))
            else:
                keep[m] = c
        if extra is ZERO or not extra.t:
            if len(keep) == len(p.t):
                return p
            return Poly(keep)
        p = Poly(keep) + extra
        for m in p.t:
            if m & _state['sqmask']:
                break
        else:
            return p


def divides_mono(a, b):
    """does monomial a divide b"""
    g = _state['guard']
    return (((b | g) - a) & g) == g


def exact_div(n, d):
    """n / d if exact, else None.  Not used when square-root atoms occur in d."""
    if not n.t:
        return n
    dt = d.t
    ld = max(dt)
    td = min(dt)
    if not divides_mono(ld, max(n.t)) or not divides_mono(td, min(n.t)):
        return None
    if len(dt) == 1:
        c = dt[ld]
        out = {}
        for m, x in n.t.items():
            if not divides_mono(ld, m):
                return None
            out[m - ld] = norm_coef(Fraction(x) / c)
        return Poly(out)
    # quick degree test per variable
    for v in d.vars():
        sh = W * v
        if max((m >> sh) & 0x7F for m in dt) > max((m >> sh) & 0x7F for m in n.t):
            return None
    lc = dt[ld]
    rest = [(m, c) for m, c in dt.items() if m != ld]
    r = dict(n.t)
    heap = [-m for m in r]
    heapq.heapify(heap)
    q = {}
    limit = 20 * (len(n.t) + 50)
    while heap:
        m = -heapq.heappop(heap)
        c = r.pop(m, None)
        if c is None or c == 0:
            continue
        if not divides_mono(ld, m):
            return None
        qm = m - ld
        qc = c if lc == 1 else norm_coef(Fraction(c) / lc)
        q[qm] = qc
        if len(q) > limit:
            return None
        for dm, dc in rest:
            k = qm + dm
            x = r.get(k)
            if x is None:
                r[k] = -qc * dc
                heapq.heappush(heap, -k)
            else:
                x = x - qc * dc
                r[k] = norm_coef(x)
    return Poly(q)


def primitive(p):
    """(content with sign, primitive poly with positive leading coefficient)"""
    c = p.content()
    if p.t[max(p.t)] < 0:
        c = -c
    return c, p.scale(1 / c)


def mono_content(p):
    """largest monomial dividing every term"""
    it = iter(p.t)
    acc = dict(mono_items(next(it)))
    for m in it:
        if not acc:
            break
        for i in list(acc):
            e = (m >> (W * i)) & 0x7F
            if e < acc[i]:
                if e:
                    acc[i] = e
                else:
                    del acc[i]
    return acc


# factors found so far; trial division by these keeps denominators and logs factored
KNOWN = {}
KNOWN_MAX_TERMS = 60


def factor(p):
    """(rational const, {Poly: exp}) : monomials split off, known factors divided out"""
    c, q = primitive(p)
    fac = {}
    mc = mono_content(q)
    if mc:
        mono = 0
        for i, e in mc.items():
            fac[var_poly(VARS[i])] = e
            mono += e << (W * i)
        q = Poly({m - mono: x for m, x in q.t.items()})
    if q.isconst():
        return norm_coef(c * q.const()), fac
    if q not in KNOWN:
        qv = set(q.vars())
        nt = len(q.t)
        hassq = any(VARS[i].kind == 'sqrt' for i in qv)
        if not hassq and nt <= 400:
            for f in list(KNOWN):
                if len(f.t) > nt or not set(f.vars()) <= qv:
                    continue
                while True:
                    r = exact_div(q, f)
                    if r is None:
                        break
                    fac[f] = fac.get(f, 0) + 1
                    q = r
                    if q.isconst():
                        break
                if q.isconst():
                    break
                qv = set(q.vars())
                nt = len(q.t)
    if q.isconst():
        return norm_coef(c * q.const()), fac
    c2, q = primitive(q)
    c = c * c2
    fac[q] = fac.get(q, 0) + 1
    if q not in KNOWN and len(q.t) <= KNOWN_MAX_TERMS and len(KNOWN) < 400:
        KNOWN[q] = True
    return norm_coef(c), fac


class Rat(object):
    """num / prod(f**e); factors primitive"""
    __slots__ = ('n', 'd', '_h')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or None
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.n, frozenset(self.d.items()) if self.d else None))
        return self._h

    def __eq__(self, o):
        return self.n == o.n and (self.d or {}) == (o.d or {})

    def isconst(self):
        return self.d is None and self.n.isconst()

    def const(self):
        return self.n.const()

    def iszero(self):
        return not self.n.t

    def denpoly(self):
        r = ONE
        if self.d:
            for f, e in self.d.items():
                r = r * (f ** e)
        return r

    def __repr__(self):
        if not self.d:
            return repr(self.n)
        return '(%r)/[%s]' % (self.n, ' '.join('(%r)^%d' % (f, e) for f, e in self.d.items()))


def rconst(c):
    return Rat(const_poly(c))


R0 = Rat(ZERO)
R1 = Rat(ONE)


def cancel(n, d):
    if not n.t:
        return R0
    if d:
        d = dict(d)
        for f in list(d):
            fv = f.vars()
            if any(VARS[i].kind == 'sqrt' for i in fv):
                if len(f.t) == 1:
                    # den is a bare sqrt atom s: multiply by s/s -> s*n / p
                    v = VARS[fv[0]]
                    e = d.pop(f)
                    while e > 0:
                        if e >= 2:
                            e -= 2
                        else:
                            e -= 1
                            n = n * f
                        c, fac = factor(v.data)
                        n = n.scale(1 / Fraction(c))
                        for g, ge in fac.items():
                            d[g] = d.get(g, 0) + ge
                    return cancel(n, d)
                continue
        for f in list(d):
            if any(VARS[i].kind == 'sqrt' for i in f.vars()):
                q = None
                if f == n:
                    q = ONE
                if q is not None:
                    n = q
                    d[f] -= 1
                    if d[f] == 0:
                        del d[f]
                continue
            while d[f]:
                if len(f.t) > len(n.t) and len(f.t) > 1 and len(n.t) == 1:
                    break
                q = exact_div(n, f)
                if q is None:
                    break
                n = q
                d[f] -= 1
            if d[f] == 0:
                del d[f]
    return Rat(n, d)


def radd(a, b):
    if not a.n.t:
        return b
    if not b.n.t:
        return a
    if a.d is None and b.d is None:
        return Rat(a.n + b.n)
    ad = a.d or {}
    bd = b.d or {}
    if ad == bd:
        return cancel(a.n + b.n, ad)
    d = dict(ad)
    for f, e in bd.items():
        if d.get(f, 0) < e:
            d[f] = e
    na = a.n
    nb = b.n
    for f, e in d.items():
        k = e - ad.get(f, 0)
        if k:
            na = na * (f ** k)
        k = e - bd.get(f, 0)
        if k:
            nb = nb * (f ** k)
    return cancel(na + nb, d)


def rneg(a):
    return Rat(a.n.neg(), a.d)


def rmul(a, b):
    if not a.n.t or not b.n.t:
        return R0
    if a.d is None and b.d is None:
        return Rat(a.n * b.n)
    an, bn = a.n, b.n
    ad, bd = a.d, b.d
    if bd and len(an.t) > 0 and not an.isconst():
        r = cancel(an, bd)
        an, bd = r.n, r.d
    if ad and not bn.isconst():
        r = cancel(bn, ad)
        bn, ad = r.n, r.d
    d = dict(ad) if ad else {}
    if bd:
        for f, e in bd.items():
            d[f] = d.get(f, 0) + e
    n = an * bn
    # squares of sqrt atoms may have produced new common factors
    if d and (any(VARS[i].kind == 'sqrt' for i in an.vars()) and any(VARS[i].kind == 'sqrt' for i in bn.vars())):
        return cancel(n, d)
    for f in d:
        if any(VARS[i].kind == 'sqrt' for i in f.vars()):
            return cancel(n, d)
    return Rat(n, d)


def rinv(a):
    c, fac = factor(a.n)
    n = const_poly(1 / Fraction(c))
    if a.d:
        for f, e in a.d.items():
            n = n * (f ** e)
    return cancel(n, fac)


def rscale(a, k):
    if k == 0:
        return R0
    return Rat(a.n.scale(k), a.d)


def rpow(a, n):
    if n < 0:
        return rpow(rinv(a), -n)
    r = R1
    for _ in range(n):
        r = rmul(r, a)
    return r


def rvar(v):
    return Rat(var_poly(v))


def is_pos_poly(p, posset):
    """syntactic: all coefficients positive and every variable positive"""
    if p in posset:
        return True
    for c in p.t.values():
        if c < 0:
            return False
    if not p.t:
        return False
    for i in p.vars():
        if VARS[i].kind not in ('pos', 'sqrt', 'exp', 'pi', 'unit'):
            # even powers only are nonnegative: need an additional strictly positive term
            return False
    return True


def peval(p, env):
    """numeric evaluation; env: idx -> float/Fraction"""
    s = 0
    for m, c in p.t.items():
        x = c
        for i, e in mono_items(m):
            x = x * env(i) ** e
        s = s + x
    return s


def reval(r, env):
    v = peval(r.n, env)
    if r.d:
        for f, e in r.d.items():
            v = v / peval(f, env) ** e
    return v
