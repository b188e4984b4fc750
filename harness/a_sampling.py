"""C01-C03: systematic sampling, resampling, weighted set queries."""
import numpy as np
from engine.cases import case, add, info, label

FILTER = 'pyparticleest.filter'


MANY = [(140, 140, ()), (294, 294, ()), (294, 42, ()), (42, 294, ())]    # the weights repeat with period 7, few paths suffice


def sample_weights(h, N, zeros):
    """non-negative weights, the ones in zeros are exactly 0"""
    w = h.zeros((N,))
    for i in range(N):
        if i not in zeros:
            few = h.p.get('few')
            w[i] = h.pos('w%d' % i) if few is None or i in few else h.const(some(i))
    return w


def c01(h):
    f = h.mod(FILTER)
    N, n, zeros = h.p['N'], h.p['n'], h.p['zeros']
    w = sample_weights(h, N, zeros)
    w0 = w.copy()
    ind = f.sample(w, n)
    h.same(np.shape(ind), (n,), 'n indices are returned')
    ind = [int(i) for i in ind]
    h.eq(w, w0, 'the weights of the caller are unchanged')
    tot = h.const(0)
    for i in range(N):
        tot = tot + w0[i]
    for k, i in enumerate(ind):
        h.same(0 <= i < N, True, 'indices are valid')
        h.same(i in zeros, False, 'a zero weight is never drawn')
    for i in range(N):
        c = ind.count(i)
        # |c - n w_i / tot| < 1
        h.true(h.lt(n * w0[i], (c + 1) * tot), 'index drawn at least floor(n w_i / sum w) times')
        h.true(h.lt((c - 1) * tot, n * w0[i]), 'index drawn at most ceil(n w_i / sum w) times')


info('C01', 'weights N<=4 (thorough 5), draws n<=4 (thorough 6), every pattern of zero weights up to two, all positive reals else',
     ['numpy.random.rand returns an arbitrary real strictly between 0 and 1'])
for N, n, z in [(1, 1, ()), (2, 1, (0,)), (2, 3, (1,)), (3, 1, ()), (3, 4, ()), (3, 3, (0,)), (3, 2, (2,)), (3, 3, (1,)), (4, 3, (0, 2)), (4, 4, ())]:
    add('C01', 'N%d-n%d-zero%s' % (N, n, ''.join(map(str, z))), c01, dict(N=N, n=n, zeros=z))
for N, n, z in [(5, 5, (0, 4)), (4, 6, ()), (5, 4, ())]:
    add('C01', 'N%d-n%d-zero%s' % (N, n, ''.join(map(str, z))), c01, dict(N=N, n=n, zeros=z), tier='thorough')


for N, n, few in MANY:
    add('C01', 'large-N%d-n%d' % (N, n), c01, dict(N=N, n=n, zeros=(), few=few))


class CopyModel(object):
    """what a user model does when asked for copies of particles"""

    def __init__(self, h):
        self.h = h
        self.calls = 0

    def copy_ind(self, particles, new_ind=None):
        self.calls += 1
        return particles[new_ind] if new_ind is not None else particles.copy()


def some(i, flat=False):
    """weights of the many particles of a large set of which few are arbitrary"""
    if flat:        # the sum is one less than the number of particles
        return 0.5 if i in (3, 77) else 1.0
    return (1 + (5 * i) % 7) / 4.0


def log_weights(h, N, neginf=(), shift=0):
    """log-weights of N particles with a common shift; the probabilities are returned too (unnormalised)"""
    p = []
    w = h.zeros((N,))
    for i in range(N):
        if i in neginf:
            w[i] = -float('inf')
            p.append(h.const(0))
        else:
            few = h.p.get('few')
            v = h.pos('p%d' % i) if few is None or i in few else h.const(some(i, h.p.get('flat')))
            p.append(v)
            w[i] = h.log(v) + shift
    return w, p


def tokens(h, N, base=0):
    return h.arr([[base + i, base + i + 0.25] for i in range(N)])


def total(h, p):
    t = h.const(0)
    for x in p:
        t = t + x
    return t


def c02(h):
    f = h.mod(FILTER)
    N, n = h.p['N'], h.p['n']
    w, p = log_weights(h, N, h.p.get('neginf', ()), h.p.get('shift', 0))
    part = tokens(h, N)
    w0, part0 = w.copy(), part.copy()
    pa = f.ParticleApproximation(part, w)
    h.eq(pa.part, part0, 'the set holds the particles it was made from')
    h.eq(pa.w, w0, 'the set holds the log-weights it was made from')
    pa.w_offset = pa.w_offset + 3
    oldpart, oldw = pa.part, pa.w
    m = CopyModel(h)
    ind = pa.resample(m, n) if h.p.get('explicit', True) else pa.resample(m)
    ind = [int(i) for i in np.asarray(ind)]
    h.same(len(ind), n, 'one ancestor per new particle')
    h.same(all(0 <= i < N for i in ind), True, 'ancestors are valid')
    tot = total(h, p)
    for i in range(N):
        c = ind.count(i)
        if i in h.p.get('neginf', ()):
            h.same(c, 0, 'a particle of zero weight does not survive')
        h.true(h.lt(n * p[i], (c + 1) * tot), 'a particle survives at least floor(n w) times')
        h.true(h.lt((c - 1) * tot, n * p[i]), 'a particle survives at most ceil(n w) times')
    h.eq(pa.part, part0[np.array(ind, dtype=int)], 'new particles are the drawn ones in the order of the ancestors')
    h.eq(pa.w, h.arr([h.log(h.const(1)) - h.log(h.const(n))] * n), 'all weights are 1/N')
    h.same(int(pa.num), n, 'the number of particles is updated')
    h.same(len(pa), n, 'length')
    h.eq(oldpart, part0, 'the particles stored before are not modified')
    h.eq(oldw, w0, 'the weights stored before are not modified')
    h.eq(part, part0, 'the particles of the caller are not modified')
    h.eq(w, w0, 'the weights of the caller are not modified')
    h.eq(pa.w_offset, 0, 'the weight offset restarts at zero')
    # later changes of the resampled set do not reach the old one
    pa.part[0, 0] = -5
    pa.w[0] = 7
    h.eq(oldpart, part0, 'the old particles do not share storage with the new ones')
    h.eq(w, w0, 'the old weights do not share storage with the new ones')


info('C02', 'N<=4 old particles, n<=4 new ones; log-weights log(p)+c for all p>0 and c in {0,-1e6,1e6}, up to one weight of -inf',
     ['numpy.random.rand returns an arbitrary real strictly between 0 and 1', 'the user model copies the selected particles',
      'exp of an exponent with constant part below -2000 is 0 and above 2000 is infinite, as in double precision'])
for N, n, kw in [(3, 3, {}), (3, 2, dict(shift=-1000000)), (2, 4, dict(shift=1000000)), (3, 3, dict(neginf=(0,), shift=-1000000)),
                 (3, 3, dict(explicit=False)), (1, 3, {}), (4, 1, {}), (4, 3, dict(neginf=(1,)))]:
    add('C02', label('N%d-n%d' % (N, n), kw), c02, dict(kw, N=N, n=n))
add('C02', 'N5-n5', c02, dict(N=5, n=5), tier='thorough')


def c02_build(h):
    """a particle set made from particles, or from a seed"""
    f = h.mod(FILTER)
    N = h.p['N']
    lg = h.log(h.const(1)) - h.log(h.const(N))
    part = tokens(h, N)
    p0 = part.copy()
    w, _ = log_weights(h, N)
    w0 = w.copy()
    for given in (None, w):
        pa = f.ParticleApproximation(part, given)
        h.same((len(pa), int(pa.num)), (N, N), 'number of particles')
        h.eq(pa.w_offset, 0, 'the weight offset starts at zero')
        h.eq(pa.part, p0, 'the particles are taken over')
        h.eq(pa.w, h.arr([lg] * N) if given is None else w0, 'weights are 1/N unless given')
        pa.part[0, 0] = -5
        pa.w[0] = 7
        h.eq(part, p0, 'the particles of the caller are not shared')
        h.eq(w, w0, 'the weights of the caller are not shared')
    seed = [h.real('a'), h.real('b')]
    pa = f.ParticleApproximation(seed=seed, num=N)
    h.same((len(pa), int(pa.num)), (N, N), 'number of copies of the seed')
    h.eq(pa.w, h.arr([lg] * N), 'weights are 1/N')
    for i in range(N):
        h.same(len(pa.part[i]), 2, 'every particle is a copy of the seed')
        h.eq(pa.part[i][0], seed[0], 'every particle is a copy of the seed')
        h.eq(pa.part[i][1], seed[1], 'every particle is a copy of the seed')
    pa.part[0][0] = h.const(3)
    for i in range(1, N):
        h.eq(pa.part[i][0], h.real('a'), 'copies of the seed are independent')
    h.eq(seed[0], h.real('a'), 'the seed is left alone')
    # a seed that holds other objects
    seed = [[h.real('a')], h.arr([h.real('b'), h.real('c')])]
    pa = f.ParticleApproximation(seed=seed, num=N)
    for i in range(N):
        h.eq(pa.part[i][0][0], h.real('a'), 'every particle is a copy of the seed')
        h.eq(pa.part[i][1], h.arr([h.real('b'), h.real('c')]), 'every particle is a copy of the seed')
    pa.part[0][0][0] = h.const(3)
    pa.part[0][1][0] = h.const(4)
    for i in range(1, N):
        h.eq(pa.part[i][0][0], h.real('a'), 'copies of the seed are independent')
        h.eq(pa.part[i][1][0], h.real('b'), 'copies of the seed are independent')
    h.eq(seed[0][0], h.real('a'), 'the seed is left alone')
    h.eq(seed[1][0], h.real('b'), 'the seed is left alone')


for N, n, few in MANY:
    add('C02', 'large-N%d-n%d' % (N, n), c02, dict(N=N, n=n, few=few))
for N in (1, 3):
    add('C02', 'build-N%d' % N, c02_build, dict(N=N))


def c03_neff(h):
    f = h.mod(FILTER)
    N = h.p['N']
    w, p = log_weights(h, N, h.p.get('neginf', ()), h.p.get('shift', 0))
    w0 = w.copy()
    pa = f.ParticleApproximation(tokens(h, N), w)
    ne = pa.calc_Neff()
    s1 = total(h, p)
    s2 = total(h, [x * x for x in p])
    h.eq(ne * s2, s1 * s1, 'effective number is (sum w)^2 / sum w^2')
    h.true(h.le(1 * s2, s1 * s1), 'effective number is at least 1')
    h.true(h.le(ne, N), 'effective number is at most N')
    h.eq(pa.w, w0, 'weights are unchanged')


def c03_sample(h):
    f = h.mod(FILTER)
    N = h.p['N']
    w, p = log_weights(h, N, h.p.get('neginf', ()), h.p.get('shift', 0))
    w0 = w.copy()
    pa = f.ParticleApproximation(tokens(h, N), w)
    x = pa.sample()
    h.same(np.shape(x), (2,), 'one particle is returned')
    i = int(x[0])
    h.eq(x[1], h.const(i) + h.f(1, 4), 'the particle is one of the set')
    u = h.unit('U0')
    tot = total(h, p)
    h.true(h.le(total(h, p[:i]), u * tot), 'drawn with its normalised weight (lower end)')
    h.true(h.le(u * tot, total(h, p[:i + 1])), 'drawn with its normalised weight (upper end)')
    h.eq(pa.w, w0, 'weights are unchanged')


def c03_best(h):
    f = h.mod(FILTER)
    N, n = h.p['N'], h.p['n']
    w, p = log_weights(h, N, h.p.get('neginf', ()), h.p.get('shift', 0))
    pa = f.ParticleApproximation(tokens(h, N), w)
    r = np.asarray(pa.find_best_particles(n) if h.p.get('explicit', True) else pa.find_best_particles())
    h.same(np.shape(r), (n,), 'n particles are returned')
    ind = [int(i) for i in r]
    h.same(len(set(ind)), n, 'n different particles')
    for i in ind:
        for j in range(N):
            if j not in ind:
                h.true(h.le(p[j], p[i]), 'a returned particle weighs at least as much as any other')


info('C03', 'N<=4 particles, n<=N; log-weights log(p)+c for all p>0, c in {0,-1e6,1e6}, up to one weight of -inf',
     ['numpy.random.rand returns an arbitrary real strictly between 0 and 1',
      'exp of an exponent with constant part below -2000 is 0 and above 2000 is infinite, as in double precision'])
for N, kw in [(1, {}), (2, dict(shift=-1000000)), (3, dict(shift=1000000)), (3, dict(neginf=(1,))), (4, {})]:
    nm = label('N%d' % N, kw)
    add('C03', 'neff-' + nm, c03_neff, dict(kw, N=N))
    add('C03', 'draw-' + nm, c03_sample, dict(kw, N=N))
for N, n, kw in [(3, 1, dict(explicit=False)), (3, 2, {}), (4, 1, {}), (4, 3, {}), (4, 2, dict(neginf=(0,))), (3, 2, dict(shift=-1000000))]:
    add('C03', label('best-N%d-n%d' % (N, n), kw), c03_best, dict(kw, N=N, n=n))
for N, few in [(300, (0, 298)), (140, (139,))]:
    add('C03', 'neff-large-N%d' % N, c03_neff, dict(N=N, few=few))
    add('C03', 'draw-large-N%d' % N, c03_sample, dict(N=N, few=few))
    add('C03', 'best-large-N%d' % N, c03_best, dict(N=N, n=5, few=few))
