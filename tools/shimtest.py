#!/opt/venv/bin/python
"""Does the symbolic numpy agree with numpy? Every expression is evaluated by both on the same constants, and once on symbols (only to see
that it is supported)."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import math
import numpy as np, scipy, scipy.linalg, scipy.special, scipy.stats
from engine import sym as S, shim, harness as H
from fractions import Fraction as F

DATA = dict(
    A=[[[2, F(1, 2)], [F(1, 2), 1]]][0], B=[[1, 2], [F(-1, 2), 3]], v=[1, -2, F(1, 2)], w=[F(1, 2), F(1, 4), F(1, 4)],
    M=[[1, 2], [3, 4], [-5, 6]], T=[[[2, 0], [0, 1]], [[1, F(1, 4)], [F(1, 4), 3]]], c=[[1], [2]], z=[[0, 1], [2, 0]])
EXPR = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shimexpr.txt')).read().strip().split('\n')


def close(a, b):
    if isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if b is None or isinstance(b, str):
        return a == b
    x = np.asarray(a)
    b = np.asarray(b)
    if x.shape != b.shape:
        return False
    if b.dtype == object:
        return True
    if b.dtype.kind in 'bi' and b.dtype != bool and x.dtype.kind not in 'biu' and False:
        return False
    x = np.array([S.numeval(e, {}) if isinstance(e, S.Sym) else float(e) for e in x.ravel()]).reshape(x.shape)
    return bool(np.allclose(x, b.astype(float), equal_nan=True))


def run(src, g):
    if ';' in src:
        *st, e = src.split(';')
        exec('\n'.join(x.strip() for x in st), g)
        src = e.strip()
    return eval(src, g)


bad = 0
for e in EXPR:
    if not e.strip() or e.startswith('#'):
        continue
    try:
        g = {k: np.array(v, dtype=float) for k, v in DATA.items()}
        g.update(np=np, numpy=np, scipy=scipy, math=math)
        ref = run(e, g)
    except Exception as x:
        print('REF', e, '->', type(x).__name__, x)
        continue
    for mode in ('const', 'sym'):
        out = []

        def fn(h):
            g = {}
            for k, v in DATA.items():
                a = np.array(v, dtype=object)
                if mode == 'const':
                    g[k] = h.mkarr([h.const(x) for x in a.ravel()], a.shape)
                elif k == 'A':
                    g[k] = h.spd('A', 2)
                elif k == 'T':
                    g[k] = h.spdn('T', 2, 2)
                elif k == 'w':
                    g[k] = h.mkarr([h.pos('w%d' % i) for i in range(3)], (3,))
                else:
                    g[k] = h.vec(k, *a.shape)
            b = dict(vars(h.loader.builtins))
            g.update(np=h.np, numpy=h.np, scipy=h.loader.sp, math=h.loader.math, __builtins__=h.loader.builtins)
            out.append(run(e, g))
            h.true(True, 'x')
        try:
            stats, fails, files, sample, und = H.explore(fn, {}, 'pure', 20, 200)
        except BaseException as x:
            traceback.print_exc()
            print(mode, e, 'CRASH', type(x).__name__, x)
            bad += 1
            break
        if und or fails:
            print(mode, e, '->', und or str(fails[0])[:200])
            bad += 1
            break
        if mode == 'const' and not close(out[0], ref):
            print('DIFF', e, 'got', out[0], 'want', ref)
            bad += 1
            break
print(bad, 'problems of', len(EXPR))
