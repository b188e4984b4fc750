"""Executes /repo's current sources against the symbolic shims (or imports them for real)."""
import builtins
import os
import re
import sys
import types
import hashlib
import subprocess
import numpy as np
from engine import shim

REPO = os.environ.get('VERIF_REPO', '/repo')


# ------------------------------------------------------------------ .pyx -> Python
_ARG = re.compile(r'^\s*(?:const\s+)?(?P<type>(?:unsigned\s+|signed\s+|long\s+|short\s+)*[A-Za-z_][\w\.]*(?:\s*\[[^\]]*\])?)\s+(?P<name>[A-Za-z_]\w*)(?P<rest>\s*(?:=.*)?)$', re.S)


def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def strip_casts(src):
    return re.sub(r'<\s*(?:unsigned\s+|signed\s+|long\s+)*(?:int|long|double|float|size_t|Py_ssize_t|object|char|short|np\.\w+|unsigned)\s*>\s*', '', src)


def pyx_to_py(src):
    """Cython source -> Python source with the argument checks Cython generates"""
    src = strip_casts(src)
    lines = src.split('\n')
    out = []
    i = 0
    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        ind = ln[:len(ln) - len(ln.lstrip())]
        if re.match(r'(cimport\s|from\s+[\w\.]+\s+cimport\s|include\s)', st):
            out.append(ind + 'pass')
            i += 1
            continue
        if st.startswith('@cython.') or st.startswith('@cython('):
            out.append('')
            i += 1
            continue
        if re.match(r'(ctypedef|DEF)\s', st):
            out.append(ind + 'pass')
            i += 1
            continue
        m = re.match(r'(cdef|cpdef|def)\s', st)
        if m:
            # gather a whole function header, or a cdef declaration
            kw = m.group(1)
            if kw == 'cdef' and '(' not in st.split('=')[0]:
                decl = st[4:].strip()
                if decl.endswith(':'):
                    raise ValueError('cdef block')
                parts = split_args(decl)
                res = []
                for k, p in enumerate(parts):
                    if '=' in p:
                        lhs, rhs = p.split('=', 1)
                        res.append('%s = %s' % (lhs.split()[-1], rhs.strip()))
                out.append(ind + ('; '.join(res) if res else 'pass'))
                i += 1
                continue
            hdr = ln
            while hdr.count('(') != hdr.count(')') or not re.sub(r'#.*', '', hdr).rstrip().endswith(':'):
                i += 1
                hdr += '\n' + lines[i]
                if hdr.count('\n') > 60:
                    raise ValueError('function header')
            a = hdr.index('(')
            depth = 0
            for b in range(a, len(hdr)):
                if hdr[b] == '(':
                    depth += 1
                elif hdr[b] == ')':
                    depth -= 1
                    if depth == 0:
                        break
            name = hdr[:a].split()[-1]
            args = []
            checks = []
            for p in split_args(re.sub(r'#.*', '', hdr[a + 1:b])):
                p = p.strip()
                mm = _ARG.match(p)
                if mm and not re.match(r'^[A-Za-z_]\w*\s*(=|$)', p):
                    args.append(mm.group('name') + mm.group('rest'))
                    checks.append((mm.group('name'), re.sub(r'\s+', ' ', mm.group('type'))))
                else:
                    args.append(p)
            out.append('%sdef %s(%s):' % (ind, name, ', '.join(args)))
            # checks go after the docstring position; order is irrelevant for us
            for nm, ty in checks:
                out.append('%s    %s = __cytype__(%r, %r, %s)' % (ind, nm, nm, ty, nm))
            i += 1
            continue
        out.append(ln)
        i += 1
    return '\n'.join(out)


def cytype(name, ty, v):
    """what Cython does with a typed argument"""
    if ty.startswith('np.ndarray') or ty.startswith('numpy.ndarray') or ty.startswith('ndarray'):
        if v is None:
            return v
        if not isinstance(v, np.ndarray):
            raise TypeError("Argument '%s' has incorrect type (expected numpy.ndarray, got %s)" % (name, type(v).__name__))
        m = re.search(r'ndim\s*=\s*(\d+)', ty)
        if m and v.ndim != int(m.group(1)):
            raise ValueError('Buffer has wrong number of dimensions (expected %s, got %d)' % (m.group(1), v.ndim))
        if '[' in ty:
            if re.search(r'double|float', ty) and not isinstance(v, shim.SArr) and v.dtype.kind != 'f':
                raise ValueError('Buffer dtype mismatch')
        return v
    if 'int' in ty or 'long' in ty or ty in ('size_t', 'Py_ssize_t', 'unsigned'):
        return int(v)
    return v


# ------------------------------------------------------------------ symbolic import
class SymLoader(object):
    """private module registry; config: 'pure' or 'ext'"""

    def __init__(self, config, rnd, opt):
        self.config = config
        self.mods = {}
        self.files = {}
        self.np = shim.make_numpy(rnd)
        self.sp, self.sla = shim.make_scipy(opt)
        self.math = shim.make_math()
        self.opt = opt
        self.rnd = rnd
        plt = _Anything('matplotlib.pyplot')
        mpl = types.ModuleType('matplotlib')
        mpl.pyplot = plt
        self.fixed = {'numpy': self.np, 'numpy.random': rnd, 'numpy.linalg': self.np.linalg, 'scipy': self.sp,
                      'scipy.linalg': self.sla, 'scipy.optimize': opt, 'scipy.special': self.sp.special, 'scipy.stats': self.sp.stats, 'math': self.math,
                      'bisect': shim.make_bisect(),
                      'matplotlib': mpl, 'matplotlib.pyplot': plt}
        b = types.ModuleType('builtins')
        b.__dict__.update(builtins.__dict__)
        b.__import__ = self._import
        b.print = lambda *a, **k: print(*a, **k)      # the standard output of the moment
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name in self.fixed or name.split('.')[0] in ('numpy', 'scipy', 'matplotlib'):
            m = self.fixed.get(name)
            if m is None:
                return builtins.__import__(name, globals, locals, fromlist, 0)
            return m if fromlist else self.fixed[name.split('.')[0]]
        if name.split('.')[0] == 'pyparticleest':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + '.' + f))
                        except ImportError:
                            pass
                return m
            return self.load('pyparticleest')
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def path(self, name):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py'), True
        if os.path.exists(base + '.py'):
            return base + '.py', False
        if os.path.exists(base + '.pyx'):
            if self.config != 'ext':
                raise ImportError(name)
            return base + '.pyx', False
        raise ImportError('No module named %r' % name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
        p, ispkg = self.path(name)
        src = open(p, encoding='utf-8').read()
        m = types.ModuleType(name)
        m.__file__ = p
        if ispkg:
            m.__path__ = [os.path.dirname(p)]
            m.__package__ = name
        else:
            m.__package__ = parent
        m.__builtins__ = self.builtins
        if p.endswith('.pyx'):
            src = pyx_to_py(src)
            m.__dict__['xrange'] = range
            m.__dict__['__cytype__'] = cytype
        self.mods[name] = m
        self.files[name] = p
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                code = compile(src, p, 'exec')
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m


class _Anything(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return _Anything(k)

    def __call__(self, *a, **k):
        return _Anything('r')


# ------------------------------------------------------------------ real import
def build_ext(outdir=None):
    """compile /repo's .pyx files in a scratch directory; returns it"""
    srcs = []
    for root, _d, fs in os.walk(os.path.join(REPO, 'pyparticleest')):
        for f in fs:
            if f.endswith('.pyx'):
                srcs.append(os.path.join(root, f))
    srcs.sort()
    h = hashlib.sha256()
    for s in srcs:
        h.update(s.encode())
        h.update(open(s, 'rb').read())
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    base = outdir or os.path.join(here, 'out', 'ext-' + h.hexdigest()[:16])
    done = os.path.join(base, 'done')
    if os.path.exists(done):
        return base
    import tempfile
    import shutil
    os.makedirs(os.path.dirname(base), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='ext-', dir=os.path.dirname(base))
    from concurrent.futures import ThreadPoolExecutor

    def one(s):
        rel = os.path.relpath(s, REPO)
        d = os.path.join(tmp, os.path.splitext(rel)[0] + '.d')
        pk = os.path.join(d, os.path.dirname(rel))
        os.makedirs(pk)
        shutil.copy(s, pk)
        env = dict(os.environ, CFLAGS='-O0 -w -I' + np.get_include())
        r = subprocess.run([os.path.join(os.path.dirname(sys.executable), 'cythonize'), '-q', '-i', rel], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        so = [f for f in os.listdir(pk) if f.endswith('.so')]
        if not so:
            raise RuntimeError('cannot build %s: %s' % (rel, r.stdout[-2000:]))
        os.makedirs(os.path.join(tmp, os.path.dirname(rel)), exist_ok=True)
        os.rename(os.path.join(pk, so[0]), os.path.join(tmp, os.path.dirname(rel), so[0]))
        shutil.rmtree(d)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, srcs))
    open(os.path.join(tmp, 'done'), 'w').write('ok')
    try:
        os.rename(tmp, base)
    except OSError:
        shutil.rmtree(tmp)
    return base


class RealLoader(object):
    def __init__(self, config, extdir=None):
        self.config = config
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        exts = [('pyparticleest.utils.ckalman'), ('pyparticleest.utils.cmlnlg_compute')]
        if config == 'pure':
            for e in exts:
                sys.modules[e] = None
        else:
            import importlib.util
            import sysconfig
            for e in exts:
                so = os.path.join(extdir, *e.split('.')) + sysconfig.get_config_var('EXT_SUFFIX')
                spec = importlib.util.spec_from_file_location(e, so)
                m = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(m)
                sys.modules[e] = m

    def load(self, name):
        import importlib
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            return importlib.import_module(name)
