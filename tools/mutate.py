#!/opt/venv/bin/python
"""Mutation campaign: small changes of the source, which checks notice them. Results go to a file outside the repository.

mutate.py OUT.jsonl PER_FUNCTION SEED [FILE ...]"""
import ast, copy, json, os, random, shutil, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'


def funcmap():
    m, cost = {}, {}
    d = os.path.join(HERE, 'evidence')
    for f in os.listdir(d):
        e = json.load(open(os.path.join(d, f)))
        cost[e['property']] = e['wall_s']
        for x in e['coverage']['functions_encoded']:
            m.setdefault(x, set()).add(e['property'])
    return m, cost


class Sites(ast.NodeVisitor):
    def __init__(self):
        self.stack, self.out = [], []

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.out.append(('.'.join(self.stack), n))
        self.stack.pop()


def muts(fn, rng):
    """list of (description, function that mutates a copy given path)"""
    res = []
    names = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id not in ('self', 'numpy', 'np', 'math', 'range', 'len', 'copy', 'pf', 'kalman', 'scipy')})
    nodes = list(ast.walk(fn))
    doc = fn.body[0] if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
    skip = set(map(id, ast.walk(doc))) if doc else set()
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: [ast.LtE, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.GtE: [ast.Gt], ast.LtE: [ast.Lt]}
            for o in sw.get(type(n.ops[0]), []):
                res.append((i, 'cmp', o.__name__, n.lineno))
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
            if type(n.op) in sw:
                res.append((i, 'bin', sw[type(n.op)].__name__, n.lineno))
            res.append((i, 'left', '', n.lineno))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            res.append((i, 'un', '', n.lineno))
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            res.append((i, 'const', 'x+1', n.lineno))
            if n.value not in (0,):
                res.append((i, 'const', '0', n.lineno))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            res.append((i, 'flip', '', n.lineno))
        if isinstance(n, ast.Attribute) and n.attr == 'T':
            res.append((i, 'noT', '', n.lineno))
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f.split('.')[-1] in ('copy', 'deepcopy', 'copy_ind', 'reshape', 'ravel') and n.args:
                res.append((i, 'arg0', '', n.lineno))
            sw = {'numpy.sum': 'numpy.mean', 'numpy.mean': 'numpy.sum', 'np.sum': 'np.mean', 'numpy.max': 'numpy.min', 'numpy.zeros': 'numpy.ones', 'numpy.exp': 'numpy.log', 'np.zeros': 'np.ones', 'math.log': 'math.exp'}
            if f in sw:
                res.append((i, 'func', sw[f], n.lineno))
            if f.endswith('.dot') and len(n.args) == 1:
                res.append((i, 'dotswap', '', n.lineno))
            for k, kw in enumerate(n.keywords):
                if isinstance(kw.value, ast.Name):
                    for o in names:
                        if o != kw.value.id:
                            res.append((i, 'kw', '%d %s' % (k, o), n.lineno))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, (ast.Name, ast.BinOp, ast.Constant)):
            res.append((i, 'idx0', '', n.lineno))
            res.append((i, 'nosub', '', n.lineno))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
            o = [x for x in names if x != n.id]
            # names alike first
            alike = [x for x in o if x[:2] == n.id[:2] or x[-2:] == n.id[-2:]]
            for x in (alike * 2 + rng.sample(o, min(2, len(o))))[:4]:
                res.append((i, 'name', x, n.lineno))
        if isinstance(n, (ast.AugAssign,)):
            res.append((i, 'aug', '', n.lineno))
        if isinstance(n, ast.If):
            res.append((i, 'iftrue', '', n.lineno))
            res.append((i, 'iffalse', '', n.lineno))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and n is not doc:
            res.append((i, 'del', '', n.lineno))
    return res


def apply(tree, qual, mut):
    t = copy.deepcopy(tree)
    s = Sites()
    s.visit(t)
    fn = dict(s.out)[qual]
    i, kind, arg, _ = mut
    nodes = list(ast.walk(fn))
    n = nodes[i]

    def repl(new):
        for p in nodes:
            for f, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, f, new)
                    return
                if isinstance(v, list):
                    for k, x in enumerate(v):
                        if x is n:
                            v[k] = new
                            return
    before = ast.unparse(n)
    if kind == 'cmp':
        n.ops = [getattr(ast, arg)()]
    elif kind == 'bin':
        n.op = getattr(ast, arg)()
    elif kind == 'left':
        repl(n.left)
    elif kind == 'un':
        repl(n.operand)
    elif kind == 'const':
        n.value = n.value + 1 if arg == 'x+1' else 0
    elif kind == 'flip':
        n.value = not n.value
    elif kind == 'noT':
        repl(n.value)
    elif kind == 'arg0':
        repl(n.args[0])
    elif kind == 'func':
        n.func = ast.parse(arg, mode='eval').body
    elif kind == 'dotswap':
        a = n.func.value
        n.func.value = n.args[0]
        n.args[0] = a
    elif kind == 'kw':
        k, o = arg.split()
        n.keywords[int(k)].value = ast.Name(o, ast.Load())
    elif kind == 'idx0':
        n.slice = ast.Constant(0)
    elif kind == 'nosub':
        repl(n.value)
    elif kind == 'name':
        n.id = arg
    elif kind == 'aug':
        n.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op), ast.Add)()
    elif kind == 'iftrue':
        n.test = ast.Constant(True)
    elif kind == 'iffalse':
        n.test = ast.Constant(False)
    elif kind == 'del':
        repl(ast.Pass())
    ast.fix_missing_locations(t)
    after = ast.unparse(n) if kind not in ('left', 'un', 'noT', 'arg0', 'nosub', 'del') else kind
    return ast.unparse(t), '%s => %s' % (before.split('\n')[0][:110], after.split('\n')[0][:110])


def run(job):
    k, f, qual, mut, props = job
    src = open(os.path.join(REPO, f)).read()
    tree = ast.parse(src)
    new, desc = apply(tree, qual, mut)
    r = {'file': f, 'func': qual, 'line': mut[3], 'kind': mut[1], 'arg': mut[2], 'desc': desc, 'i': mut[0]}
    if ast.unparse(tree) == new:
        r['res'] = 'same'
        return r
    try:
        compile(new, f, 'exec')
    except SyntaxError:
        r['res'] = 'same'
        return r
    w = '/tmp/mut_%d' % k
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree(REPO + '/pyparticleest', w + '/pyparticleest', ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.c'))
    open(os.path.join(w, f), 'w').write(new)
    env = dict(os.environ, VERIF_REPO=w, VERIF_GRACE='0', VERIF_NPROC='2')
    r['res'] = 'survived'
    r['noanswer'] = []
    for p in props:
        try:
            o = subprocess.run([PY, 'check.py', p], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            r['noanswer'].append(p + ' timeout')
            continue
        if o.returncode == 1 and 'VIOLATION' in o.stdout:
            r['res'] = 'caught'
            r['by'] = p
            break
        if o.returncode != 0:
            r['noanswer'].append(p + ' ' + (o.stdout.split('INCONCLUSIVE')[-1][:200] if o.stdout else o.stderr[-200:]))
    shutil.rmtree(w, ignore_errors=True)
    return r


def main():
    out, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:]
    fm, cost = funcmap()
    size = {}
    for x, ps in fm.items():
        for p in ps:
            size[p] = size.get(p, 0) + 1
    jobs = []
    if not files:
        files = sorted({x.split(':')[0] for x in fm if x.endswith('.py') or ':' in x})
        files = [f for f in files if f.endswith('.py')]
    uncovered = []
    for f in files:
        tree = ast.parse(open(os.path.join(REPO, f)).read())
        s = Sites()
        s.visit(tree)
        for qual, fn in s.out:
            ps = fm.get(f + ':' + qual)
            if not ps:
                uncovered.append(f + ':' + qual)
                continue
            rng = random.Random('%d%s%s' % (seed, f, qual))
            ms = muts(fn, rng)
            rng.shuffle(ms)
            ps = sorted(ps, key=lambda p: (size[p] * 0.2 + cost[p]))
            for m in ms[:max(1, min(per, len(ms) // 2 + 1))]:
                jobs.append((len(jobs), f, qual, m, ps))
    print('uncovered functions', uncovered)
    print(len(jobs), 'mutants')
    random.Random(seed).shuffle(jobs)
    if os.path.exists(out):      # go on where an earlier run stopped
        done = {(r['file'], r['func'], r['i'], r['kind'], r['arg']) for r in map(json.loads, open(out))}
        jobs = [j for j in jobs if (j[1], j[2], j[3][0], j[3][1], j[3][2]) not in done]
    n = {}
    with cf.ThreadPoolExecutor(int(os.environ.get('MUT_PAR', '4'))) as ex, open(out, 'a') as o:
        for r in (x.result() for x in cf.as_completed([ex.submit(run, j) for j in jobs])):
            n[r['res']] = n.get(r['res'], 0) + 1
            o.write(json.dumps(r) + '\n')
            o.flush()
    print(n)


if __name__ == '__main__':
    main()
