"""author a planted bug: edit a scratch copy of /repo, check that it builds, passes the stable tests and that the demonstration tells it apart"""
import json
import os
import shutil
import subprocess
import sys

REPO, OUT = '/repo', '/verif/seeded'
SCRATCH = '/tmp/seedwork'


def run(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def demo(d, cwd):
    return run('bash %s/demo.sh' % d, cwd, 300)


def changed_own(diff):
    """removed lines that do not stem from the original repository"""
    out, f, ln = [], None, 0
    for l in diff.split('\n'):
        if l.startswith('--- '):
            f = l[6:]
        elif l.startswith('@@'):
            ln = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-'):
            b = run('git blame -L %d,%d -- %s' % (ln, ln, f), REPO).stdout
            if not b.startswith('^'):
                out.append(b.strip())
            ln += 1
        elif l.startswith(' '):
            ln += 1
    return out


def mk(id, prop, edits, needs, breaks, code, keep=True):
    if os.path.exists(SCRATCH):
        shutil.rmtree(SCRATCH)
    shutil.copytree(REPO, SCRATCH, symlinks=True)
    for f, old, new in edits:
        p = os.path.join(SCRATCH, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit('%s: %d occurrences in %s of\n%s' % (id, s.count(old), f, old))
        open(p, 'w').write(s.replace(old, new))
    diff = run('git diff', SCRATCH).stdout
    d = os.path.join('/tmp', 'seed_' + id)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(code.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: behaves as the property says\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    a, b = demo(d, REPO), demo(d, SCRATCH)
    # the stable tests, pure Python, against the scratch tree
    t = run('PYTHONPATH=%s:/opt/vp/plugins PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_seed -p vp_pure test/unittests/test_ltv.py test/unittests/test_nlg.py' % SCRATCH, SCRATCH)
    own = changed_own(diff)
    if own:
        print(id, 'changes lines of our own commits:', own)
    ok = not own and a.returncode == 0 and b.returncode != 0 and t.returncode == 0
    print(id, prop, 'OK' if ok else 'BAD', 'demo', a.returncode, b.returncode, 'tests', t.returncode)
    if not ok:
        print('--- unchanged', a.stdout[-500:], a.stderr[-800:], '--- changed', b.stdout[-500:], b.stderr[-800:], '--- tests', t.stdout[-800:])
    elif keep:
        o = os.path.join(OUT, id)
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        for n in ('demo.py', 'demo.sh'):
            shutil.copy(d + '/' + n, o + '/' + n)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(SCRATCH)
    shutil.rmtree(d)
    return ok
