#!/usr/bin/env python3
"""Try a planted bug in a scratch copy of /repo.

    tools/plant.py new <spec.py>      make seeded/<id>/ from a specification, and try it
    tools/plant.py make <spec.py>     the same, with no trial
    tools/plant.py try <id> [...]     build, test, demo and check it

A specification is a Python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS
(list of (file, old, new)) and DEMO (the text of demo.py).
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1',
           SETUPTOOLS_SCM_PRETEND_VERSION='0.15.2', MPLBACKEND='Agg')

DEMO_SH = '''#!/bin/sh
# Run with cwd /repo: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg \\
    PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    t = os.path.join(d, 'repo')
    shutil.copytree('/repo', t, symlinks=True)
    return d, t


def new(spec):
    s = {}
    exec(open(spec).read(), s)
    out = os.path.join(V, 'seeded', s['ID'])
    d, t = scratch()
    try:
        for f, old, new_ in s['EDITS']:
            p = os.path.join(t, 'src/pydsm', f)
            x = open(p).read()
            if x.count(old) != 1:
                sys.exit('%s: %d matches of %r in %s'
                         % (s['ID'], x.count(old), old, f))
            open(p, 'w').write(x.replace(old, new_))
        diff = sh('git diff', t).stdout
    finally:
        shutil.rmtree(d)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    open(os.path.join(out, 'demo.py'), 'w').write(s['DEMO'].lstrip('\n'))
    p = os.path.join(out, 'demo.sh')
    open(p, 'w').write(DEMO_SH)
    os.chmod(p, 0o755)
    with open(os.path.join(out, 'meta.json'), 'w') as f:
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'],
                   'what_it_breaks': s['BREAKS']}, f, indent=1)
        f.write('\n')
    return s['ID']


def original_lines(t, diff):
    """Does the patch remove lines that the pinned commit has?"""
    f, ok = None, False
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        elif l.startswith('-') and f and l[1:].strip():
            base = sh(['git', 'show', '%s:%s' % (first(t), f)], t).stdout
            ok = ok or l[1:] in base.splitlines()
    return ok


def first(t):
    """The pinned commit: the parent of the first fix."""
    log = sh('git log --format="%H %s"', t).stdout.splitlines()
    for l in log:
        if not l.split(' ', 1)[1].startswith('fix:'):
            return l.split()[0]


def trial(bug, tier='quick'):
    b = os.path.join(V, 'seeded', bug)
    meta = json.load(open(os.path.join(b, 'meta.json')))
    diff = open(os.path.join(b, 'patch.diff')).read()
    d, t = scratch()
    res = {}
    try:
        demo = os.path.join(d, 'demo')
        shutil.copytree(b, demo)
        for x in ('patch.diff', 'meta.json'):
            os.remove(os.path.join(demo, x))
        res['original'] = original_lines(t, diff)
        r = sh(['sh', os.path.join(demo, 'demo.sh')], t)
        res['clean demo'] = r.returncode
        if r.returncode:
            print(r.stdout[-800:])
        r = sh(['git', 'apply', os.path.join(b, 'patch.diff')], t)
        if r.returncode:
            return {'apply': r.stdout}
        if re.search(r'^\+\+\+ .*\.(pyx|pxi|pxd)', diff, re.M):
            r = sh([PY, 'setup.py', '-q', 'build_ext', '--inplace', '-f'],
                   t, env=ENV)
            if r.returncode:
                return {'build': r.stdout[-800:]}
        env = dict(ENV, PYTHONPATH=os.path.join(t, 'src'))
        r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                '--doctest-modules', '--benchmark-disable', '-n', '4',
                '--continue-on-collection-errors', 'src'], t, env=env)
        res['tests'] = [l.split(' - ')[0] for l in r.stdout.splitlines()
                        if l.startswith(('FAILED', 'ERROR'))
                        and 'relab' not in l] or r.stdout.strip()[-60:]
        r = sh(['sh', os.path.join(demo, 'demo.sh')], t)
        res['bug demo'] = r.returncode, r.stdout.strip()[-150:]
        env = dict(ENV, PYDSM_REPO=t, VERIF_SEED='1')
        r = sh(['./check', meta['property'], '--tier', tier], V, env=env)
        res['check'] = r.returncode, [
            l[:160] for l in r.stdout.splitlines()
            if not l.startswith('VIOLATION')][:2]
    finally:
        shutil.rmtree(d)
    return res


def main():
    if sys.argv[1] == 'new':
        bugs = [new(x) for x in sys.argv[2:]]
    elif sys.argv[1] == 'make':
        return [new(x) for x in sys.argv[2:]]
    else:
        bugs = sys.argv[2:]
    for b in bugs:
        r = trial(b)
        good = (r.get('original') and r.get('clean demo') == 0 and
                isinstance(r.get('tests'), str) and r['bug demo'][0])
        print('%s %s %s' % (b, 'VALID' if good else 'INVALID',
                            'CAUGHT' if r.get('check', (0,))[0] == 1
                            else 'MISSED'))
        for k, v in r.items():
            print('   %s: %s' % (k, v))
        sys.stdout.flush()


if __name__ == '__main__':
    main()
