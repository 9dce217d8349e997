"""Build the current working tree of the repository out of tree.

The sources are copied to /verif/.build/<hash of the sources> (ignored by git)
and the Cython extensions are compiled there, so that the tree under test is
never written to and a stale extension can never be picked up.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYDSM_REPO', '/repo')
ROOT = os.path.join(VERIF, '.build')
SKIP_DIRS = {'__pycache__', '.git', 'build', '.pytest_cache'}
SKIP_EXT = ('.so', '.pyc', '.o')


def _files():
    out = []
    for top in ('setup.py', 'pyproject.toml', 'README.md', 'README-PyPI.md',
                'COPYING', 'MANIFEST.in', 'CHANGELOG.rst'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(top)
    for d, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS
                         and not x.endswith('.egg-info'))
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith(SKIP_EXT):
                continue
            if f.endswith('.c') and os.path.exists(
                    os.path.join(d, f[:-2] + '.pyx')):
                continue        # generated by Cython
            if f == '_version.py':
                continue        # generated by setuptools_scm
            out.append(rel)
    return out


def tree_hash(files):
    h = hashlib.sha256(sys.version.encode())
    for rel in files:
        h.update(rel.encode() + b'\0')
        with open(os.path.join(REPO, rel), 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def build():
    """Return the path to put first on sys.path; raise RuntimeError."""
    os.makedirs(ROOT, exist_ok=True)
    with open(os.path.join(ROOT, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        files = _files()
        dst = os.path.join(ROOT, tree_hash(files))
        if os.path.exists(os.path.join(dst, '.done')):
            os.utime(dst)
            return os.path.join(dst, 'src')
        # keep the cache small
        old = sorted((os.path.join(ROOT, x) for x in os.listdir(ROOT)
                      if x != 'lock'), key=os.path.getmtime)
        for x in old[:-3]:
            shutil.rmtree(x, ignore_errors=True)
        shutil.rmtree(dst, ignore_errors=True)
        for rel in files:
            p = os.path.join(dst, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, rel), p)
        env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='0.15.2',
                   PIP_NO_INDEX='1', PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run(
            [sys.executable, 'setup.py', '-q', 'build_ext', '--inplace',
             '-j2'], cwd=dst, env=env, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError('build failed:\n'
                               + r.stdout.decode(errors='replace')[-4000:])
        with open(os.path.join(dst, '.done'), 'w'):
            pass
        return os.path.join(dst, 'src')


if __name__ == '__main__':
    print(build())
