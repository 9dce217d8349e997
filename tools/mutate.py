#!/usr/bin/env python3
"""Mutation sweep: how many small changes of the code do the checks notice?

    tools/mutate.py OUT.jsonl [--files REGEX] [--max N] [--workers K]

Works on copies of this directory and of the built sources in a scratch
directory, never on /repo.  For each mutant the checks anchored at the file
run until the first violation; the survivors then face the repository's tests.
"""
import argparse
import ast
import collections
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
EXTRA = [(r'cvxpy_tdr/', ['C24']), (r'minmax/', ['C12', 'C15', 'C16']),
         (r'weighting/', ['C10', 'C11', 'C13', 'C15', 'C16']),
         (r'legacy/', ['C13', 'C16']), (r'NTFdesign/__init__', ['C16']),
         (r'delsig/__init__', ['C16', 'C20'])]
# the general and expensive ones last
ORDER = {'C26': 0, 'C23': 0, 'C20': 0, 'C16': 7, 'C25': 8, 'C15': 9,
         'C05': 6}
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'],
       ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'],
       ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.Pow: '*', ast.Mod: '//', ast.FloorDiv: '%'}


def mutants(src):
    """Yield (position, end, replacement, description)."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1]+len(l.encode()))
    b = src.encode()

    def pos(n):
        return (offs[n.lineno-1]+n.col_offset,
                offs[n.end_lineno-1]+n.end_col_offset)

    def seg(n):
        i, j = pos(n)
        return b[i:j].decode()
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)):
            if n.body and isinstance(n.body[0], ast.Expr) and \
                    isinstance(n.body[0].value, ast.Constant):
                doc.add(n.body[0])
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                doc.add(m)
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            i, j = pos(n.left)[1], pos(n.comparators[0])[0]
            t = b[i:j].decode()
            for new in CMP[type(n.ops[0])]:
                k = {'<=': '<', '<': '<=', '>=': '>', '>': '>=', '!=': '==',
                     '==': '!=', 'not in': 'in', 'in': 'not in',
                     'is not': 'is', 'is': 'is not'}[new]
                yield i, j, t.replace(k, new, 1), 'cmp'
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                continue
            i, j = pos(n.left)[1], pos(n.right)[0]
            t = b[i:j].decode()
            k = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
                 ast.Pow: '**', ast.Mod: '%', ast.FloorDiv: '//'}[type(n.op)]
            yield i, j, t.replace(k, BIN[type(n.op)], 1), 'bin'
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.USub, ast.Not)):
            i, j = pos(n)
            yield i, j, '(%s)' % seg(n.operand), 'unary'
        elif isinstance(n, ast.BoolOp):
            i, j = pos(n.values[0])[1], pos(n.values[1])[0]
            t = b[i:j].decode()
            a = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            yield i, j, t.replace(a[0], a[1], 1), 'bool'
        elif isinstance(n, ast.Constant):
            i, j = pos(n)
            if n.value is True or n.value is False:
                yield i, j, str(not n.value), 'const'
            elif isinstance(n.value, int):
                yield i, j, '(%d)' % (n.value+1), 'const'
                if n.value > 0:
                    yield i, j, '(%d)' % (n.value-1), 'const'
            elif isinstance(n.value, float):
                yield i, j, '(%r)' % (n.value*1.02 or .01), 'const'
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            i, j = pos(n.test)
            yield i, j, '(True)', 'iftrue'
            if not isinstance(n, ast.While):
                yield i, j, '(False)', 'iffalse'
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            i, j = pos(n)
            yield i, j, 'pass', 'dropcall'
        elif isinstance(n, ast.AugAssign) or (
                isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], (ast.Subscript, ast.Attribute))):
            i, j = pos(n)
            yield i, j, 'pass', 'dropassign'
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and not n.args and \
                    not n.keywords:
                i, j = pos(n)
                yield i, j, seg(f.value), 'dropmethod'
            elif isinstance(f, (ast.Attribute, ast.Name)) and \
                    len(n.args) == 1 and not n.keywords and \
                    not isinstance(n.args[0], ast.Starred):
                i, j = pos(n)
                yield i, j, '(%s)' % seg(n.args[0]), 'unwrap'
            if n.keywords:
                for k in n.keywords:
                    if k.arg is None:
                        continue
                    i, j = pos(k)
                    m = re.match(rb'\s*,', b[j:])
                    if m:
                        yield i, j+m.end(), '', 'dropkw'
                    else:
                        m = re.search(rb',\s*$', b[:i])
                        if m:
                            yield m.start(), j, '', 'dropkw'
            if len(n.args) == 2 and not any(
                    isinstance(a, ast.Starred) for a in n.args):
                i, j = pos(n.args[0])[0], pos(n.args[1])[1]
                yield i, j, '%s, %s' % (seg(n.args[1]), seg(n.args[0])), \
                    'swapargs'
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            tw = {'max': 'min', 'min': 'max', 'any': 'all', 'all': 'any'}
            if n.id in tw:
                i, j = pos(n)
                yield i, j, tw[n.id], 'name'
        if isinstance(n, ast.Attribute):
            tw = {'max': 'min', 'min': 'max', 'any': 'all', 'all': 'any',
                  'real': 'imag', 'zeros': 'ones', 'ones': 'zeros',
                  'sin': 'cos', 'cos': 'sin', 'hstack': 'vstack',
                  'vstack': 'hstack', 'tril': 'triu', 'triu': 'tril',
                  'rows': 'cols', 'cols': 'rows', 'floor': 'ceil',
                  'ceil': 'floor', 'log': 'log10', 'log10': 'log',
                  'update': 'copy', 'extend': 'append',
                  'zeros_like': 'ones_like', 'ones_like': 'zeros_like',
                  'T': 'real', 'left': 'right', 'right': 'left'}
            if n.attr in tw:
                i, j = pos(n)
                yield i, j, seg(n.value)+'.'+tw[n.attr], 'attr'


def file_map():
    m = collections.defaultdict(list)
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)
        for f in p['anchors']['files']:
            m[f].append(p['id'])
    return m


class Worker(threading.Thread):
    def __init__(self, k, root, base, queue, lock, out, jobs):
        super().__init__(daemon=True)
        self.t = os.path.join(root, 'w%d' % k)
        shutil.copytree(base, os.path.join(self.t, 'repo'))
        shutil.copytree(V, os.path.join(self.t, 'verif'),
                        ignore=shutil.ignore_patterns(
                            '.build', '.git', 'replays', 'seeded'))
        self.q, self.lock, self.out, self.jobs = queue, lock, out, jobs

    def sh(self, cmd, cwd, timeout):
        p = subprocess.Popen(
            cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            text=True, start_new_session=True, env=dict(
                os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
                OMP_NUM_THREADS='1', PYDSM_FAILFAST='1'))
        try:
            o = p.communicate(timeout=timeout)[0]
            return p.returncode, o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            return 99, 'timeout'

    def one(self, f, i, j, new, kind, props):
        p = os.path.join(self.t, 'repo', f)
        orig = open(p, 'rb').read()
        mut = orig[:i]+new.encode()+orig[j:]
        res = {'file': f, 'line': orig[:i].count(b'\n')+1, 'kind': kind,
               'old': orig[i:j].decode(), 'new': new,
               'context': orig.split(b'\n')[orig[:i].count(b'\n')].decode()}
        try:
            compile(mut, f, 'exec')
        except SyntaxError:
            return None
        open(p, 'wb').write(mut)
        try:
            for c in props:
                drv = ('import mc.build as b; b.build=lambda: %r\n'
                       'import sys; sys.argv=["check", %r, "--jobs", "%d"]\n'
                       'import mc.runner as r; sys.exit(r.main())'
                       % (os.path.join(self.t, 'repo/src'), c, self.jobs))
                rc, o = self.sh([PY, '-c', drv],
                                os.path.join(self.t, 'verif'), 900)
                if rc == 1 and 'VIOLATION' in o:
                    res.update(result='killed', by=c)
                    return res
                if rc:
                    res.update(result='noanswer', by=c, rc=rc, out=o[-600:])
                    return res
            rc, o = self.sh(
                [PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                 '--deselect', 'src/pydsm/relab.py', 'src/pydsm'],
                os.path.join(self.t, 'repo'), 300)
            res.update(result='survived' if rc == 0 else 'tests', rc=rc)
            if rc:
                res['out'] = o[-300:]
            return res
        finally:
            open(p, 'wb').write(orig)

    def run(self):
        while True:
            with self.lock:
                if not self.q:
                    return
                job = self.q.pop(0)
            r = self.one(*job)
            if r:
                with self.lock:
                    self.out.write(json.dumps(r)+'\n')
                    self.out.flush()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default='.')
    ap.add_argument('--max', type=int, default=30)
    ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--skip', default='')
    a = ap.parse_args()
    base = os.path.dirname(subprocess.check_output(
        [PY, '-m', 'mc.build'], cwd=V, text=True).strip())
    m = file_map()
    files = subprocess.check_output(
        "git ls-files src | grep -E '[.]py$' | "
        "grep -v -E 'tests|bench|conftest|_pytest'",
        cwd='/repo', shell=True, text=True).split()
    q = []
    for f in files:
        if not re.search(a.files, f):
            continue
        props = list(m.get(f, []))
        for r, x in EXTRA:
            if re.search(r, f):
                props += [c for c in x if c not in props]
        if not props:
            continue
        props.sort(key=lambda c: ORDER.get(c, 5))
        if a.skip:
            props = [c for c in props if not re.match(a.skip, c)]
        src = open(os.path.join(base, f)).read()
        ms = sorted(set(mutants(src)))
        random.Random('%s%d' % (f, a.seed)).shuffle(ms)
        q += [(f,)+x+(props,) for x in ms[:a.max]]
    print(len(q), 'mutants', flush=True)
    root = tempfile.mkdtemp(prefix='mutate-', dir='/tmp')
    lock = threading.Lock()
    try:
        with open(a.out, 'a') as out:
            ws = [Worker(k, root, base, q, lock, out, a.jobs)
                  for k in range(a.workers)]
            for w in ws:
                w.start()
            for w in ws:
                w.join()
    finally:
        shutil.rmtree(root)


if __name__ == '__main__':
    main()
