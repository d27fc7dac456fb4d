#!/opt/venv/bin/python
"""Development tool: small syntactic changes of curvepy, to see what the checks miss.

  mutate.py list  OUT.jsonl [FILE..]          enumerate the mutants of /repo/curvepy
  mutate.py tests IN.jsonl OUT.jsonl [-j N]   keep those the repository's tests do not notice
  mutate.py sim   IN.jsonl OUT.jsonl [-j N] [-r RUNS]   run the simulation against each

Works on copies under /tmp only; nothing here is used by the registered checks."""
import ast
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = '/repo'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['/'], ast.Mod: ['*'], ast.Pow: ['*']}
SWAP = {'start': 'end', 'end': 'start', 'start_open': 'end_open', 'end_open': 'start_open', 'floor': 'ceil', 'ceil': 'floor', 'min': 'max', 'max': 'min',
        'x_next': 'x_previous', 'x_previous': 'x_next', 'begin_update': 'end_update', 'end_update': 'begin_update', 'union': 'intersection', 'intersection': 'union',
        'closed': 'open', 'closed_open': 'closed', 'open_closed': 'closed', 'begin': 'end', 'enforce_start': 'enforce_end', 'enforce_end': 'enforce_start',
        'upper': 'lower', 'lower': 'upper', 'p1': 'p2', 'p2': 'p1', 'low': 'high', 'high': 'low'}


class M(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.lines = src.splitlines(keepends=True)
        self.offs = [0]
        for l in self.lines:
            self.offs.append(self.offs[-1] + len(l.encode()))
        self.b = src.encode()

    def pos(self, l, c):
        return self.offs[l - 1] + c

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def add(self, a, b, new, why):
        old = self.b[a:b].decode()
        if old != new:
            self.out.append(dict(a=a, b=b, old=old, new=new, why=why, line=self.b[:a].count(b'\n') + 1))

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def between(self, l, r, news, why):
        a, b = self.span(l)[1], self.span(r)[0]
        mid = self.b[a:b].decode()
        tok = mid.strip(' ()\n\\\t')
        if not tok or mid.count(tok) != 1:
            return
        for n in news:
            self.add(a, b, mid.replace(tok, n), why)

    def visit_Compare(self, n):
        l = n.left
        for op, r in zip(n.ops, n.comparators):
            self.between(l, r, CMP.get(type(op), []), 'cmp')
            l = r
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for x, y in zip(n.values, n.values[1:]):
            self.between(x, y, ['or' if isinstance(n.op, ast.And) else 'and'], 'bool')
        for v in n.values:
            a, b = self.span(v)
            self.add(a, b, 'True' if isinstance(n.op, ast.And) else 'False', 'operand')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        self.between(n.left, n.right, BIN.get(type(n.op), []), 'bin')
        if isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, (ast.Constant, ast.List)):
            a, b = self.span(n)
            self.add(a, b, '(' + self.text(n.left) + ')', 'drop operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        a, b = self.span(n)
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(a, b, '(' + self.text(n.operand) + ')', 'unary')
        self.generic_visit(n)

    def visit_Constant(self, n):
        a, b = self.span(n)
        v = n.value
        if v is True or v is False:
            self.add(a, b, str(not v), 'const')
        elif isinstance(v, (int, float)):
            self.add(a, b, repr(v + 1), 'const')
            if v:
                self.add(a, b, repr(v - 1), 'const')

    def visit_If(self, n):
        a, b = self.span(n.test)
        self.add(a, b, 'True', 'if')
        self.add(a, b, 'False', 'if')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        a, b = self.span(n)
        self.add(a, b, '(' + self.text(n.body) + ')', 'ifexp')
        self.add(a, b, '(' + self.text(n.orelse) + ')', 'ifexp')
        self.generic_visit(n)

    def stmt(self, n, why='drop statement'):
        a, b = self.span(n)
        self.add(a, b, 'pass', why)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.stmt(n)
        if not isinstance(n.value, ast.Constant):
            self.generic_visit(n)

    def visit_Assign(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_Delete(self, n):
        self.stmt(n)

    def visit_Raise(self, n):
        self.stmt(n)

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            a, b = self.span(n)
            self.add(a, b, 'return None', 'return')
            self.generic_visit(n)

    def visit_Break(self, n):
        self.stmt(n)

    def visit_Continue(self, n):
        self.stmt(n)

    def visit_Attribute(self, n):
        s = SWAP.get(n.attr)
        if s:
            a, b = self.span(n)
            self.add(b - len(n.attr), b, s, 'swap')
        self.generic_visit(n)

    def visit_Name(self, n):
        s = SWAP.get(n.id)
        if s:
            a, b = self.span(n)
            self.add(a, b, s, 'swap')

    def visit_Call(self, n):
        for k in n.keywords:
            if k.arg:
                a, b = self.pos(k.lineno, k.col_offset), self.pos(k.end_lineno, k.end_col_offset)
                e = b
                while self.b[e:e + 1] in (b' ', b'\n'):
                    e += 1
                if self.b[e:e + 1] == b',':
                    self.add(a, e + 1, '', 'drop kwarg')
                elif len(n.keywords) + len(n.args) == 1:
                    self.add(a, b, '', 'drop kwarg')
                else:
                    s = a
                    while self.b[s - 1:s] in (b' ', b'\n'):
                        s -= 1
                    if self.b[s - 1:s] == b',':
                        self.add(s - 1, b, '', 'drop kwarg')
                s = SWAP.get(k.arg)
                if s:
                    self.add(a, a + len(k.arg), s, 'swap kwarg')
        for x, y in zip(n.args, n.args[1:]):
            (a, b), (c, d) = self.span(x), self.span(y)
            self.add(a, d, self.text(y) + self.b[b:c].decode() + self.text(x), 'swap args')
        self.generic_visit(n)


def enumerate_(out, files):
    root = os.path.join(REPO, 'curvepy')
    n = 0
    with open(out, 'w') as f:
        for d, _, fs in os.walk(root):
            for name in sorted(fs):
                p = os.path.relpath(os.path.join(d, name), REPO)
                if not name.endswith('.py') or (files and p not in files):
                    continue
                src = open(os.path.join(REPO, p)).read()
                m = M(src)
                m.visit(ast.parse(src))
                seen = set()
                for r in m.out:
                    new = src.encode()[:r['a']] + r['new'].encode() + src.encode()[r['b']:]
                    if new in seen:
                        continue
                    seen.add(new)
                    try:
                        compile(new, p, 'exec')
                    except SyntaxError:
                        continue
                    r['file'] = p
                    r['id'] = f"{p.replace('curvepy/', '').replace('.py', '')}-{r['line']}-{n}"
                    n += 1
                    f.write(json.dumps(r) + '\n')
    print(n, 'mutants')


_dir = None


def copy():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='mut_')
        for q in ('curvepy', 'test'):
            shutil.copytree(os.path.join(REPO, q), os.path.join(_dir, q), ignore=shutil.ignore_patterns('__pycache__'))
        for q in os.listdir(REPO):
            if os.path.isfile(os.path.join(REPO, q)):
                shutil.copy(os.path.join(REPO, q), _dir)
    return _dir


class Mutated:
    def __init__(self, r):
        self.p = os.path.join(copy(), r['file'])
        self.r = r

    def __enter__(self):
        self.src = open(self.p, 'rb').read()
        r = self.r
        assert self.src[r['a']:r['b']].decode() == r['old'], r
        open(self.p, 'wb').write(self.src[:r['a']] + r['new'].encode() + self.src[r['b']:])
        return _dir

    def __exit__(self, *a):
        open(self.p, 'wb').write(self.src)


def tests(r, _):
    with Mutated(r) as d:
        env = dict(os.environ, PYTHONHASHSEED='0', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1')
        try:
            q = subprocess.run(['bash', '-c', f'ulimit -v 3000000; exec {PY} -m pytest -x -q -p no:cacheprovider -p pytest_timeout --timeout=20 test'], cwd=d, env=env, capture_output=True, timeout=60)
            ok = q.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
    return dict(r, tests=ok)


SIM = r'''
import sys, json, resource, traceback
sys.dont_write_bytecode = True
root, here, runs, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
props = sys.argv[5].split(',')
sys.path[:0] = [here, root]
resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
from sim import run1, world
run1.OP_SECONDS = 6
import curvepy
assert curvepy.__file__.startswith(root), curvepy.__file__
got = {}
for lo in range(0, runs, 50):
    for p in props:
        if p in got: continue
        for s in range(lo, lo + 50):
            try:
                r = run1.generate(p, seed + s)
            except Exception as e:
                print(json.dumps([p, s, 'error', traceback.format_exc()[-300:]])); sys.stdout.flush(); got[p] = 1
                break
            if r.fail:
                print(json.dumps([p, s, r.fail[0], r.fail[1][:200]])); sys.stdout.flush(); got[p] = 1
                if len(sys.argv) > 6: break
                sys.exit()
'''
ALL = ','.join('C%02d' % i for i in (2, 3, 5, 18, 14, 12, 20, 16, 15, 4, 6, 7, 8, 9, 10, 11, 13, 17, 19, 21, 1))


def sim(r, runs):
    with Mutated(r) as d:
        env = dict(os.environ, PYTHONHASHSEED='0', TZ='UTC', OPENBLAS_NUM_THREADS='1', CURVEPY_ROOT=d)
        try:
            q = subprocess.run([PY, '-c', SIM, d, HERE, str(runs), str(7_000_000), 'C21' if r['file'].endswith('trend.py') else ALL], cwd='/tmp', env=env, capture_output=True, timeout=1200)
            out = q.stdout.decode()
            err = q.stderr.decode()[-300:]
        except subprocess.TimeoutExpired as e:
            out, err = (e.stdout or b'').decode(), 'timeout'
    return dict(r, sim=[json.loads(l) for l in out.splitlines()], err=err)


def main():
    a = sys.argv[1:]
    if a[0] == 'list':
        return enumerate_(a[1], a[2:])
    j = int(a[a.index('-j') + 1]) if '-j' in a else 4
    runs = int(a[a.index('-r') + 1]) if '-r' in a else 300
    done = set()
    if os.path.exists(a[2]):
        done = {json.loads(l)['id'] for l in open(a[2])}
    todo = [json.loads(l) for l in open(a[1])]
    todo = [r for r in todo if r['id'] not in done and (a[0] == 'tests' or r.get('tests'))]
    f = {'tests': tests, 'sim': sim}[a[0]]
    with cf.ProcessPoolExecutor(j) as ex, open(a[2], 'a') as o:
        for q in cf.as_completed([ex.submit(f, r, runs) for r in todo]):
            o.write(json.dumps(q.result()) + '\n')
            o.flush()


if __name__ == '__main__':
    main()
