#!/usr/bin/env python3
"""Mutation sweep (development tool; no check uses it).

mutate.py gen FILE.. > list     all mutants of the given source files, as JSON lines
mutate.py tests LIST OUT        keeps those that pass the repository's tests
mutate.py checks LIST OUT N     runs the checks on each, N at a time, each in a mount namespace of its own whose /repo is a mutated copy
"""
import ast, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
BASE = os.environ.get('MUTATE_BASE', '/repo')
SWAP = [('successor', 'predecessor'), ('start', 'end'), ('leftlanes', 'rightlanes'), ('x', 'y'), ('sin', 'cos'), ('lane_offset_suc', 'lane_offset_pred'),
        ('curvstart', 'curvend'), ('solid', 'broken'), ('get_start_point', 'get_end_point'), ('x_start', 'x_end'), ('y_start', 'y_end'), ('h_start', 'h_end'),
        ('width', 'length'), ('length', 'space'), ('a', 'b'), ('c', 'd'), ('road', 'junction'), ('pitch', 'roll'), ('STD_ROADMARK_SOLID', 'STD_ROADMARK_BROKEN'),
        ('left', 'right'), ('s', 't'), ('au', 'av'), ('bu', 'bv'), ('cu', 'cv'), ('du', 'dv'), ('height', 'width'), ('toffset', 'soffset')]
PAIR = {}
for a, b in SWAP:
    PAIR.setdefault(a, b)
    PAIR.setdefault(b, a)


class Gen(object):
    def __init__(self, name, src):
        self.name, self.src = name, src
        self.lines = src.split('\n')
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l) + 1)
        self.out = []

    def span(self, n):
        def p(line, col):
            return self.off[line - 1] + len(self.lines[line - 1].encode()[:col].decode())
        return p(n.lineno, n.col_offset), p(n.end_lineno, n.end_col_offset)

    def rep(self, n, new, what):
        a, b = self.span(n)
        if self.src[a:b] != new:
            self.out.append({'file': self.name, 'line': n.lineno, 'a': a, 'b': b, 'new': new, 'what': '%s: %s -> %s' % (what, self.src[a:b][:70], new[:70])})

    def text(self, n):
        a, b = self.span(n)
        return self.src[a:b]

    def visit(self, n, fun=''):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            body = n.body[1:] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
            for d in getattr(n, 'args', None) and n.args.defaults or []:
                self.visit(d)
            for c in body:
                self.visit(c)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') == 'print':
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            self.rep(n, 'pass', 'delete')
        if isinstance(n, ast.Return) and n.value is not None:
            self.rep(n, 'return None', 'return')
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            self.rep(n.test, 'True', 'cond')
            self.rep(n.test, 'False', 'cond')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            for o in {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Is: ['is not', '=='],
                      ast.IsNot: ['is', '!='], ast.In: ['not in']}.get(type(n.ops[0]), []):
                self.rep(n, '(%s %s %s)' % (l, o, r), 'compare')
            if r == 'None' and isinstance(n.ops[0], (ast.IsNot, ast.NotEq)):
                self.rep(n, '(%s)' % l, 'truth')
            if r == 'None' and isinstance(n.ops[0], (ast.Is, ast.Eq)):
                self.rep(n, '(not %s)' % l, 'truth')
        if isinstance(n, ast.BinOp):
            l, r = self.text(n.left), self.text(n.right)
            o = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*'}.get(type(n.op))
            if o and not isinstance(n.left, ast.Constant) or o and not isinstance(getattr(n.left, 'value', 0), str):
                if not (isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
                    self.rep(n, '(%s %s %s)' % (l, o, r), 'arith')
                    self.rep(n, '(%s)' % l, 'arith')
                    self.rep(n, '(%s)' % r, 'arith')
        if isinstance(n, ast.UnaryOp):
            self.rep(n, '(%s)' % self.text(n.operand), 'unary')
        if isinstance(n, ast.BoolOp):
            vs = [self.text(v) for v in n.values]
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            self.rep(n, '(%s)' % o.join(vs), 'bool')
            if len(vs) > 1:
                for k in range(len(vs)):
                    self.rep(n, '(%s)' % (' and ' if isinstance(n.op, ast.And) else ' or ').join(vs[:k] + vs[k + 1:]), 'bool')
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                self.rep(n, str(not v), 'const')
            elif isinstance(v, (int, float)):
                self.rep(n, repr(v + 1), 'const')
                if v not in (0, 1):
                    self.rep(n, repr(v * 1.001 if isinstance(v, float) else v - 1), 'const')
            elif v is None:
                self.rep(n, '0', 'const')
            elif isinstance(v, str) and v in PAIR:
                self.rep(n, repr(PAIR[v]), 'const')
            return
        if isinstance(n, ast.Attribute) and n.attr in PAIR:
            a, b = self.span(n)
            self.rep(n, self.text(n.value) + '.' + PAIR[n.attr], 'attr')
        if isinstance(n, ast.Name) and n.id in PAIR and isinstance(n.ctx, ast.Load):
            self.rep(n, PAIR[n.id], 'name')
        if isinstance(n, ast.Call):
            if getattr(n.func, 'id', '') in ('abs', 'str', 'list', 'sorted') and len(n.args) == 1 and not n.keywords:
                self.rep(n, '(%s)' % self.text(n.args[0]), 'call')
            for k in n.keywords:
                if k.arg:
                    parts = [self.text(a) for a in n.args] + ['%s=%s' % (q.arg, self.text(q.value)) for q in n.keywords if q is not k and q.arg]
                    self.rep(n, '%s(%s)' % (self.text(n.func), ','.join(parts)), 'kw')
            if len(n.args) > 1:
                for k in range(len(n.args) - 1):
                    p = [self.text(a) for a in n.args]
                    p[k], p[k + 1] = p[k + 1], p[k]
                    self.rep(n, '%s(%s)' % (self.text(n.func), ','.join(p + ['%s=%s' % (q.arg, self.text(q.value)) for q in n.keywords if q.arg])), 'args')
        for c in ast.iter_child_nodes(n):
            self.visit(c)


def read(f):
    return open(BASE + '/pyodrx/' + f, encoding='utf-8', newline='').read()


def gen(files):
    for f in files:
        src = read(f)
        g = Gen(f, src)
        tree = ast.parse(src)
        for c in tree.body:
            g.visit(c)
        for m in g.out:
            s = src[:m['a']] + m['new'] + src[m['b']:]
            try:
                ast.parse(s)
            except SyntaxError:
                continue
            print(json.dumps(m))


def place(m, d):
    shutil.copytree(BASE, d, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs'))
    src = read(m['file'])
    open(d + '/pyodrx/' + m['file'], 'w', encoding='utf-8', newline='').write(src[:m['a']] + m['new'] + src[m['b']:])


def tests(lst, out):
    ms = [json.loads(l) for l in open(lst)]

    def one(k):
        d = '/tmp/mt/t%d' % k
        try:
            place(ms[k], d)
            p = subprocess.run(['timeout', '60', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1'))
            return p.returncode == 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(ms))))
    with open(out, 'w') as f:
        for m, r in zip(ms, res):
            if r:
                f.write(json.dumps(m) + '\n')
    print(len(ms), sum(res))


ORDER = {'geometry.py': 'C04 C01 C02 C03 C05 C14 C22 C28 C24 C15 C07 C16',
         'opendrive.py': 'C07 C21 C05 C11 C22 C18 C06 C26 C28 C15 C19 C25 C10 C17 C16',
         'links.py': 'C09 C10 C13 C12 C21 C22 C28 C06 C26 C27 C16',
         'lane.py': 'C20 C08 C27 C10 C22 C28 C25 C16 C26',
         'signals_objects.py': 'C19 C17 C18 C28 C16 C25',
         'generators.py': 'C24 C14 C12 C25 C22 C28',
         'helpers.py': 'C15 C29 C23 C28', 'enumerations.py': 'C23'}


def checks(lst, out, n):
    # /tmp/mt/verif: a snapshot of /verif, so that work on it can go on
    ms = [json.loads(l) for l in open(lst)]
    done = set()
    if os.path.exists(out):
        done = set((m['a'], m['b'], m['new']) for m in map(json.loads, open(out)))
    recent = []  # the checks that caught the mutants before, last first

    def one(k):
        m = ms[k]
        if (m['a'], m['b'], m['new']) in done:
            return
        d = '/tmp/mt/c%d' % k
        res = {}
        try:
            place(m, d)
            os.makedirs('/tmp/mt/v%d/out' % k)
            os.makedirs('/tmp/mt/v%d/evidence' % k)
            props = ORDER[m['file']].split()
            props.sort(key=lambda p: recent.index(p) if p in recent else 99)
            for p in props:
                cmd = 'mount --bind %s /repo; mount --bind /tmp/mt/verif /verif; mount --bind /tmp/mt/v%d/out /verif/out; mount --bind /tmp/mt/v%d/evidence /verif/evidence; timeout 600 bash /verif/run.sh %s quick' % (d, k, k, p)
                x = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
                res[p] = x.returncode
                if x.returncode == 1:
                    recent[:] = [p] + [q for q in recent if q != p]
                    res['msg'] = x.stdout.strip().split('\n')[0][:160]
                    break
        finally:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree('/tmp/mt/v%d' % k, ignore_errors=True)
        m['res'] = res
        with open(out, 'a') as f:
            f.write(json.dumps(m) + '\n')
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, range(len(ms))))


if __name__ == '__main__':
    {'gen': lambda: gen(sys.argv[2:]), 'tests': lambda: tests(*sys.argv[2:4]), 'checks': lambda: checks(sys.argv[2], sys.argv[3], int(sys.argv[4]))}[sys.argv[1]]()
