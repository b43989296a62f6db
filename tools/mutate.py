"""mutate.py OUT COUNT SEED [PATH...]: random small changes of the library,
and whether the checks notice them.

Each mutant is made in a scratch copy of /repo and shown to the checks of the
properties its file is about; the tests are run on what the checks do not
notice.  MISSED: neither notices; GAP: only the tests do.  OUT gets one JSON
line per mutant, OUT.d/ its patch.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

PY = '/opt/venv/bin/python'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RELATIONS = ['COMPONENT', 'COMPOSITE', 'COVER', 'CROSS', 'DISJOINT',
             'ENCLOSED', 'ENCLOSES', 'EQUAL', 'OVERLAP', 'TOUCH', 'WITHIN']
RELATED = [
    ('_clipping/shaped', 'C01 C04 C05'), ('_clipping/linear', 'C02 C04 C03'),
    ('_clipping/mixed', 'C03 C04'), ('_clipping', 'C01 C02 C03 C04 C05'),
    ('_relating', 'C06 C07'), ('_bentley', 'C09'), ('_seidel', 'C16'),
    ('_triangulation', 'C14 C15'),
    ('_geometries/base_box', 'C12 C09 C10'),
    ('_geometries', 'C01 C02 C03 C04 C06 C08 C09 C10 C11 C12 C13 C18 C19'),
    ('_exact', 'C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C01 C02 C03 C06'),
    ('', 'C01 C02 C03 C06 C08 C09 C10 C14 C15 C16 C17'),
]


def mutations(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    data = src.encode()

    def at(line, col):
        return starts[line - 1] + col

    def span(n):
        return at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    out = []

    def put(n, new, kind):
        a, b = span(n)
        out.append((a, b, new, kind, n.lineno))

    class W(ast.NodeVisitor):
        def visit_FunctionDef(self, f):
            for d in f.body:
                self.visit(d)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_AnnAssign(self, n):
            if n.value is not None:
                self.visit(n.value)

        def visit_Assert(self, n):
            pass

        def visit_Compare(self, n):
            self.generic_visit(n)
            ops = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='],
                   ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='],
                   ast.Eq: ['!='], ast.NotEq: ['=='],
                   ast.Is: ['is not'], ast.IsNot: ['is'],
                   ast.In: ['not in'], ast.NotIn: ['in']}
            parts = [n.left, *n.comparators]
            for i, op in enumerate(n.ops):
                for o in ops[type(op)]:
                    s = text(parts[0])
                    for j, c in enumerate(n.comparators):
                        s += ' ' + (o if j == i else SYM[type(n.ops[j])]) \
                            + ' ' + text(c)
                    put(n, '(' + s + ')', f'cmp {o}')
            if len(n.ops) > 1:
                put(n, f'({text(parts[0])} {SYM[type(n.ops[0])]} '
                       f'{text(parts[1])})', 'cmp drop')
                put(n, f'({text(parts[1])} {SYM[type(n.ops[1])]} '
                       f'{text(parts[2])})', 'cmp drop')

        def visit_BoolOp(self, n):
            self.generic_visit(n)
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            k = ' and ' if isinstance(n.op, ast.And) else ' or '
            put(n, '(' + o.join(f'({text(v)})' for v in n.values) + ')',
                'boolop swap')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                put(n, '(' + k.join(f'({text(v)})' for v in rest) + ')',
                    f'drop operand {i}')

        def visit_UnaryOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, (ast.Not, ast.USub)):
                put(n, text(n.operand), 'drop unary')

        def visit_If(self, n):
            self.generic_visit(n)
            put(n.test, '(False)', 'if False')
            put(n.test, '(True)', 'if True')

        def visit_IfExp(self, n):
            self.generic_visit(n)
            put(n, f'({text(n.body)})', 'ifexp body')
            put(n, f'({text(n.orelse)})', 'ifexp else')

        def visit_BinOp(self, n):
            self.generic_visit(n)
            ops = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+'}
            if type(n.op) in ops:
                put(n, f'({text(n.left)} {ops[type(n.op)]} '
                       f'{text(n.right)})', 'binop')

        def visit_Constant(self, n):
            if type(n.value) is int:
                put(n, str(n.value + 1), 'int+1')
                if n.value:
                    put(n, str(n.value - 1), 'int-1')
            elif type(n.value) is bool:
                put(n, str(not n.value), 'bool')

        def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Name) and n.value.id == 'Relation':
                for r in RELATIONS:
                    if r != n.attr:
                        put(n, f'Relation.{r}', 'relation')
            if isinstance(n.value, ast.Name) and n.value.id == 'Orientation':
                for r in ('CLOCKWISE', 'COUNTERCLOCKWISE', 'COLLINEAR'):
                    if r != n.attr:
                        put(n, f'Orientation.{r}', 'orientation')
            pairs = {'start': 'end', 'end': 'start', 'x': 'y', 'y': 'x',
                     'min_x': 'max_x', 'max_x': 'min_x', 'min_y': 'max_y',
                     'max_y': 'min_y', 'border': None}
            if isinstance(n.ctx, ast.Load) and pairs.get(n.attr):
                put(n, f'{text(n.value)}.{pairs[n.attr]}', 'attr swap')

        def visit_Call(self, n):
            self.generic_visit(n)
            a = n.args
            if len(a) >= 2 and not any(isinstance(x, ast.Starred) for x in a):
                i = random.randrange(len(a) - 1)
                b0, b1 = span(a[i])[0], span(a[i + 1])[1]
                out.append((b0, b1, f'{text(a[i + 1])}, {text(a[i])}',
                            'args swap', n.lineno))
            if isinstance(n.func, ast.Name) and n.func.id in (
                    'min', 'max', 'any', 'all'):
                put(n.func, {'min': 'max', 'max': 'min', 'any': 'all',
                             'all': 'any'}[n.func.id], 'minmax')

        def generic_stmt(self, n):
            self.generic_visit(n)
            put(n, 'pass', 'delete')

        visit_Expr = generic_stmt
        visit_AugAssign = generic_stmt
        visit_Continue = generic_stmt
        visit_Break = generic_stmt

        def visit_Assign(self, n):
            self.generic_visit(n)
            if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                put(n, 'pass', 'delete')

        def visit_ImportFrom(self, n):
            pass

    W().visit(ast.parse(src))
    return data, out


SYM = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==',
       ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in',
       ast.NotIn: 'not in'}


def sh(cmd, cwd, env, timeout):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return -1, str(e.stdout)[-500:]


def main():
    out, count, seed, *paths = [a for a in sys.argv[1:] if a[0] != '-']
    count = int(count)
    random.seed(seed)
    os.makedirs(out + '.d', exist_ok=True)
    w = f'/tmp/mut-{os.path.basename(out)}-{seed}'
    files = []
    for base, ds, fs in os.walk('/repo/rene'):
        files += [os.path.join(base, f) for f in fs if f.endswith('.py')
                  and f not in ('_rene.py', '__init__.py', '_hints.py')
                  or (f == '__init__.py' and base.endswith('_clipping'))]
    paths = paths or ['_clipping', '_relating', '_geometries', '_seidel',
                      '_triangulation', '_bentley', '_utils', '_exact',
                      '_context']
    pools = [[f for f in files if p in f] for p in paths]
    deselect = [a for t in FLAKY for a in ('--deselect', t)]
    for k in range(count):
        pool = [f for f in random.choice(pools) if '/hints' not in f]
        weights = [os.path.getsize(f) for f in pool]
        f = random.choices(pool, weights)[0]
        data, ms = mutations(f)
        if not ms:
            continue
        kinds = sorted({m[3].split()[0] for m in ms})
        kind = random.choice(kinds)
        a, b, new, kind, line = random.choice(
            [m for m in ms if m[3].split()[0] == kind])
        mutated = data[:a] + new.encode() + data[b:]
        try:
            compile(mutated, f, 'exec')
        except SyntaxError:
            continue
        if mutated == data:
            continue
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree('/repo', w, symlinks=True)
        rel = os.path.relpath(f, '/repo')
        open(os.path.join(w, rel), 'wb').write(mutated)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONHASHSEED='0', PYTHONPATH=f'{w}:/opt/vp/plugins',
                   HYPOTHESIS_STORAGE_DIRECTORY=w + '/.hyp')
        patch = subprocess.run(['git', 'diff'], cwd=w, capture_output=True,
                               text=True).stdout
        rec = {'seed': seed, 'k': k, 'file': rel, 'line': line, 'kind': kind}
        name = f'{seed}-{k}'
        caught = {}
        props = next(p for q, p in RELATED if q in rel).split()
        for p in props:
            env2 = dict(os.environ, RENE_REPO=w)
            rc, o = sh(['python3', V + '/harness/check.py', p], V, env2, 900)
            if rc != 0:
                caught[p] = [rc, [x[:100] for x in o.splitlines()
                                  if ' sessions)' in x][:1] or o[-300:]]
                if rc == 1:
                    break
        tests = None
        if not any(v[0] == 1 for v in caught.values()) \
                or '--tests' in sys.argv:
            tests, o = sh(
                [PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                 '-p', 'rene_offline_hypothesis', '--hypothesis-seed=0',
                 '-n', '8', '--timeout=120', '--session-timeout=720',
                 '--doctest-glob=README.md', *deselect, 'tests',
                 'README.md'], w, env, 900)
        rec.update(caught=caught, tests=tests, patch=name)
        open(f'{out}.d/{name}.diff', 'w').write(patch)
        verdict = ('CAUGHT' if any(v[0] == 1 for v in caught.values())
                   else 'MISSED' if tests == 0 else 'GAP')
        print(json.dumps(rec), verdict, flush=True)
        with open(out, 'a') as fo:
            fo.write(json.dumps(rec) + '\n')
    shutil.rmtree(w, ignore_errors=True)


FLAKY = ['tests/exact_tests/compounds_tests/test__xor__.py'
         '::test_associativity']
main()
