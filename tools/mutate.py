#!/usr/bin/env python3
"""development aid: mutate one source file, keep the mutants that pass the
existing tests, report which checks notice them.

  mutate.py <file relative to /repo> <comma separated checks> [func-regex]

OPS=subtle selects mutations that need specific values to show;
OPS=interplay makes what is done with a member depend on another one.
SAMPLE=n[:seed] tries n mutants picked at random, N=workers.
"""
import ast
import copy
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

SRC = '/repo'
WORK = '/tmp/mut%d' % os.getpid()
N = int(os.environ.get("N", "8"))


def mutants(tree, rx):
    """yield (description, tree)"""
    class Find(ast.NodeVisitor):
        def __init__(self):
            self.sites = []
            self.stack = []
            self.members = [{}]

        def visit(self, n):
            named = isinstance(n, (ast.FunctionDef, ast.ClassDef))
            if named:
                self.stack.append(n.name)
                self.members.append(members(n) if isinstance(
                    n, ast.FunctionDef) else {})
            n._m = self.members[-1]
            n._q = '.'.join(self.stack) or '<module>'
            self.sites.append(n)
            self.generic_visit(n)
            if named:
                self.stack.pop()
                self.members.pop()
    f = Find()
    f.visit(tree)
    for i, n in enumerate(f.sites):
        if rx and not re.search(rx, n._q):
            continue
        n._id = i
        for k, desc in MODES[os.environ.get('OPS', '')](n):
            t = copy.deepcopy(tree)
            for m in ast.walk(t):
                if getattr(m, '_id', None) == i:
                    apply(m, k)
                    break
            if k[0] == 'or':
                class W(ast.NodeTransformer):
                    def visit_BoolOp(self, m):
                        self.generic_visit(m)
                        return ex('(E)[0]', E=m) if getattr(
                            m, '_wrap0', False) else m
                t = W().visit(t)
            ast.fix_missing_locations(t)
            yield '%s:%s %s' % (n._q, getattr(n, 'lineno', '?'), desc), t
        del n._id


FLIP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
        ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def isdoc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def islog(s):
    return isinstance(s, ast.Expr) and 'logger' in ast.dump(s)


def ops(n):
    out = []
    for fld in ('body', 'orelse', 'finalbody'):
        b = getattr(n, fld, None)
        if isinstance(b, list):
            for j, s in enumerate(b):
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import,
                                  ast.ImportFrom, ast.Pass)) or isdoc(s) or \
                        islog(s):
                    continue
                out.append((('del', fld, j), 'delete ' + ast.unparse(
                    s).split('\n')[0][:70]))
    if isinstance(n, (ast.If, ast.While, ast.IfExp)):
        out.append((('neg', ), 'negate ' + ast.unparse(n.test)[:60]))
        out.append((('true', ), 'always ' + ast.unparse(n.test)[:60]))
    if isinstance(n, ast.Compare) and type(n.ops[0]) in FLIP:
        out.append((('cmp', ), 'flip ' + ast.unparse(n)[:60]))
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            out.append((('const', not n.value), 'bool %r' % n.value))
        elif isinstance(n.value, int):
            out.append((('const', n.value + 1), 'int %r' % n.value))
        elif isinstance(n.value, str) and n.value and len(n.value) < 40:
            out.append((('const', n.value + 'X'), 'str %r' % n.value))
    if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and not isinstance(
            getattr(n, 'ctx', ast.Load()), ast.Store):
        for j in range(len(n.elts)):
            out.append((('elt', j), 'drop %s' % ast.unparse(n.elts[j])[:40]))
    if isinstance(n, ast.Dict):
        for j in range(len(n.keys)):
            out.append((('key', j), 'drop key %s' % (
                ast.unparse(n.keys[j])[:40] if n.keys[j] else '**')))
    if isinstance(n, ast.BoolOp):
        out.append((('bool', ), 'and<->or ' + ast.unparse(n)[:60]))
        for j in range(len(n.values)):
            out.append((('term', j), 'drop term %s' % ast.unparse(
                n.values[j])[:60]))
    if isinstance(n, ast.Call):
        for j in range(len(n.args)):
            if len(n.args) > 1:
                out.append((('arg', j), 'None for %s in %s' % (
                    ast.unparse(n.args[j])[:30], ast.unparse(n.func)[:30])))
        for j in range(len(n.keywords)):
            out.append((('kw', j), 'drop kw %s of %s' % (
                n.keywords[j].arg, ast.unparse(n.func)[:30])))
    if isinstance(n, ast.Return) and n.value is not None:
        out.append((('ret', ), 'return None for ' + ast.unparse(n.value)[:50]))
    return out


def ex(s, **kw):
    class S(ast.NodeTransformer):
        def visit_Name(self, m):
            return copy.deepcopy(kw[m.id]) if m.id in kw else m
    return S().visit(ast.parse(s, mode='eval').body)


def simple(e):
    return isinstance(e, (ast.Name, ast.Attribute, ast.Subscript, ast.Call,
                          ast.BinOp)) and not (
        isinstance(e, ast.Name) and e.id in ('self', 'cls', 'super', 'None'))


def subtle(n):
    out = []
    low = isinstance(getattr(n, 'ctx', None), ast.Load)
    if isinstance(n, (ast.For, ast.comprehension)):
        it = ast.unparse(n.iter)[:50]
        for s in ('list(E)[:2]', 'list(E)[-2:]', 'sorted(E, key=str)',
                  'reversed(list(E))'):
            out.append((('iter', s), '%s for %s' % (s, it)))
        t = n.target
        conds = []
        if isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(
                t.elts[0], ast.Name):
            conds += [('isinstance(A, str) and A.startswith("x-")', t.elts[0]),
                      ('isinstance(A, str) and "/" in A', t.elts[0]),
                      ('A == ""', t.elts[0])]
            if isinstance(t.elts[1], ast.Name):
                conds.append(('not A', t.elts[1]))
        elif isinstance(t, ast.Name):
            conds += [('not A', t), ('isinstance(A, str) and "/" in A', t)]
        for c, a in conds:
            out.append((('skip', c, a.id), 'skip if %s in loop over %s' % (
                c.replace('A', a.id), it)))
    if isinstance(n, (ast.If, ast.IfExp, ast.While)):
        t = n.test
        if isinstance(t, ast.Compare) and isinstance(
                t.ops[0], (ast.Is, ast.IsNot)) and isinstance(
                t.comparators[0], ast.Constant):
            out.append((('test', 'E' if isinstance(t.ops[0], ast.IsNot) else
                         'not E', t.left), 'truth for ' + ast.unparse(t)[:50]))
        elif simple(t):
            out.append((('test', 'E is not None', t),
                        'is not None for ' + ast.unparse(t)[:50]))
        elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            out.append((('test', 'E is None', t.operand),
                        'is None for ' + ast.unparse(t)[:50]))
    if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and len(
            n.values) == 2:
        out.append((('or', ), 'is-None default for ' + ast.unparse(n)[:60]))
    if isinstance(n, ast.Call):
        f = ast.unparse(n.func)
        if f in ('copy.deepcopy', 'copy.copy', 'deepcopy', 'dict', 'list') \
                and len(n.args) == 1 and not n.keywords:
            out.append((('same', ), 'no copy of ' + ast.unparse(n)[:50]))
        for j, a in enumerate(n.args):
            if simple(a) and 'log' not in f:
                for s in STR:
                    out.append((('warg', j, s), '%s for %s in %s' % (
                        s, ast.unparse(a)[:30], f[:30])))
    if isinstance(n, (ast.Return, ast.Assign)) and n.value is not None and \
            simple(n.value):
        for s in STR:
            out.append((('wval', s), '%s for %s' % (
                s, ast.unparse(n)[:50].split('\n')[0])))
    if isinstance(n, ast.Subscript) and simple(n.slice):
        for s in STR:
            out.append((('wsub', s), '%s for key of %s' % (
                s, ast.unparse(n)[:50])))
    if isinstance(n, ast.Compare) and isinstance(
            n.ops[0], (ast.Eq, ast.NotEq)) and simple(n.left) and simple(
            n.comparators[0]):
        out.append((('cmpstr', 'str(A).lower()'), 'caseless ' +
                    ast.unparse(n)[:50]))
        out.append((('cmpstr', 'str(A).split("#")[0]'), 'no # ' +
                    ast.unparse(n)[:50]))
    return out


def members(fn):
    '''name -> members read of it in this function (never called)'''
    called = {id(c.func) for c in ast.walk(fn) if isinstance(c, ast.Call)}
    out = {}
    for m in ast.walk(fn):
        if isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name) \
                and id(m) not in called and isinstance(m.ctx, ast.Load):
            out.setdefault(m.value.id, set()).add(m.attr)
    return out


def interplay(n):
    '''what is done with one member depends on another one'''
    out = []
    if isinstance(n, (ast.If, ast.IfExp)):
        t, k = n.test, 'guard'
    elif isinstance(n, (ast.Assign, ast.Expr)) and not isdoc(n) and not \
            islog(n):
        t, k = n, 'only'
    else:
        return out
    used = {}
    for m in ast.walk(t):
        if isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name):
            used.setdefault(m.value.id, set()).add(m.attr)
    for v, mine in used.items():
        if v in ('copy', 'six', 'os', 'consts', 'utils', 'logger'):
            continue
        for o in sorted(n._m.get(v, set()) - mine):
            if o.startswith('__'):
                continue
            if k == 'only' and any(isinstance(m, ast.Attribute) and isinstance(
                    m.ctx, ast.Store) and m.attr == o for m in ast.walk(t)):
                continue
            for neg in ('', 'not '):
                if neg and k == 'only':
                    continue
                out.append(((k, '%sgetattr(%s, %r, None)' % (neg, v, o)),
                            '%s %s%s.%s for %s' % (
                                k, neg, v, o, ast.unparse(t)[:60])))
    return out


STR = ('lower()', "rstrip('/')", "replace(' ', '')", "split('?')[0]")
WRAP = '(lambda z_: z_.%s if isinstance(z_, str) else z_)(E)'


MODES = {'': ops, 'subtle': subtle, 'interplay': interplay}


def apply(n, k):
    if k[0] == 'guard':
        n.test = ast.BoolOp(ast.And(), [n.test, ex(k[1])])
        return
    if k[0] == 'only':
        old = copy.copy(n)
        new = ast.If(ex('not ' + k[1]), [old], [])
        n.__class__ = ast.If
        n.__dict__.clear()
        n.__dict__.update(new.__dict__)
        return
    if k[0] == 'iter':
        n.iter = ex(k[1], E=n.iter)
    elif k[0] == 'skip':
        c = ex(k[1], A=ast.Name(k[2], ast.Load()))
        if isinstance(n, ast.For):
            n.body.insert(0, ast.If(c, [ast.Continue()], []))
        else:
            n.ifs.append(ast.UnaryOp(ast.Not(), c))
    elif k[0] == 'test':
        n.test = ex(k[1], E=k[2])
    elif k[0] == 'or':
        n.values[0] = ast.copy_location(n.values[0], n)
        a, b = n.values
        n.op = ast.Or()
        n.values = [ex('(lambda z_: [z_] if z_ is not None else [])(E)', E=a),
                    ex('[E]', E=b)]
        n._wrap0 = True
    elif k[0] == 'same':
        n.func = ex('(lambda z_: z_)')
    elif k[0] == 'warg':
        n.args[k[1]] = ex(WRAP % k[2], E=n.args[k[1]])
    elif k[0] == 'wval':
        n.value = ex(WRAP % k[1], E=n.value)
    elif k[0] == 'wsub':
        n.slice = ex(WRAP % k[1], E=n.slice)
    elif k[0] == 'cmpstr':
        n.left = ex(k[1], A=n.left)
        n.comparators[0] = ex(k[1], A=n.comparators[0])
    elif k[0] == 'del':
        b = getattr(n, k[1])
        b[k[2]] = ast.Pass()
    elif k[0] == 'neg':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif k[0] == 'true':
        n.test = ast.Constant(True)
    elif k[0] == 'cmp':
        n.ops[0] = FLIP[type(n.ops[0])]()
    elif k[0] == 'const':
        n.value = k[1]
    elif k[0] == 'elt':
        del n.elts[k[1]]
    elif k[0] == 'key':
        del n.keys[k[1]], n.values[k[1]]
    elif k[0] == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k[0] == 'term':
        del n.values[k[1]]
        if len(n.values) == 1:
            n.values.append(copy.deepcopy(n.values[0]))
    elif k[0] == 'arg':
        n.args[k[1]] = ast.Constant(None)
    elif k[0] == 'kw':
        del n.keywords[k[1]]
    elif k[0] == 'ret':
        n.value = ast.Constant(None)


def main():
    rel, checks = sys.argv[1], sys.argv[2].split(',')
    rx = sys.argv[3] if len(sys.argv) > 3 else None
    src = open(os.path.join(SRC, rel)).read()
    tree = ast.parse(src)
    subprocess.call(['rm', '-rf', WORK])
    q = queue.Queue()
    for i in range(N):
        d = '%s/%d' % (WORK, i)
        shutil.copytree(SRC, d + '/repo', ignore=shutil.ignore_patterns(
            '.git', '__pycache__'))
        os.makedirs(d + '/ev')
        q.put(d)
    seen = set()
    probed = {}
    jobs = []

    def never_text(desc, s, d):
        """tests reach this expression, and it is no text in any of them"""
        for op in STR:
            if ' %s for ' % op in desc and 'z_.%s if' % op in s:
                break
        else:
            return False
        site = desc.replace(op, '')
        if site not in probed:
            for k in 'st':
                if os.path.exists(d + '/seen_' + k):
                    os.unlink(d + '/seen_' + k)
            with open(os.path.join(d, 'repo', rel), 'w') as f:
                f.write(s.replace('z_.%s if' % op,
                                  "(open('%s/seen_s', 'w').close(), z_)[1] if"
                                  % d).replace(
                    'isinstance(z_, str) else z_', 'isinstance(z_, str) else '
                    "(open('%s/seen_t', 'w').close(), z_)[1]" % d))
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                       PYTHONPATH=d + '/repo', PYTHONHASHSEED='0')
            subprocess.run(
                ['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q',
                 '-p', 'no:cacheprovider', '--rootdir=' + d + '/repo',
                 'pyopenapi/tests'], cwd=d + '/repo', env=env,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                timeout=100)
            probed[site] = os.path.exists(d + '/seen_t') and \
                not os.path.exists(d + '/seen_s')
        return probed[site]
    for desc, t in mutants(tree, rx):
        s = ast.unparse(t)
        if s in seen:
            continue
        seen.add(s)
        jobs.append((desc, s))
    if os.environ.get('SAMPLE'):
        n, seed = (os.environ['SAMPLE'] + ':1').split(':')[:2]
        random.Random(int(seed)).shuffle(jobs)
        del jobs[int(n):]
    print('%d mutants' % len(jobs), flush=True)

    def run(job):
        desc, s = job
        d = q.get()
        try:
            if never_text(desc, s, d):
                return desc, 'no text', ''
            with open(os.path.join(d, 'repo', rel), 'w') as f:
                f.write(s)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                       PYTHONPATH=d + '/repo', PYTHONHASHSEED='0')
            try:
                r = subprocess.run(
                    ['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest',
                     '-q', '-x', '-p', 'no:cacheprovider', '--rootdir=' + d +
                     '/repo', '--disable-warnings', 'pyopenapi/tests'],
                    cwd=d + '/repo', env=env, stdout=subprocess.DEVNULL,
                    stderr=subprocess.DEVNULL, timeout=60)
            except subprocess.TimeoutExpired:
                return desc, 'tests', ''
            if r.returncode:
                return desc, 'tests', ''
            env = dict(os.environ, PYABS_REPO=d + '/repo',
                       PYABS_EVIDENCE=d + '/ev')
            res = []
            for c in checks:
                try:
                    r = subprocess.run(['python3', 'check.py', c], cwd=os.path.
                                       dirname(os.path.dirname(
                                           os.path.abspath(__file__))),
                                       env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True,
                                       timeout=600)
                except subprocess.TimeoutExpired:
                    res.append(c + ':timeout')
                    continue
                if r.returncode == 1:
                    return desc, 'caught', c
                if r.returncode or 'UNDECIDED' in r.stdout:
                    res.append('%s:rc%d undecided %s' % (
                        c, r.returncode, r.stdout.split('\n')[0][:150]))
            return desc, 'missed', ' '.join(res)
        finally:
            q.put(d)
    tot = {}
    with ThreadPoolExecutor(N) as ex:
        for desc, st, info in ex.map(run, jobs):
            tot[st] = tot.get(st, 0) + 1
            if st == 'missed':
                print('MISSED %s %s' % (desc, info), flush=True)
            elif st == 'caught' and os.environ.get('V'):
                print('caught %s %s' % (desc, info), flush=True)
    print(tot)
    subprocess.call(['rm', '-rf', WORK])


main()
