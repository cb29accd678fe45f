"""refactor.py KIND[,KIND] OUTDIR [file-regex]: copy of /repo in which every
non-test source file is rewritten without changing its behaviour.  Used while
building to see that the checks stay quiet (PYABS_REPO=OUTDIR)."""
import ast
import os
import re
import shutil
import sys


class T(ast.NodeTransformer):
    n = 0

    def fresh(self, p='tmp'):
        T.n += 1
        return '_%s%d' % (p, T.n)


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


class Unparse(T):
    """formatting and comments only"""


class Invert(T):
    """if c: A else: B  ->  if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(
                n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class RetTmp(T):
    """return e  ->  t = e; return t"""

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None or isinstance(n.value, ast.Name):
            return n
        t = self.fresh()
        return [ast.Assign([name(t, True)], n.value), ast.Return(name(t))]


class CondTmp(T):
    """if c -> t = c; if t"""

    def visit_If(self, n):
        self.generic_visit(n)
        t = self.fresh()
        return [ast.Assign([name(t, True)], n.test),
                ast.If(name(t), n.body, n.orelse)]


class Loops(T):
    """for k, v in six.iteritems(d) -> for k in list(d): v = d[k]"""

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and ast.unparse(it.func) == \
                'six.iteritems' and isinstance(n.target, ast.Tuple) and \
                all(isinstance(e, ast.Name) for e in n.target.elts):
            t = self.fresh('map')
            k, v = n.target.elts
            return [ast.Assign([name(t, True)], it.args[0]),
                    ast.For(k, ast.Call(name('list'), [ast.Call(ast.parse('six.iterkeys', mode='eval').body, [name(t)], [])], []), [
                        ast.Assign([v], ast.Subscript(
                            name(t), name(k.id), ast.Load()))] + n.body,
                        n.orelse)]
        return n


class Items(T):
    """six.iteritems(d) -> d.items()"""

    def visit_Call(self, n):
        self.generic_visit(n)
        f = ast.unparse(n.func)
        if f in ('six.iteritems', 'six.itervalues', 'six.iterkeys'):
            return ast.Call(ast.Attribute(n.args[0], f[8:], ast.Load()), [],
                            [])
        return n


class BoolOps(T):
    """a or b -> a if a else b (for names and attributes)"""

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if len(n.values) == 2 and isinstance(n.values[0], ast.Name):
            a, b = n.values
            return ast.IfExp(a, a, b) if isinstance(n.op, ast.Or) else \
                ast.IfExp(a, b, a)
        return n


class Comps(T):
    """x = [e for ...] -> loop"""

    def visit_Assign(self, n):
        self.generic_visit(n)
        v = n.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and \
                isinstance(n.targets[0], ast.Name):
            g = v.generators[0]
            t = self.fresh('acc')
            body = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append',
                                                    ast.Load()), [v.elt],
                                      []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign([name(t, True)], ast.List([], ast.Load())),
                    ast.For(g.target, g.iter, body, []),
                    ast.Assign(n.targets, name(t))]
        return n


class Wrap(T):
    """def f(a): body -> def f(a): def impl(): body; return impl()"""

    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal))
               for x in ast.walk(n)) or n.name.startswith('__') or \
                'super(' in ast.unparse(n):
            return n
        # names that are reassigned have to be parameters
        a = n.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            return n
        args = [x.arg for x in a.args]
        t = self.fresh('impl')
        inner = ast.FunctionDef(t, ast.arguments(
            [], [ast.arg(x) for x in args], None, [], [], None, []), n.body,
            [], None)
        n.body = [inner, ast.Return(ast.Call(name(t), [
            name(x) for x in args], []))]
        return n


class Index(T):
    """for x in xs -> for i in range(len(list(xs)))"""

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        t, i = self.fresh('seq'), self.fresh('i')
        return [ast.Assign([name(t, True)], ast.Call(name('list'), [n.iter],
                                                     [])),
                ast.For(name(i, True), ast.Call(name('range'), [ast.Call(
                    name('len'), [name(t)], [])], []), [
                        ast.Assign([n.target], ast.Subscript(
                            name(t), name(i), ast.Load()))] + n.body, [])]


class While(T):
    """for x in xs -> iter/next"""

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        t = self.fresh('it')
        s = self.fresh('stop')
        return [ast.Assign([name(t, True)], ast.Call(name('iter'), [n.iter],
                                                     [])),
                ast.Assign([name(s, True)], ast.Call(name('object'), [], [])),
                ast.While(ast.Constant(True), [
                    ast.Assign([name(s + 'v', True)], ast.Call(
                        name('next'), [name(t), name(s)], [])),
                    ast.If(ast.Compare(name(s + 'v'), [ast.Is()], [name(s)]),
                           [ast.Break()], []),
                    ast.Assign([n.target], name(s + 'v'))] + n.body, [])]


class Update(T):
    """d.update({'a': b}) -> d['a'] = b"""

    def visit_Expr(self, n):
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                c.func.attr == 'update' and len(c.args) == 1 and isinstance(
                    c.args[0], ast.Dict) and None not in c.args[0].keys and \
                not c.keywords and c.args[0].keys:
            return [ast.Assign([ast.Subscript(c.func.value, k, ast.Store())],
                               v) for k, v in zip(c.args[0].keys,
                                                  c.args[0].values)]
        return n


class Setdefault(T):
    """d.setdefault(k, v) -> if k not in d: d[k] = v; d[k]"""

    def visit_Assign(self, n):
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                c.func.attr == 'setdefault' and len(c.args) == 2:
            d, (k, v) = c.func.value, c.args
            return [ast.If(ast.Compare(k, [ast.NotIn()], [d]), [ast.Assign(
                [ast.Subscript(d, k, ast.Store())], v)], []),
                ast.Assign(n.targets, ast.Subscript(d, k, ast.Load()))]
        return n


class Early(T):
    """if c: return x; rest  ->  if c: return x else: rest"""

    def body(self, stmts):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and not s.orelse and s.body and \
                    isinstance(s.body[-1], (ast.Return, ast.Raise,
                                            ast.Continue)) and \
                    stmts[i + 1:]:
                return stmts[:i] + [ast.If(s.test, s.body,
                                           self.body(stmts[i + 1:]))]
        return stmts

    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.FunctionDef, ast.For, ast.While)):
            n.body = self.body(n.body)
        return n


class Late(T):
    """for ...: if c: A (only)  ->  if not c: continue; A"""

    def visit_For(self, n):
        self.generic_visit(n)
        s = n.body[-1]
        if isinstance(s, ast.If) and not s.orelse:
            n.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test),
                                  [ast.Continue()], [])] + s.body
        return n


class Fstr(T):
    """'..{}..'.format(a) -> f-string"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and \
                isinstance(n.func.value, ast.Constant) and not n.keywords \
                and not any(isinstance(a, ast.Starred) for a in n.args):
            parts = n.func.value.value.split('{}')
            if len(parts) == len(n.args) + 1 and not any(
                    '{' in p or '}' in p for p in parts):
                vs = []
                for i, p in enumerate(parts):
                    if p:
                        vs.append(ast.Constant(p))
                    if i < len(n.args):
                        vs.append(ast.FormattedValue(n.args[i], -1, None))
                return ast.JoinedStr(vs)
        return n


class IsInst(T):
    """isinstance(x, (a, b)) -> isinstance(x, a) or isinstance(x, b)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if ast.unparse(n.func) == 'isinstance' and isinstance(
                n.args[1], ast.Tuple):
            return ast.BoolOp(ast.Or(), [ast.Call(
                n.func, [n.args[0], e], []) for e in n.args[1].elts])
        if ast.unparse(n.func) == 'isinstance' and ast.unparse(
                n.args[1]) == 'six.string_types':
            return ast.Call(n.func, [n.args[0], name('str')], [])
        return n


class GetAttr(T):
    """getattr(o, 'x', d) -> o.x if hasattr(o, 'x') else d"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if ast.unparse(n.func) == 'getattr' and len(n.args) == 3 and \
                isinstance(n.args[0], ast.Name):
            o, a, d = n.args
            return ast.IfExp(ast.Call(name('hasattr'), [o, a], []), ast.Call(
                name('getattr'), [o, a], []), d)
        return n


class GetDict(T):
    """d.get(k) -> d[k] if k in d else None"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and \
                isinstance(n.func.value, ast.Name) and len(n.args) in (
                    1, 2) and not n.keywords and isinstance(
                        n.args[0], (ast.Constant, ast.Name)):
            d, k = n.func.value, n.args[0]
            return ast.IfExp(ast.Compare(k, [ast.In()], [d]), ast.Subscript(
                d, k, ast.Load()), n.args[1] if n.args[1:] else
                ast.Constant(None))
        return n


class Aug(T):
    """x = x + y for augmented assignments of names with constants"""

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and isinstance(
                n.value, ast.Constant):
            return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op,
                                                    n.value))
        return n


class Chain(T):
    """a, b = c, d in a function with a temporary tuple"""

    def visit_Assign(self, n):
        if isinstance(n.targets[0], ast.Tuple):
            t = self.fresh('tup')
            return [ast.Assign([name(t, True)], n.value)] + [
                ast.Assign([e], ast.Subscript(name(t), ast.Constant(i),
                                              ast.Load()))
                for i, e in enumerate(n.targets[0].elts)] if not isinstance(
                    n.value, ast.Call) or True else n
        return n


class CallTmp(T):
    """f(g(x)) as statement/assign -> t = g(x); f(t) (single argument)"""

    def visit_Assign(self, n):
        c = n.value
        if isinstance(c, ast.Call) and c.args and isinstance(
                c.args[0], ast.Call) and isinstance(c.func, ast.Name):
            t = self.fresh()
            a = c.args[0]
            c.args[0] = name(t)
            return [ast.Assign([name(t, True)], a), n]
        return n


class KwDict(T):
    """{'a': b} -> dict(a=b)"""

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(
                k.value, str) and k.value.isidentifier() and not
                __import__('keyword').iskeyword(k.value) for k in n.keys):
            return ast.Call(name('dict'), [], [
                ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n


class Noop(T):
    """statements that do nothing"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = n.body + [ast.Pass()] if not ast.get_docstring(n) else \
            n.body[:1] + [ast.Expr(ast.Constant(0)),
                          ast.Assign([name('_unused', True)],
                                     ast.Constant(None))] + n.body[1:]
        return n


class Lambda(T):
    """lambda -> def where assigned"""

    def visit_Assign(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Lambda) and isinstance(
                n.targets[0], ast.Name):
            return ast.FunctionDef(n.targets[0].id, n.value.args,
                                   [ast.Return(n.value.body)], [], None)
        return n


class Join(T):
    """'a' + b -> ''.join(['a', b]) when a constant text is involved"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Add) and any(isinstance(
                x, ast.Constant) and isinstance(x.value, str)
                for x in (n.left, n.right)):
            return ast.Call(ast.Attribute(ast.Constant(''), 'join',
                                          ast.Load()),
                            [ast.List([n.left, n.right], ast.Load())], [])
        return n


class Truth(T):
    """if not x -> if bool(x) is False"""

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.UnaryOp) and isinstance(
                n.test.op, ast.Not):
            n.test = ast.Compare(ast.Call(name('bool'), [n.test.operand],
                                          []), [ast.Is()],
                                 [ast.Constant(False)])
        return n


class EqIn(T):
    """x == a or x == b <-> x in (a, b)"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(n.comparators[0], (ast.List, ast.Tuple)) and \
                isinstance(n.left, (ast.Name, ast.Attribute)):
            neg = isinstance(n.ops[0], ast.NotIn)
            return ast.BoolOp(ast.And() if neg else ast.Or(), [
                ast.Compare(n.left, [ast.NotEq() if neg else ast.Eq()], [e])
                for e in n.comparators[0].elts]) if len(
                    n.comparators[0].elts) > 1 else n
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq) and isinstance(
                n.comparators[0], ast.Constant):
            return ast.Compare(n.left, [ast.In()], [ast.Tuple(
                [n.comparators[0]], ast.Load())])
        return n


KINDS = {k.lower(): v for k, v in list(globals().items())
         if isinstance(v, type) and issubclass(v, T) and v is not T}


def main():
    kinds, out = sys.argv[1].split(','), sys.argv[2]
    rx = re.compile(sys.argv[3] if sys.argv[3:] else '')
    if os.path.exists(out):
        shutil.rmtree(out)
    shutil.copytree('/repo', out, symlinks=True)
    n = 0
    for root, dirs, files in os.walk(os.path.join(out, 'pyopenapi')):
        for f in files:
            p = os.path.join(root, f)
            if not f.endswith('.py') or '/tests/' in p or not rx.search(p):
                continue
            src = open(p).read()
            t = ast.parse(src)
            for k in kinds:
                t = ast.fix_missing_locations(KINDS[k]().visit(t))
                t = ast.parse(ast.unparse(t))
            new = ast.unparse(t)
            if new != ast.unparse(ast.parse(src)) or 'unparse' in kinds:
                n += 1
                open(p, 'w').write('from __future__ import absolute_import\n'
                                   if False else new + '\n')
    print(kinds, n, 'files rewritten')


if __name__ == '__main__':
    main()
