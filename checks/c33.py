"""scopes: names are composed, split and looked up as a whole"""
from .common import *  # noqa
import itertools

LOOK = '''
from pyopenapi.utils import ScopeDict, scope_compose, scope_split

def make(entries, sep):
    d = ScopeDict(entries)
    if sep is not None:
        d.sep = sep
    return d

def look(entries, sep, key):
    return make(entries, sep)[key]
'''
SEP = '!##!'


def lab33(ck):
    L = ck.lab
    if not getattr(ck, '_scope', None):
        L.load('scenario_scope', LOOK)
        ck._scope = True
    return L


def sfn(ck, name):
    L = lab33(ck)
    m = L.I.import_module('scenario_scope')
    return L.base.get(L.base.get(m.id).env).vars[name]


def call(ck, st, name, *args):
    return ck.lab.call(st, sfn(ck, name), *args)


def same_as(ck, name, args, exp):
    L = lab33(ck)
    st = L.S()
    L.expect(st, exp, L.sure(call(ck, st, name, *args), name), name)


def found(ck, keys, key, exp, sep=None):
    """exp: the full name that is found, or the exception"""
    L = lab33(ck)
    st = L.S()
    vals = {k: opaque('v%d' % i) for i, k in enumerate(keys)}
    out = call(ck, st, 'look', dict(vals), sep, key)
    if exp in ('KeyError', 'ValueError'):
        raises(ck, out, (exp, ), 'looking up')
    else:
        L.expect(st, vals[exp], L.sure(out, 'looking up'), 'the entry')


ODD = ('a', 'Ab', ' c ', 'd/', '/e/f', 'g?h#', 'i.j', '~', '%20')


def check(ck):
    ck.floor = 40
    T = 'composing and splitting are inverse'
    a, b, c = (text(x, 'plain') for x in 'abc')
    for sep in (None, '.', '::', ' X/', '?'):
        s = sep or SEP
        kw = [] if sep is None else [sep]
        n = 'with %r' % sep
        ck.ob('compose ' + n, T, lambda: same_as(
            ck, 'scope_compose', [a, b] + kw, cat(a, s, b)))
        ck.ob('compose three ' + n, T, lambda: same_as(
            ck, 'scope_compose', [cat(a, s, b), c] + kw, cat(a, s, b, s, c)))
        for x in ODD:
            for y in ODD:
                if s not in x + y:
                    ck.ob('compose %r %r %s' % (x, y, n), T, lambda: same_as(
                        ck, 'scope_compose', [x, y] + kw, x + s + y))
                    ck.ob('split %r %r %s' % (x, y, n), T, lambda: same_as(
                        ck, 'scope_split', [x + s + y] + kw, [x, y]))
            for none in (None, ''):
                ck.ob('no scope %r %r %s' % (none, x, n), T, lambda: same_as(
                    ck, 'scope_compose', [none, x] + kw, x))
                ck.ob('no name %r %r %s' % (none, x, n), T, lambda: same_as(
                    ck, 'scope_compose', [x, none] + kw, x))
        for none in (None, ''):
            ck.ob('no scope %r %s' % (none, n), T, lambda: same_as(
                ck, 'scope_compose', [none, b] + kw, b))
            ck.ob('no name %r %s' % (none, n), T, lambda: same_as(
                ck, 'scope_compose', [a, none] + kw, a))
            ck.ob('split nothing %r %s' % (none, n), T, lambda: same_as(
                ck, 'scope_split', [none] + kw, [None]))
        for names in (['x'], ['x', 'y'], ['x', 'y y', 'z'], list('pqrstuvw')):
            ck.ob('split %d %s' % (len(names), n), T, lambda: same_as(
                ck, 'scope_split', [s.join(names)] + kw, names))
        for names in ([a], [a, b], [a, b, c],
                      [a, b, c, a], [a, b, c, b, a, c]):
            if sep in (' X/', '?'):
                continue  # names might contain these
            parts = [x for n_ in names for x in (s, n_)][1:]
            ck.ob('split any %d %s' % (len(names), n), T, lambda: same_as(
                ck, 'scope_split', [cat(*parts)] + kw, names))

    T = 'entries are found by their last names, when these tell them apart'
    for sep in (None, '.', '!', ' X/', '?'):
        s = sep or SEP

        def ob(keys, key, exp):
            keys = [s.join(k.split()) for k in keys]
            if isinstance(key, str):
                key = s.join(key.split())
            e = exp if exp.endswith('Error') else s.join(exp.split())
            ck.ob('%s in %s' % (key, keys), T, lambda: found(
                ck, keys, key, e, sep))
        K = ['a b', 'c d ee', 'e f g', 'a f g']
        for k, e in (('a b', 'a b'), ('b', 'a b'), ('ee', 'c d ee'),
                     ('d ee', 'c d ee'), ('c d ee', 'c d ee'),
                     ('e f g', 'e f g'), ('a f g', 'a f g'),
                     ('g', 'ValueError'), ('f g', 'ValueError'),
                     ('e', 'KeyError'), ('a', 'KeyError'),
                     ('f', 'KeyError'), ('d', 'KeyError'),
                     ('x', 'KeyError'), ('x b', 'KeyError'),
                     ('c ee', 'KeyError')):
            ob(K, k, e)
            ob(K, tuple(k.split()), e)
        # names that end like others
        K = ['a get', 'b x-get', 'c y get', 'd zy get']
        for k, e in (('x-get', 'b x-get'), ('y get', 'c y get'),
                     ('zy get', 'd zy get'), ('get', 'ValueError'),
                     ('et', 'KeyError'), ('-get', 'KeyError')):
            ob(K, k, e)
        for ks in itertools.permutations(['a get', 'b x-get', 'c y-get']):
            ob(list(ks), 'get', 'a get')
        # a name without scope comes first
        ob(['get', 'a get', 'b get'], 'get', 'get')
        ob(['a get', 'get'], 'get', 'get')
        ob(['get'], 'a get', 'KeyError')
        ob([], 'get', 'KeyError')
        for x in ODD:
            for y in ODD:
                k = x + s + y
                if s not in x + y:
                    for look in (k, y, (x, y)):
                        ck.ob('%r of %r %r' % (look, k, sep), T, lambda:
                              found(ck, [k], look, k, sep))
                    if x != 'a':
                        ck.ob('%r of %r %r' % (x, k, sep), T, lambda: found(
                            ck, [k], x if x != y else 'z', 'KeyError', sep))
        # symbolic names
        A, B, C, D = (text(x, 'plain', 'fresh', ('group', 'sc'))
                      for x in 'ABCD')
        AB, CD = cat('a', s, B), cat('c', s, D)
        for k, e in ((AB, AB), (CD, CD)):
            ck.ob('any %r of %r' % (k, sep), T, lambda: found(
                ck, [AB, CD], k, e, sep))
        ck.ob('any %r' % sep, T, lambda: found(ck, [AB], B, AB, sep))
        ck.ob('any scope %r' % sep, T, lambda: found(
            ck, [cat(A, s, 'b')], 'b', cat(A, s, 'b'), sep))
