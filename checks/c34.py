"""comparing documents gives every difference, and nothing else"""
from .common import *  # noqa
import itertools

COMPARE = '''
from pyopenapi.utils import compare_container

def full(a, b):
    return compare_container(a, b)

def limited(a, b, inc, exc):
    return compare_container(a, b, include=inc, exclude=exc)

def twice(a, b, c, d):
    compare_container(a, b)
    return compare_container(c, d)
'''


def fn(ck, name):
    L = ck.lab
    if not getattr(ck, '_cmp', None):
        L.load('scenario_compare', COMPARE)
        ck._cmp = True
    m = L.I.import_module('scenario_compare')
    return L.base.get(L.base.get(m.id).env).vars[name]


def tok(k):
    return k.replace('~', '~0').replace('/', '~1')


def kind(x):
    if isinstance(x, dict):
        return 'dict'
    return 'list' if isinstance(x, list) else type(x).__name__


def differences(a, b, keep=lambda k: True, path=''):
    """what the documentation of compare_container() says"""
    def at(k):
        return '/'.join(([path] if path else []) + [tok(str(k))])
    if isinstance(a, (dict, list)) and kind(a) != kind(b):
        return [(path, kind(a), kind(b))]
    if isinstance(a, dict):
        ret = []
        for k in sorted(set(a) | set(b)):
            if not keep(k):
                continue
            if k in a and k in b:
                ret += differences(a[k], b[k], keep, at(k))
            else:
                ret.append((at(k), None, None))
        return ret
    if isinstance(a, list):
        if len(a) != len(b):
            return [(path, len(a), len(b))]
        if not a:
            return []
        if kind(a[0]) != kind(b[0]):
            return [(path, ANY, ANY)]
        if kind(a[0]) != 'dict':
            a, b = sorted(a), sorted(b)
        return [e for i, (x, y) in enumerate(zip(a, b))
                for e in differences(x, y, keep, at(i))]
    return [] if a == b else [(path, a, b)]


def cmp(ck, a, b, inc=None, exc=None, before=None):
    L = ck.lab
    st = L.S()
    if inc is None and exc is None:
        out = L.call(st, fn(ck, 'full'), a, b) if before is None else \
            L.call(st, fn(ck, 'twice'), before[0], before[1], a, b)
    else:
        out = L.call(st, fn(ck, 'limited'), a, b, inc, exc)

    def keep(k):
        return (not inc or k in inc) and k not in (exc or ())
    exp = [list(e) for e in differences(a, b, keep)]
    v = L.sure(out, 'comparing')
    L.expect(st, Bag(exp) if len(exp) > 1 else exp, v,
             'comparing %r with %r' % (a, b))


SCALARS = ['x', 'y', '', 'X', ' x', 0, 1, -2, 17, 1.5, True, False, None]
LISTS = [[], ['x'], ['y'], ['x', 'y'], ['y', 'x'], ['x', 'x'], ['x', 'y', 'z'],
         ['z', 'x', 'y'], ['x', 'x', 'y'], ['x', 'y', 'y'], [1], [2], [1, 2],
         [2, 1], [10, 9, 2], [2, 9, 10], [3, 1, 2, 5, 4], [1, 2, 3, 4, 6]]
DICTS = [{}, {'a': 1}, {'a': 2}, {'b': 1}, {'a': 1, 'b': 1}, {'a': 1, 'b': 2},
         {'b': 2, 'a': 1}, {'a': None}, {'a': []}, {'a': {}}, {'a': ''},
         {'a': ['x', 'y']}, {'a': ['y', 'x']}, {'a': ['x', 'z']},
         {'a': {'b': 1}}, {'a': {'b': {'c': 1}}}, {'a': {'b': {'c': 2}}},
         {'a': {'b': {'c': 2, 'd': []}}}, {'A': 1}, {'a/b': 1}, {'a~b': 1},
         {'a/b': {'c~d': 1}}, {'a/b': {'c~d': 2}}, {'a~1b': {'c': 2}},
         {'a~1b': {'c': 1}}, {'a': [{'b': 1}, {'c': 2}]},
         {'a': [{'b': 1}, {'c': 3}]}, {'a': [{'c': 2}, {'b': 1}]},
         {'a': [{'b': 1}, {'c': 2}, {}]}, {'a': [{'b': [{'c': [1]}]}]},
         {'a': [{'b': [{'c': [2]}]}]}, {'a': [{'b': [{'c': [1], 'd': 0}]}]}]


def plain_pair(a, b):
    # 1, 1.0 and True are the same to python: not different kinds
    return not (isinstance(a, (int, float)) and isinstance(b, (int, float))
                and a == b and type(a) is not type(b))


def many(n):
    return {'k%d' % i: {'v': i, 'w': [str(j) for j in range(i)]}
            for i in range(n)}


def check(ck):
    ck.floor = 400
    T = 'equal documents give nothing, others each difference'
    every = SCALARS + LISTS + DICTS
    for a, b in itertools.product(every, every):
        if plain_pair(a, b):
            ck.ob('%r with %r' % (a, b), T, lambda: cmp(ck, a, b))
    # at some depth
    wrap = [lambda x: {'p': x}, lambda x: {'p': {'q/r': x}},
            lambda x: {'p': [{'a': 0}, {'q': x}]}, lambda x: [{'p': x}],
            lambda x: {'o': 1, 'p': x, 'q': [1]}]
    inner = ['x', 'X', 0, 3, False, None, [], ['x'], ['y', 'x'], ['x', 'y'],
             [1, 2], {}, {'a': 1}, {'a': 1, 'b': 2}, {'c': {'a': 1}},
             {'c': {'a': 2}}]
    for i, w in enumerate(wrap):
        for a, b in itertools.product(inner, inner):
            if plain_pair(a, b):
                ck.ob('in %d: %r with %r' % (i, a, b), T,
                      lambda: cmp(ck, w(a), w(b)))
    # several differences, deep
    for n in (3, 11, 12):
        a = many(n)
        ck.ob('%d keys' % n, T, lambda: cmp(ck, a, many(n)))
        ck.ob('%d keys, all but one' % n, T, lambda: cmp(ck, a, many(n - 1)))
        b = many(n)
        b['k1'] = {'v': 'x', 'w': []}
        b['k%d' % (n - 1)] = 3
        b['new'] = {}
        ck.ob('%d keys, several changed' % n, T, lambda: cmp(ck, a, b))
        ck.ob('%d keys, several changed, back' % n, T, lambda: cmp(ck, b, a))
        ck.ob('%d new keys' % n, T, lambda: cmp(
            ck, {'a': 1}, dict(many(n), a=1)))
        ck.ob('%d keys gone' % n, T, lambda: cmp(ck, many(n), {'a': 1}))
        ck.ob('%d other keys' % n, T, lambda: cmp(ck, {'p': many(n)}, {
            'p': {k + 'x': v for k, v in many(n).items()}}))
        la = [{'v': i} for i in range(n)]
        lb = [{'v': i if i % 2 else 'x'} for i in range(n)]
        ck.ob('%d mappings in a list' % n, T, lambda: cmp(ck, la, lb))
        ta = [str(i) for i in range(n)]
        ck.ob('%d texts in other order' % n, T,
              lambda: cmp(ck, ta, ta[::-1]))
        ck.ob('%d texts, one changed' % n, T,
              lambda: cmp(ck, ta, ta[:-1] + ['zz']))
        ck.ob('%d numbers in other order' % n, T, lambda: cmp(
            ck, list(range(n)), [i * 5 % n for i in range(n)] if n % 5
            else list(range(n))))
    NS = ([2, 10], [9, 2], [10, 9], [-1, 2], [100, 20, 3], [3, 20, 9],
          [20, 3, 101], [-10, -9, 1], [1, -9, -2])
    for x in NS:
        for y in NS:
            if len(x) == len(y):
                ck.ob('%s with %s' % (x, y), T, lambda: cmp(
                    ck, {'a': x}, {'a': y}))
                tx, ty = [str(i) for i in x], [str(i) for i in y]
                ck.ob('%s with %s' % (tx, ty), T, lambda: cmp(ck, tx, ty))
    a = b = 1
    for d in range(8):
        a, b = {'a': a, 'x': [a]} if d == 0 else {'a': a}, \
            {'a': b, 'x': [2]} if d == 0 else {'a': b, 'y%d' % d: d}
        ck.ob('depth %d' % d, T, lambda: cmp(ck, a, b))
        ck.ob('depth %d, back' % d, T, lambda: cmp(ck, b, a))

    # generic contents
    V, W = opaque('v', ('group', 'cmp')), opaque('w', ('group', 'cmp'))
    k, m = text('k', 'plain', 'fresh'), text('m', 'plain', 'fresh')
    T = 'whatever the names and values are'

    def gen(name, a, b, exp):
        def go():
            L = ck.lab
            st = L.S()
            v = L.sure(L.call(st, fn(ck, 'full'), a, b), 'comparing')
            L.expect(st, [list(e) for e in exp], v, 'comparing')
        ck.ob(name, T, go)
    s, t = text('s', ('group', 'txt')), text('t', ('group', 'txt'))
    gen('same text', {'a': s}, {'a': s}, [])
    gen('other text', {'a': s}, {'a': t}, [('a', s, t)])
    gen('text and number', {'a': s}, {'a': 1}, [('a', s, 1)])
    gen('number and text', {'a': 1}, {'a': s}, [('a', 1, s)])
    gen('text and mapping', {'a': s}, {'a': {'b': 1}}, [('a', s, {'b': 1})])
    gen('mapping and text', {'a': {'b': 1}}, {'a': s}, [('a', 'dict', 'str')])
    gen('list and text', {'a': ['b']}, {'a': s}, [('a', 'list', 'str')])
    gen('nested', {'a': {'b': [{'c': s}]}}, {'a': {'b': [{'c': t}]}},
        [('a/b/0/c', s, t)])

    T = 'include and exclude restrict the keys at every level'
    docs = [({'a': {'a': 1, 'b': [1, 2, 3], 'c': 4},
              'b': {'a': 2, 'b': [1, 2, 3], 'c': 4}, 'c': 3},
             {'a': {'a': 2, 'b': [1, 3], 'c': 5},
              'b': {'a': 2, 'b': [1, 2], 'c': 5, 'd': 1}, 'd': 2}),
            ({'a': [{'a': 1, 'b': 1}, {'b': {'a': 1}}], 'b': 1},
             {'a': [{'a': 2, 'b': 2}, {'b': {'a': 2, 'c': 1}}], 'b': 2}),
            ({'a': 1}, {'b': 1}), ({'a': 1, 'ab': 1}, {'b': 1, 'ab': 2}),
            ({'a': {'a': {'a': 1, 'b': 1}}}, {'a': {'a': {'a': 2, 'b': 2}}}),
            ({'a': ['a', 'b']}, {'a': ['a', 'c']}), (['a'], ['b']),
            ({'a': 1}, ['a'])]
    ks = [None, [], ['a'], ['b'], ['a', 'b'], ['a', 'b', 'c'], ['d'], ['ab'],
          ['c', 'd'], ['zz']]
    for n, (a, b) in enumerate(docs):
        for inc, exc in itertools.product(ks, ks):
            if inc is exc is None:
                continue
            ck.ob('pair %d, include %r, exclude %r' % (n, inc, exc), T,
                  lambda: cmp(ck, a, b, inc, exc))
            if n < 2:
                ck.ob('pair %d back, include %r, exclude %r' % (n, inc, exc),
                      T, lambda: cmp(ck, b, a, inc, exc))
    T = 'an earlier comparison leaves nothing behind'
    for (a, b), (c, d) in itertools.product(docs[:4], docs[:4]):
        ck.ob('%r after %r' % ((c, d), (a, b)), T,
              lambda: cmp(ck, c, d, before=(a, b)))
