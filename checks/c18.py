"""the object cache: found by exact document, pointer and version"""
from .app import *  # noqa

U = 'http://h.com/a/swagger.json'
O = 'http://h.com/a/other.json'
VS = ['2.0', '3.0.0']
DIR = {'2.0': 'd', '3.0': 'e', '4.0': 'f', '5.0': 'g', '6.0': 'g'}
ALL = ['2.0', '3.0', '4.0', '5.0', '6.0']


def store(ck, st, versions=VS):
    L = app_lab(ck)
    return L.sure(L.call(st, L.name('store', 'SpecObjStore'), versions),
                  'a new store')


def put(ck, st, s, o, url, jp, v):
    ck.lab.sure(ck.lab.meth(st, s, 'set', o, url, jp, v), 'set')


def got(ck, st, s, url, jp, v, exp, what):
    L = ck.lab
    x = L.sure(L.meth(st, s, 'get', url, jp, v), 'get')
    L.expect(st, exp, x, what)


def thing(ck, st, kind, K, M):
    """an object, and what is below it: [(tokens, value)]"""
    L = ck.lab
    if kind == 'schema':
        o = L.new(st, 'o20', 'Schema', {
            'properties': {K: {'items': {'type': 'string'}}, M: {}},
            'allOf': [{}, {'title': 'x'}], 'title': 't'})
        p = L.item(st, L.attr(st, o, 'properties'), K)
        below = [(('properties', K), p),
                 (('properties', K, 'items'), L.attr(st, p, 'items')),
                 (('allOf', '1'), L.item(st, L.attr(st, o, 'allOf'), 1)),
                 (('allOf', '1', 'title'), Const('x')),
                 (('title', ), Const('t'))]
    elif kind == 'swagger':
        o = L.new(st, 'o20', 'Swagger', {
            'swagger': '2.0', 'info': {'title': 't', 'version': 'v'},
            'definitions': {K: {}},
            'paths': {M: {'get': {'responses': {K: {}}},
                          'parameters': [{'name': 'n', 'in': 'query'}]}}})
        ps = L.item(st, L.attr(st, o, 'paths'), M)
        op = L.attr(st, ps, 'get')
        below = [(('paths', M), ps), (('paths', M, 'get'), op),
                 (('paths', M, 'get', 'responses', K), L.item(st, L.attr(
                     st, op, 'responses'), K)),
                 (('definitions', K), L.item(st, L.attr(
                     st, o, 'definitions'), K)),
                 (('paths', M, 'parameters', '0'), L.item(st, L.attr(
                     st, ps, 'parameters'), 0)),
                 (('info', ), L.attr(st, o, 'info'))]
    else:
        o = L.new(st, 'o30', 'OpenApi', {
            'openapi': '3.0.0', 'info': {'title': 't', 'version': 'v'},
            'paths': {M: {'post': {
                'requestBody': {'content': {K: {'schema': {}}}},
                'responses': {}}}},
            'components': {'schemas': {K: {'$ref': 'x'}}}})
        ps = L.item(st, L.attr(st, o, 'paths'), M)
        rb = L.attr(st, L.attr(st, ps, 'post'), 'requestBody')
        mt = L.item(st, L.attr(st, rb, 'content'), K)
        below = [(('paths', M), ps), (('paths', M, 'post', 'requestBody'), rb),
                 (('paths', M, 'post', 'requestBody', 'content', K), mt),
                 (('paths', M, 'post', 'requestBody', 'content', K, 'schema'),
                  L.attr(st, mt, 'schema')),
                 (('components', 'schemas', K), L.item(st, L.attr(
                     st, L.attr(st, o, 'components'), 'schemas'), K))]
    return o, below


def names():
    return (member('K', 'names', 'fresh'), member('M', 'names', 'fresh'),
            member('N', 'names', 'fresh'))


def found(ck, kind, jp):
    L = app_lab(ck)
    st = L.S()
    K, M, N = names()
    o, below = thing(ck, st, kind, K, M)
    s = store(ck, st)
    v = '3.0.0' if kind == 'openapi' else '2.0'
    put(ck, st, s, o, U, jp, v)
    got(ck, st, s, U, jp, v, o, 'the object itself')
    for toks, x in below:
        got(ck, st, s, U, ptr(jp, *toks), v, x, 'below at %r' % (toks, ))
    return st, s, o, v


def elsewhere(ck, kind, jp, other, url, v):
    st, s, o, v0 = found(ck, kind, jp)
    got(ck, st, s, url, other, v, None, 'at another place')


def replaced(ck):
    L = app_lab(ck)
    st = L.S()
    s = store(ck, st)
    jp = ptr('#/definitions', text('K'))
    a, b, c, d = [L.new(st, 'o20', 'Schema', {}) for _ in range(4)]
    put(ck, st, s, a, U, jp, '2.0')
    put(ck, st, s, c, U, jp, '3.0.0')
    put(ck, st, s, d, O, jp, '2.0')
    put(ck, st, s, b, U, jp, '2.0')
    got(ck, st, s, U, jp, '2.0', b, 'set twice')
    got(ck, st, s, U, jp, '3.0.0', c, 'another version')
    got(ck, st, s, O, jp, '2.0', d, 'another document')


def invalid(ck, v):
    L = app_lab(ck)
    st = L.S()
    s = store(ck, st)
    raises(ck, L.meth(st, s, 'set', L.mk(st, v), U, '#', '2.0'), (
        'Exception', ), 'caching %r' % (v, ))
    got(ck, st, s, U, '#', '2.0', None, 'a refused object')


def family(ck, st, s, base, K, M):
    """objects at, below and next to a place"""
    L = ck.lab
    out = {}
    for n, jp in (('at', base), ('below', ptr(base, K)),
                  ('deep', ptr(base, M, 'x')), ('next', cat(base, 'x')),
                  ('up', '#/definitions/0'), ('root', '#')):
        o = L.new(st, 'o20', 'Schema', {})
        out[n] = o
        put(ck, st, s, o, U, jp, '2.0')
        out[n, '3'] = L.new(st, 'o20', 'Schema', {})
        put(ck, st, s, out[n, '3'], U, jp, '3.0.0')
        out[n, 'o'] = L.new(st, 'o20', 'Schema', {})
        put(ck, st, s, out[n, 'o'], O, jp, '2.0')
    return out


def under(ck, remove, where):
    L = app_lab(ck)
    st = L.S()
    s = store(ck, st)
    K, M, N = names()
    rel = cat('definitions/', enc(text('B', 'fresh'))) if where == 'text' \
        else 'paths/~1a'
    base = cat('#/', rel)
    o = family(ck, st, s, base, K, M)
    kw = {} if remove is None else {'remove': remove}
    exp = {'': o['at'], enc(K): o['below'], cat(enc(M), '/x'): o['deep']}
    r = L.sure(L.meth(st, s, 'get_under', U, base, '2.0', **kw), 'get_under')
    L.expect(st, exp, r, 'what is under a place')
    again = L.sure(L.meth(st, s, 'get_under', U, base, '2.0', remove=False),
                   'get_under')
    L.expect(st, exp if remove is False else {}, again, 'looking again')
    r = L.sure(L.meth(st, s, 'get_under', U, '#', '2.0', remove=False),
               'get_under')
    keep = {'': o['root'], cat(rel, 'x'): o['next'],
            'definitions/0': o['up']}
    if remove is False:
        for k, x in exp.items():
            keep[cat(rel, '/', k) if k else rel] = x
    L.expect(st, keep, r, 'what is left')
    for u, v, n in ((U, '3.0.0', '3'), (O, '2.0', 'o')):
        r = L.sure(L.meth(st, s, 'get_under', u, base, v, remove=False),
                   'get_under')
        L.expect(st, {'': o['at', n], enc(K): o['below', n],
                      cat(enc(M), '/x'): o['deep', n]}, r,
                 'other versions and documents')


def all_under(ck):
    L = app_lab(ck)
    st = L.S()
    s = store(ck, st)
    put(ck, st, s, L.new(st, 'o20', 'Schema', {}), U, '#/a', '2.0')
    raises(ck, L.meth(st, s, 'get_under', U, '', '2.0'), ('Exception', ),
           'removing everything')
    r = L.sure(L.meth(st, s, 'get_under', O, '#/a', '2.0'), 'get_under')
    L.expect(st, OneOf(None, {}), r, 'of an unknown document')


PLACES = ('#', '#/a', '#/a/', '#/a/b', '#/a/b/', '#/a//b', '#/a/b~1', '#/a~1b',
          '#/ab', '#/ab/c', '#/a/a', '#/a/a/a', '#/A', '#/A/b', '#/b/a', '#/a/ ',
          '#/a/b/c', '#/a/#/a', '#/a/0', '#/a/~0', '#/a b', '#//a',
          '#/b', '#/a.b', '#/a~0b', '#/a/b//', '#/a/.', '#/a/..')


def places(ck, base, remove):
    """objects at many places; exactly those at and below are found"""
    L = app_lab(ck)
    st = L.S()
    s = store(ck, st)
    at = {}
    for jp in PLACES:
        if jp == base + '/':
            continue  # named like the place itself, relative to it
        at[jp] = L.new(st, 'o20', 'Schema', {})
        put(ck, st, s, at[jp], U, jp, '2.0')
    exp = {jp[len(base) + 1:]: o for jp, o in at.items()
           if jp == base or jp.startswith(base + '/')}
    r = L.sure(L.meth(st, s, 'get_under', U, base, '2.0', remove=remove),
               'get_under')
    L.expect(st, exp, r, 'what is under %s' % base)
    r = L.sure(L.meth(st, s, 'get_under', U, '#', '2.0', remove=False),
               'get_under')
    L.expect(st, {jp[2:]: o for jp, o in at.items() if
                  not (remove and jp[len(base) + 1:] in exp and
                       exp[jp[len(base) + 1:]] is o)}, r, 'what is left')


def odd(ck, n):
    """a property of this name is found at its place"""
    L = app_lab(ck)
    st = L.S()
    o = L.new(st, 'o20', 'Schema', {'properties': {
        n: {'title': 'x', 'properties': {n: {'items': {}}}},
        'zz': {'title': 'y'}}})
    s = store(ck, st)
    jp = '#/definitions/a'
    put(ck, st, s, o, U, jp, '2.0')
    e = n.replace('~', '~0').replace('/', '~1')
    p = L.item(st, L.attr(st, o, 'properties'), n)
    got(ck, st, s, U, '%s/properties/%s' % (jp, e), '2.0', p, 'the property')
    got(ck, st, s, U, '%s/properties/%s/title' % (jp, e), '2.0', 'x',
        'in the property')
    q = L.item(st, L.attr(st, p, 'properties'), n)
    got(ck, st, s, U, '%s/properties/%s/properties/%s/items' % (jp, e, e),
        '2.0', L.attr(st, q, 'items'), 'deeper')
    jp2 = '#/definitions/' + e
    o2 = L.new(st, 'o20', 'Schema', {'title': 'z'})
    put(ck, st, s, o2, U, jp2, '2.0')
    got(ck, st, s, U, jp2, '2.0', o2, 'at the name')
    got(ck, st, s, U, jp2 + '/title', '2.0', 'z', 'below the name')


NEAR = ('http://h.com/a/swagger.json', 'http://h.com/a/Swagger.json',
        'http://h.com/A/swagger.json', 'https://h.com/a/swagger.json',
        'http://h.com:80/a/swagger.json', 'http://h.com/a/swagger.json/',
        'http://h.com/a/swagger.json?x=1', 'http://h.com/a/swagger.json?x=2',
        'http://h.com/a/swagger.yaml', 'http://h.com/a/swagger.yml',
        'http://h.com/a/swagger', 'http://h.com/swagger.json', 'http://h.com/',
        'http://h.com', 'http://h.com/a/b/swagger.json', 'http://h.com/a%2Fb',
        'http://h.com/a%20b', 'http://h.com/a b', 'http://www.h.com/a b',
        'file:///a/swagger.json', 'file:///a/b/swagger.json', '')


def near(ck, n):
    """documents whose urls are alike hold objects of their own"""
    L = app_lab(ck)
    st = L.S()
    s = store(ck, st)
    at = {}
    for u in NEAR[n:] + NEAR[:n]:
        got(ck, st, s, u, '#/a', '2.0', None, 'nothing yet in %s' % u)
        at[u] = L.new(st, 'o20', 'Schema', {'title': u or 'none'})
        put(ck, st, s, at[u], u, '#/a', '2.0')
    for u, o in at.items():
        got(ck, st, s, u, '#/a', '2.0', o, 'in %s' % u)
        got(ck, st, s, u, '#/a/title', '2.0', u or 'none', 'in %s' % u)
        r = L.sure(L.meth(st, s, 'get_under', u, '#', '2.0', remove=True),
                   'get_under')
        L.expect(st, {'a': o}, r, 'under the root of %s' % u)


def until(ck, have, frm, to, chain):
    """objects cached for versions in have; which one is found"""
    L = app_lab(ck)
    st = L.S()
    s = store(ck, st, ALL)
    K = member('K', 'names', 'fresh')
    jps = {v: ptr('#/' + (DIR[v] if chain else 'd'), K) for v in ALL}
    if chain:
        for a, b in zip(ALL, ALL[1:]):
            if jps[a] != jps[b]:
                L.sure(L.meth(st, s, 'update_routes', U, b, {
                    '#': {DIR[a]: '#/' + DIR[b]}}),
                    'update_routes')
    objs = {}
    for v in have:
        objs[v] = L.new(st, 'o20', 'Schema', {'title': 'x'})
        put(ck, st, s, objs[v], U, jps[v], v)
    kw = {} if to is None else {'until': to}
    r = L.sure(L.meth(st, s, 'get_until', U, jps[frm], frm, **kw),
               'get_until')
    vs = ALL[ALL.index(frm):ALL.index(to) + 1 if to else None]
    hit = [v for v in vs if v in have]
    exp = [objs[hit[-1]], jps[hit[-1]], hit[-1]] if hit else [None] * 3
    L.expect(st, Tup([L.mk(st, x) for x in exp]), r, 'the newest one')


def check(ck):
    ck.floor = 150
    K, M, N = names()
    R1 = 'an object is found at the place it is cached at, and what is below '\
         'it at its place'
    R2 = 'nothing is found at other places'
    for kind in ('schema', 'swagger', 'openapi'):
        v = '3.0.0' if kind == 'openapi' else '2.0'
        w = '2.0' if kind == 'openapi' else '3.0.0'
        for n, jp in (('#', '#'), ('name', ptr('#/definitions', N)),
                      ('deep', ptr('#', 'paths', N, 'x~/y'))):
            ck.ob('%s at %s' % (kind, n), R1, lambda: found(ck, kind, jp))
            for on, (j, u, x) in {
                    'another version': (jp, U, w),
                    'no version': (jp, U, '1.2'),
                    'another document': (jp, O, v),
                    'longer document': (jp, U + 'x', v),
            }.items():
                ck.ob('%s at %s, %s' % (kind, n, on), R2, lambda: elsewhere(
                    ck, kind, jp, j, u, x))
            if n == '#':
                continue
            for on, j in {'the root': '#', 'above': '#/definitions',
                          'longer name': cat(jp, 'x'),
                          'longer name below': cat(jp, 'x/properties'),
                          'encoded': cat(jp, '~1y'),
                          'another name': ptr('#/definitions', M),
                          }.items():
                ck.ob('%s at %s, %s' % (kind, n, on), R2, lambda: elsewhere(
                    ck, kind, jp, j, U, v))
    ck.ob('replacing', 'the object cached last is found, for its version and '
          'document only', lambda: replaced(ck))
    for x in ({}, [], 'x', None, 1):
        ck.ob('refusing %r' % (x, ), 'only objects of the model are cached',
              lambda: invalid(ck, x))
    R = 'looking for what is under a place finds exactly that, and removes '\
        'it when asked to'
    for r in (None, True, False):
        for w in ('text', 'path'):
            ck.ob('under %s remove %s' % (w, r), R, lambda: under(ck, r, w))
    ck.ob('under everything', R, lambda: all_under(ck))
    for b in PLACES:
        for r in (True, False):
            ck.ob('under %s remove %s' % (b, r), R, lambda: places(ck, b, r))
    for n in ('', 'a', '0', '1', 'a/b', 'a~b', '~1', '/', '~', 'a b', ' ', '#',
              '#/a', '$ref', 'properties', 'title', 'items', 'A', '-1', '.',
              '..', 'n\u00e9', '%2F', 'a%20b', 'x-y', 'a.json', 'a/', '/a',
              '~0', '~01', 'zz/', 'aa', 'get'):
        ck.ob('name %r' % n, R1, lambda: odd(ck, n))
    for n in (0, 7, 15):
        ck.ob('urls alike, from %d' % n, 'objects of other documents are not '
              'found', lambda: near(ck, n))
    R = 'the newest version, up to the one asked for, is found with its place'
    for chain in (True, False):
        for bits in range(32):
            have = [v for i, v in enumerate(ALL) if bits & (1 << i)]
            for frm, to in (('2.0', None), ('2.0', '4.0'), ('3.0', '5.0'),
                            ('4.0', '4.0'), ('2.0', '6.0')):
                ck.ob('until %s from %s with %s%s' % (
                    to, frm, ','.join(have), ' moving' if chain else ''), R,
                    lambda: until(ck, have, frm, to, chain))
