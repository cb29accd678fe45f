"""pointers follow the objects they point at into another version"""
from .c18 import *  # noqa


def moved(ck, routes, jp, exp, frm='2.0', to='3.0.0', versions=VS, urls=None,
          more=()):
    """routes: [(url, version, map)]"""
    L = app_lab(ck)
    st = L.S()
    s = store(ck, st, versions)
    for u, v, m in routes:
        L.sure(L.meth(st, s, 'update_routes', u, v, m), 'update_routes')
    kw = {} if to is None else {'to_spec': to}
    r = L.sure(L.meth(st, s, 'relocate', U, jp, frm, **kw), 'relocate')
    L.expect(st, exp, r, 'relocating %r' % (jp, ))


def refused(ck, what):
    L = app_lab(ck)
    st = L.S()
    s = store(ck, st)
    L.sure(L.meth(st, s, 'update_routes', U, '3.0.0', {}), 'update_routes')
    out = L.meth(st, s, 'update_routes', O, '1.1', {}) if what == 'update' \
        else L.meth(st, s, 'relocate', U, '#/a', '2.0', '2.1')
    raises(ck, out, ('Exception', ), 'version of ' + what)


def check(ck):
    ck.floor = 150
    K, M, N = names()
    T = text('T', 'fresh')
    e = enc
    # the map the upgrade to 3.0.0 makes
    P1 = cat('~1', e(member('p', 'ps', 'fresh')))
    P2 = cat('~1', e(member('q', 'ps', 'fresh')))
    X = 'x-pyopenapi_internal_request_body'
    REAL = {'#': {
        'definitions': 'components/schemas',
        'responses': '#/components/responses',
        'parameters': {'': '#/components/parameters',
                       e(K): cat('#/components/requestBodies/', e(K))},
        'securityDefinitions': 'components/securitySchemes',
        'paths': {P1: {'parameters/0': X}, P2: {'parameters/1': X,
                                               'get/parameters/2':
                                               'get/requestBody'}}}}
    # a route whose target is relative keeps what leads to it
    S = '#/components/schemas'
    CASES = {
        'schemas': ('#/definitions', S),
        'schema': (cat('#/definitions/', e(N)), cat(S, '/', e(N))),
        'below schema': (cat('#/definitions/', e(N), '/properties/', e(T)),
                         cat(S, '/', e(N), '/properties/', e(T))),
        'below schema twice': (cat('#/definitions/', e(N), '/definitions/', e(
            N)), cat(S, '/', e(N), '/definitions/', e(N))),
        'longer': (cat('#/definitionsx/', e(N)), cat('#/definitionsx/', e(N))),
        'shorter': (cat('#/definition/', e(N)), cat('#/definition/', e(N))),
        'parameters': ('#/parameters', '#/components/parameters'),
        'parameter': (cat('#/parameters/', e(M)),
                      cat('#/components/parameters/', e(M))),
        'body': (cat('#/parameters/', e(K)),
                 cat('#/components/requestBodies/', e(K))),
        'below body': (cat('#/parameters/', e(K), '/schema/items'),
                       cat('#/components/requestBodies/', e(K),
                           '/schema/items')),
        'longer than body': (cat('#/parameters/', e(K), 'x'),
                             cat('#/components/parameters/', e(K), 'x')),
        'encoded longer than body': (
            cat('#/parameters/', e(K), '~1x'),
            cat('#/components/parameters/', e(K), '~1x')),
        'response': (cat('#/responses/', e(K)),
                     cat('#/components/responses/', e(K))),
        'path': (cat('#/paths/', P1), cat('#/paths/', P1)),
        'path body': (cat('#/paths/', P1, '/parameters/0'),
                      cat('#/paths/', P1, '/', X)),
        'below path body': (cat('#/paths/', P1, '/parameters/0/schema'),
                            cat('#/paths/', P1, '/', X, '/schema')),
        'other path': (cat('#/paths/', P2, '/parameters/0'),
                       cat('#/paths/', P2, '/parameters/0')),
        'other path body': (cat('#/paths/', P2, '/parameters/1'),
                            cat('#/paths/', P2, '/', X)),
        'operation body': (cat('#/paths/', P2, '/get/parameters/2'),
                           cat('#/paths/', P2, '/get/requestBody')),
        'tenth parameter': (cat('#/paths/', P1, '/parameters/01'),
                            cat('#/paths/', P1, '/parameters/01')),
        'root': ('#', '#'),
        'info': ('#/info/title', '#/info/title'),
    }
    R = 'a pointer is rewritten by the longest route it is at or below, what '\
        'is below is kept'
    for n, (jp, exp) in CASES.items():
        for how, (routes, vs, frm, to) in {
                'alone': ([(U, '3.0.0', REAL)], VS, '2.0', '3.0.0'),
                'default version': ([(U, '3.0.0', REAL)], VS, '2.0', None),
                'from 1.2': ([(U, '3.0.0', REAL)], ['1.2'] + VS, '1.2',
                             '3.0.0'),
                'later versions': (
                    [(U, '3.0.0', REAL), (U, '3.1.0', {'#': {
                        'components': 'x', 'paths': 'y', 'definitions': 'z',
                        'info': 'w'}})], VS + ['3.1.0'], '2.0', '3.0.0'),
                'older versions': (
                    [(U, '3.0.0', REAL), (U, '2.0', {'#': '#/q'})],
                    ['1.2'] + VS, '2.0', '3.0.0'),
                'other documents': (
                    [(O, '3.0.0', {'#': '#/q'}), (U, '3.0.0', REAL),
                     (U + 'x', '3.0.0', {'#': '#/z'})], VS, '2.0', '3.0.0'),
        }.items():
            ck.ob('%s, %s' % (n, how), R, lambda: moved(
                ck, routes, jp, exp, frm, to, vs))
        for how, frm, to in (('same', '3.0.0', '3.0.0'), ('2.0', '2.0', '2.0'),
                             ('back', '3.0.0', '2.0')):
            ck.ob('%s, %s' % (n, how), 'without a newer version nothing moves',
                  lambda: moved(ck, [(U, '3.0.0', REAL), (U, '2.0', {
                      '#': '#/q'})], jp, jp, frm, to))
        ck.ob('%s, unknown' % n, 'pointers into documents without routes stay',
              lambda: moved(ck, [(O, '3.0.0', REAL)], jp, jp))
        ck.ob('%s, nothing' % n, 'without routes nothing moves',
              lambda: moved(ck, [(U, '3.0.0', {})], jp, jp))
        ck.ob('%s, empty map' % n, 'without routes nothing moves',
              lambda: moved(ck, [(U, '3.0.0', {'#': {}})], jp, jp))
    # maps in maps, at every depth
    toks = ['a', e(K), 'c', e(M)]
    for depth in (1, 2, 3, 4):
        for how in ('absolute', 'relative', 'several tokens'):
            m = {'absolute': '#/x', 'relative': 'y', 'several tokens': 'y/z'}[
                how]
            for t in reversed(toks[:depth]):
                m = {t: m, 'other': {t: '#/bad', 'other': 'bad'},
                     cat(t, 'x'): '#/bad'}
            at = cat('#/', *[x for t in toks[:depth] for x in (t, '/')][:-1])
            top = cat('#/', *[x for t in toks[:depth - 1] for x in (t, '/')])
            to = {'absolute': '#/x', 'relative': cat(top, 'y'),
                  'several tokens': cat(top, 'y/z')}[how]
            for n, tail, new in (
                    ('at', '', None), ('below', cat('/', e(T)), None),
                    ('below twice', cat('/', e(N), '/', e(T)), None),
                    ('next to', 'y', 'same')):
                if new and depth % 2 == 0:
                    continue
                ck.ob('depth %d %s %s' % (depth, how, n), R, lambda: moved(
                    ck, [(U, '3.0.0', {'#': m})], cat(at, tail) if tail else
                    at, cat(at, tail) if new else cat(to, tail) if tail else
                    to))
            ck.ob('depth %d %s above' % (depth, how), R, lambda: moved(
                ck, [(U, '3.0.0', {'#': m})], cat('#/', *[
                    x for t in toks[:depth - 1] for x in (t, '/')][:-1])
                if depth > 1 else '#', cat('#/', *[
                    x for t in toks[:depth - 1] for x in (t, '/')][:-1])
                if depth > 1 else '#'))
    # flat routes, in both orders
    A, B = ptr('#', K), ptr('#', K, M)
    for n, jp, exp in (
            ('at', A, '#/a'), ('at longer', B, '#/b'),
            ('below', ptr(A, N), cat('#/a/', e(N))),
            ('below longer', ptr(B, N), cat('#/b/', e(N))),
            ('next', cat(A, 'x'), cat(A, 'x')),
            ('next to longer', cat(B, 'x'), cat('#/a/', e(M), 'x')),
            ('name repeated', ptr(A, K, M), cat('#/a/', e(K), '/', e(M)))):
        for o, m in (('', [{A: '#/a'}, {B: '#/b'}]),
                     (' reversed', [{B: '#/b'}, {A: '#/a'}]),
                     (' once', [{A: '#/a', B: '#/b'}]),
                     (' once reversed', [{B: '#/b', A: '#/a'}])):
            ck.ob('flat %s%s' % (n, o), R, lambda: moved(
                ck, [(U, '3.0.0', x) for x in m], jp, exp))
    ck.ob('last route', 'a route replaces the previous one of that place',
          lambda: moved(ck, [(U, '3.0.0', {A: '#/a'}), (U, '3.0.0', {
              A: '#/b'})], ptr(A, N), cat('#/b/', e(N))))
    # tokens may be empty
    for tail in ('/', '//', '//c', '/c/', '/c//d', '///c/d'):
        for n, m, jp, exp in (
                ('flat', {A: '#/a'}, A, '#/a'),
                ('nested', {'#': {'a': {e(K): '#/x'}}}, ptr('#/a', K), '#/x'),
                ('relative', {'#': {'a': {e(K): 'y'}}}, ptr('#/a', K),
                 '#/a/y'),
                ('schema', REAL, '#/definitions', S),
                ('response', REAL, '#/responses', '#/components/responses'),
                ('others', {'#': {'a': {'': '#/x', 'b': '#/y'}}}, '#/a',
                 '#/x'),
                ('body', REAL, cat('#/paths/', P1, '/parameters/0'),
                 cat('#/paths/', P1, '/', X))):
            ck.ob('empty names below %s: %s' % (n, tail), R, lambda: moved(
                ck, [(U, '3.0.0', m)], cat(jp, tail), cat(exp, tail)))
    # one version after the other
    R = 'routes of each version in between are applied, oldest first'
    vs = ['2.0', '3.0.0', '3.1.0', '10.0']
    for order in ((0, 1, 2), (2, 1, 0)):
        rs = [(U, '3.0.0', {'#': {'d': '#/e', 'g': '#/bad'}}),
              (U, '3.1.0', {'#': {'e': '#/f', 'd': '#/bad'}}),
              (U, '10.0', {'#': {'f': '#/g', 'e': '#/bad'}})]
        rs = [rs[i] for i in order]
        for frm, to, x, y in (('2.0', '10.0', 'd', 'g'),
                              ('2.0', '3.1.0', 'd', 'f'),
                              ('2.0', '3.0.0', 'd', 'e'),
                              ('3.0.0', '10.0', 'e', 'g'),
                              ('3.0.0', '3.1.0', 'e', 'f'),
                              ('3.1.0', '10.0', 'f', 'g'),
                              ('10.0', '10.0', 'f', 'f'),
                              ('3.1.0', '3.1.0', 'e', 'e')):
            ck.ob('%s to %s %s' % (frm, to, order), R, lambda: moved(
                ck, rs, ptr('#/' + x, T), cat('#/%s/' % y, e(T)), frm, to, vs))
    for w in ('update', 'relocate'):
        ck.ob('version %s' % w, 'unknown versions are refused',
              lambda: refused(ck, w))
