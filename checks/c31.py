"""Swagger 1.2 operations, models, authorizations and metadata in 2.0"""
from .c30 import *  # noqa
import itertools

MS = ('GET', 'PUT', 'POST', 'DELETE', 'OPTIONS', 'HEAD', 'PATCH')
NONE = Opt(Pred('nothing', lambda L, st, v: True))


def expect_at(ck, docs, exp, *toks, **kw):
    st, d = dumped(ck, docs, **kw)
    ck.lab.expect(st, exp, at(ck, st, d, *toks), '/'.join(map(str, toks)))


def missing_at(ck, docs, key, *toks):
    """nothing (or an empty thing) is there"""
    L = ck.lab
    st, d = dumped(ck, docs)
    x = at(ck, st, d, *toks)
    r = st.get(x.id)
    if r.opaque is not None:
        raise Undecided('unknown members')
    e = r.d.get(Const(key))
    if e is not None and e[0] != Const(None):
        v = st.get(e[0].id) if isinstance(e[0], Ref) else None
        if v is None or getattr(v, 'd', None) or getattr(v, 'items', None):
            raise Broken('%s appears as %s' % (key, L.show(st, e[0])))


OP = {  # member -> values, expected
    'summary': [(text('sm'), {'summary': text('sm')})],
    'notes': [(text('nt'), {'description': text('nt')})],
    'nickname': [(text('nn'), {'operationId': text('nn')})],
    'deprecated': [('true', {'deprecated': True}),
                   ('false', {'deprecated': Opt(False)})],
    'consumes': [([text('c1'), text('c2')], {'consumes': [
        text('c1'), text('c2')]})],
    'produces': [([text('p1')], {'produces': [text('p1')]})],
}


def op_exp(**kw):
    d = {'tags': ['a'], 'operationId': 'n', 'deprecated': Opt(False),
         'responses': {'default': {'description': Opt('')}}}
    d.update(kw)
    return d


def auth(*scopes):
    return [{'scope': s, 'description': text('ad')} for s in scopes]


def check_ops(ck):
    T = 'an operation keeps its meaning'
    P = ('paths', '/v/p', 'get')
    for m in MS:
        ck.ob('method ' + m, T, lambda: expect_at(
            ck, one(oper(method=m)), {m.lower(): op_exp()}, *P[:2]))
    for k, vs in OP.items():
        for v, e in vs:
            ck.ob('%s %r' % (k, v), T, lambda: expect_at(
                ck, one(oper(**{k: v})), op_exp(**e), *P))
        for k2, vs2 in OP.items():
            if k < k2:
                def two(k=k, k2=k2, vs=vs, vs2=vs2):
                    (v, e), (v2, e2) = vs[0], vs2[0]
                    expect_at(ck, one(oper(**{k: v, k2: v2})), op_exp(
                        **dict(e, **e2)), *P)
                ck.ob('%s and %s' % (k, k2), T, two)
    # media types: those of the operation, else of the resource
    for k in ('consumes', 'produces'):
        own, res = [text('own'), text('own2')], [text('res'), text('res2')]
        for o, r in itertools.product((0, 1), (0, 1)):
            def media(k=k, o=o, r=r):
                docs = one(oper(**({k: own} if o else {})),
                           **({k: res} if r else {}))
                if o or r:
                    expect_at(ck, docs, op_exp(**{k: own if o else res}), *P)
                else:
                    missing_at(ck, docs, k, *P)
            ck.ob('%s of %s%s' % (k, 'operation ' * o, 'resource' * r), T,
                  media)
        ms = ['a/b', 'c/d', text('any'), '*/*']
        sub = [[m] for m in ms] + [ms[:2], ms[1::-1], ms[1:], ms]
        for o, r in itertools.product(range(len(sub)), repeat=2):
            if o != r:
                ck.ob('%s %d of operation, %d of resource' % (k, o, r), T,
                      lambda: expect_at(
                          ck, one(oper(**{k: sub[o]}), **{k: sub[r]}),
                          op_exp(**{k: sub[o]}), *P))
    # one resource sets, the other does not
    for k in ('consumes', 'produces', 'authorizations'):
        for other in (0, 1):
            def apart(k=k, other=other):
                v = {text('an', 'fresh'): auth(text('s'))} if k[0] == 'a' \
                    else [text('res')]
                a = decl([{'path': '/p', 'operations': [oper()]}], '/a')
                b = decl([{'path': '/q', 'operations': [oper()]}], '/b')
                (a, b)[other][k] = v
                docs = {D12: listing(('/a', '/b')), D12 + '/a': a,
                        D12 + '/b': b}
                missing_at(ck, docs, 'security' if k[0] == 'a' else k,
                           'paths', '/v/' + 'pq'[1 - other], 'get')
            ck.ob('%s of another resource (%d)' % (k, other), T, apart)

    # authorizations
    K, K2 = member('an', 'auths', 'fresh'), member('an2', 'auths', 'fresh')
    A = {'none': (None, None), 'removed': ({}, []),
         'one': ({K: auth(text('s1'), text('s2'))},
                 [{K: [text('s1'), text('s2')]}]),
         'no scope': ({K: []}, [{K: []}]),
         'two': ({K: auth(text('s1')), K2: auth()},
                 Bag([{K: [text('s1')]}, {K2: []}]))}
    B = {'none': None, 'empty': {}, 'some': {member('an3', 'auths', 'fresh'):
                                            auth(text('s3'))}}
    for a, (v, e) in A.items():
        for b, r in B.items():
            def security(v=v, e=e, r=r):
                kw = {} if v is None else {'authorizations': v}
                kr = {} if r is None else {'authorizations': r}
                x = e
                if v is None and r:
                    x = [{member('an3', 'auths', 'fresh'): [text('s3')]}]
                docs = one(oper(**kw), **kr)
                if x:
                    expect_at(ck, docs, op_exp(security=x), *P)
                else:
                    missing_at(ck, docs, 'security', *P)
            ck.ob('authorizations %s, of resource %s' % (a, b), T, security)

    # results
    ck.ob('void', T, lambda: missing_at(ck, one(oper()), 'schema', *(
        P + ('responses', 'default'))))
    ck.ob('tag', T, lambda: expect_at(ck, one(rp=cat('/', R)), [R], *(
        P + ('tags', ))))
    ck.ob('no tag', T, lambda: missing_at(ck, one(rp='/'), 'tags', *P))


def check_paths(ck):
    T = 'each operation is found under its path and method'
    A, B = cat('/', text('A', 'plain')), cat('/', text('B', 'plain'))

    def op(n, m='GET'):
        return oper(nickname=n, method=m)

    def docs(*decls):
        ns = ['/r%d' % i for i in range(len(decls))]
        return dict({D12: listing(ns)}, **{
            D12 + n: d for n, d in zip(ns, decls)})

    def paths(base, *ops, **kw):
        """ops: [(path, nickname, method)]"""
        return decl([{'path': p, 'operations': [op(n, m)]} for p, n, m in
                     ops], base=base, **kw)

    def flat(d, exp, **top):
        st, x = dumped(ck, d)
        L = ck.lab
        L.expect(st, {p: {m: Sub({'operationId': n}) for m, n in ms.items()}
                      for p, ms in exp.items()}, at(ck, st, x, 'paths'),
                 'paths')
        for k, v in top.items():
            if v:
                L.expect(st, v, at(ck, st, x, k), k)
            else:
                e = st.get(x.id).d.get(Const(k))
                if e is not None and e[0] != Const(v):
                    raise Broken('%s is %s' % (k, L.show(st, e[0])))
    def fetched(url, base, names):
        """the declarations are read from below the listing"""
        d = {url: listing(['/' + x for x in names])}
        e = {}
        for i, x in enumerate(names):
            d[base + '/' + x] = paths('/v', ('/p%d' % i, 'n%d' % i, 'GET'))
            e['/v/p%d' % i] = {'get': Sub({'operationId': 'n%d' % i})}
        L = ck.lab
        st, app, out = start(ck, d, url, '2.0')
        o = L.sure(out, 'upgrading')
        L.expect(st, e, at(ck, st, L.sure(L.meth(st, o, 'dump'), 'dump'),
                           'paths'), 'paths')
        L.expect(st, [url] + [base + '/' + x for x in names], L.attr(
            st, L.attr(st, app, 'src'), 'log'), 'documents read')
    F = 'the declaration of a resource is read from its path'
    for u, b in ((D12, D12), ('http://h.com/x', 'http://h.com/x'),
                 ('http://h.com/a/resource_list.json', 'http://h.com/a'),
                 ('http://h.com/a/b.yaml', 'http://h.com/a'),
                 ('http://h.com:8080/docs', 'http://h.com:8080/docs'),
                 ('http://h.com:8080/json', 'http://h.com:8080/json'),
                 ('http://h.com/a/myyaml', 'http://h.com/a/myyaml')):
        for ns in (['x'], ['x', 'y'], ['y', 'x'], ['x/'], ['x/y', 'x'],
                   ['x y'], ['x.{format}', 'y.json'], ['x//y'], ['x%20y'],
                   ['.x'], ['X', 'x'], ['api-docs/x', '0', 'a-b']):
            ck.ob('declarations %s of %s' % (ns, u), F, lambda: fetched(
                u, b, ns))
    H = 'http://h.com'
    ck.ob('any path', T, lambda: flat(docs(paths(H, (A, 'n', 'GET'))),
                                      {A: {'get': 'n'}}, host='h.com'))
    ck.ob('base and path', T, lambda: flat(
        docs(paths(H + '/v/w', (A, 'n', 'GET'))),
        {cat('/v/w', A): {'get': 'n'}}, host='h.com'))
    for b, x in (('/v/', 'x'), ('/v', '/x/'), ('/V', '/X y'), ('/v.1/', 'a.b'),
                 ('/', 'x'), ('/v', '/x?y=z'), ('/v', '.{format}'),
                 ('/v//', 'x'), ('/v/', '/x'), ('', '/x%20'),
                 ('', '/a/../b'), ('/h.com', '/http://h.com')):
        ck.ob('base %r and path %r' % (b, x), T, lambda: flat(
            docs(paths(H + b, (x, 'n', 'GET'))), {b + x: {'get': 'n'}},
            host='h.com'))
    ck.ob('host with port', T, lambda: flat(
        docs(paths('https://h.com:8080/v', ('/p', 'n', 'GET'))),
        {'/v/p': {'get': 'n'}}, host='h.com:8080'))
    ck.ob('templates', T, lambda: flat(
        docs(paths(H, ('/p/{id}/x', 'n', 'GET'))),
        {'/p/{id}/x': {'get': 'n'}}, host='h.com'))
    ck.ob('no host', T, lambda: flat(
        docs(paths('/v', ('/p', 'n', 'GET'), ('/q', 'o', 'PUT'))),
        {'/v/p': {'get': 'n'}, '/v/q': {'put': 'o'}}, host=''))
    ck.ob('two methods', T, lambda: flat(
        docs(decl([{'path': '/p', 'operations': [op('n'), op('o', 'PUT')]}],
                  base=H)), {'/p': {'get': 'n', 'put': 'o'}}, host='h.com'))
    ck.ob('the same path twice', T, lambda: flat(
        docs(paths(H, ('/p', 'n', 'GET'), ('/p', 'o', 'POST'))),
        {'/p': {'get': 'n', 'post': 'o'}}, host='h.com'))
    def again(order):
        # given twice under one path: one of them is kept, and all others
        ops = [('/p', 'n', 'GET'), ('/p', 'o', 'PUT'), ('/p', 'q', 'GET'),
               ('/q', 'r', 'GET')]
        flat(docs(paths(H, *[ops[i] for i in order])),
             {'/p': {'get': OneOf('n', 'q'), 'put': 'o'}, '/q': {'get': 'r'}},
             host='h.com')
    for o in itertools.permutations(range(4)):
        ck.ob('an operation given twice %s' % (o, ), T, lambda: again(o))
    ck.ob('two paths', T, lambda: flat(
        docs(paths(H, ('/p', 'n', 'GET'), ('/q', 'o', 'GET'))),
        {'/p': {'get': 'n'}, '/q': {'get': 'o'}}, host='h.com'))
    ck.ob('two resources', T, lambda: flat(
        docs(paths(H, ('/p', 'n', 'GET')), paths(H, ('/q', 'o', 'GET'))),
        {'/p': {'get': 'n'}, '/q': {'get': 'o'}}, host='h.com'))
    ck.ob('two resources of one path', T, lambda: flat(
        docs(paths(H, ('/p', 'n', 'GET')), paths(H, ('/p', 'o', 'PUT'))),
        {'/p': {'get': 'n', 'put': 'o'}}, host='h.com'))
    ck.ob('two bases', T, lambda: flat(
        docs(paths(H + '/v', ('/p', 'n', 'GET')),
             paths(H + '/w', ('/p', 'o', 'GET'))),
        {'/v/p': {'get': 'n'}, '/w/p': {'get': 'o'}}, host='h.com'))
    G = 'http://g.org'
    ck.ob('two hosts', T, lambda: flat(
        docs(paths(H + '/v', ('/p', 'n', 'GET')),
             paths(G + '/v', ('/p', 'o', 'GET'))),
        {H + '/v/p': {'get': 'n'}, G + '/v/p': {'get': 'o'}}, host=''))
    S = 'https://h.com'
    ck.ob('two schemes', T, lambda: flat(
        docs(paths(H + '/v', ('/p', 'n', 'GET')),
             paths(S + '/v', ('/p', 'o', 'GET'))),
        {H + '/v/p': {'get': 'n'}, S + '/v/p': {'get': 'o'}}, host=''))
    ck.ob('one host begins like the other', T, lambda: flat(
        docs(paths(H + '/v', ('/p', 'n', 'GET')),
             paths(H + '.tw/v', ('/p', 'o', 'GET'))),
        {H + '/v/p': {'get': 'n'}, H + '.tw/v/p': {'get': 'o'}}, host=''))
    ck.ob('three hosts', T, lambda: flat(
        docs(paths(H + '/v', ('/p', 'n', 'GET')),
             paths(G + '/v', ('/p', 'o', 'GET')),
             paths(H + '/w', ('/p', 'q', 'GET'))),
        {H + '/v/p': {'get': 'n'}, G + '/v/p': {'get': 'o'},
         H + '/w/p': {'get': 'q'}}, host=''))
    ck.ob('no operation', T, lambda: missing_at(
        ck, docs(decl([])), 'paths'))
    ck.ob('api without operations', T, lambda: missing_at(
        ck, docs(decl([{'path': '/p', 'operations': []}])), 'paths'))


def check_models(ck):
    T = 'a model becomes the definition named after its resource'
    N, M, K = (member(x, 'models', 'fresh') for x in 'NMK')
    P = member('P', 'ps')

    def model(id_, **kw):
        return dict({'id': id_, 'properties': {P: {'type': 'string'}}}, **kw)

    PR = {P: {'type': 'string'}}

    def defs(models, exp, rp='/a', sep=SEP):
        d = one(models=models, rp=rp)
        expect_at(ck, d, exp, 'definitions', sep=sep)

    def key(n, rp='/a', sep=SEP):
        s = rp_scope(rp)
        return n if s == '' else cat(s, sep, n)

    for rp, n in (('/a', 'named'), (cat('/', R), 'any'), ('/', 'no'),
                  *[(x, x) for x in ODDRES]):
        ck.ob('name in %s resource' % n, T, lambda: defs(
            {'x': model(N), 'y': model(M)},
            {key(N, rp): {'properties': PR}, key(M, rp): {'properties': PR}},
            rp=rp))
    for sep in ('.', '::', '/'):
        ck.ob('name with separator %r' % sep, T, lambda: defs(
            {'x': model(N)}, {key(N, sep=sep): {'properties': PR}}, sep=sep))
    F = {'required': [P, text('rq')], 'discriminator': text('dc'),
         'description': text('ds')}
    for k in F:
        ck.ob(k, T, lambda: defs({'x': model(N, **{k: F[k]})}, {
            key(N): {'properties': PR, k: F[k]}}))
        for k2 in F:
            if k < k2:
                ck.ob('%s and %s' % (k, k2), T, lambda: defs(
                    {'x': model(N, **{k: F[k], k2: F[k2]}), 'y': model(M)},
                    {key(N): {'properties': PR, k: F[k], k2: F[k2]},
                     key(M): {'properties': PR}}))
    ck.ob('properties', T, lambda: defs(
        {'x': {'id': N, 'properties': {
            member('p%d' % i, 'ps'): {'type': t}
            for i, t in enumerate(PRIM[:3])}}},
        {key(N): {'properties': {member('p%d' % i, 'ps'): {'type': t} for
                                 i, t in enumerate(PRIM[:3])}}}))
    ck.ob('no properties', T, lambda: defs(
        {'x': {'id': N, 'properties': {}, 'description': text('ds')}},
        {key(N): {'description': text('ds'), 'properties': Opt({})}}))

    def up(*ns):
        return [{'$ref': cat('#/definitions/', enc(key(n)))} for n in ns]
    ck.ob('sub type after', T, lambda: defs(
        {'x': model(N, subTypes=[M]), 'y': model(M)},
        {key(N): {'properties': PR}, key(M): {'properties': PR,
                                              'allOf': up(N)}}))
    ck.ob('sub type before', T, lambda: defs(
        {'y': model(M), 'x': model(N, subTypes=[M])},
        {key(N): {'properties': PR}, key(M): {'properties': PR,
                                              'allOf': up(N)}}))
    ck.ob('two sub types', T, lambda: defs(
        {'y': model(M), 'x': model(N, subTypes=[M, K]), 'z': model(K)},
        {key(N): {'properties': PR}, key(M): {
            'properties': PR, 'allOf': up(N)}, key(K): {
                'properties': PR, 'allOf': up(N)}}))
    ck.ob('two super types', T, lambda: defs(
        {'y': model(M, subTypes=[K]), 'x': model(N, subTypes=[K]),
         'z': model(K)},
        {key(N): {'properties': PR}, key(M): {'properties': PR}, key(K): {
            'properties': PR, 'allOf': Bag(up(N, M))}}))
    for o in ('xyz', 'xzy', 'yxz', 'yzx', 'zxy', 'zyx'):
        ck.ob('chain of sub types, ' + o, T, lambda: defs(
            {k: {'y': model(M, subTypes=[K]), 'x': model(N, subTypes=[M]),
                 'z': model(K)}[k] for k in o},
            {key(N): {'properties': PR}, key(M): {
                'properties': PR, 'allOf': up(N)}, key(K): {
                    'properties': PR, 'allOf': up(M)}}))
        # one that is a sub type of two and has one
        ck.ob('sub types up and down, ' + o, T, lambda: defs(
            {k: {'y': model(M, subTypes=[K], description='y'),
                 'x': model(N, subTypes=[M, K], discriminator='d'),
                 'z': model(K, required=['q'])}[k] for k in o},
            {key(N): {'properties': PR, 'discriminator': 'd'}, key(M): {
                'properties': PR, 'allOf': up(N), 'description': 'y'},
             key(K): {'properties': PR, 'allOf': Bag(up(N, M)),
                      'required': ['q']}}))

    def both():
        """the same name in two resources"""
        a = decl([], '/a', models={'x': model(N, description='1')})
        b = decl([], '/b', models={'x': model(N, description='2')})
        expect_at(ck, {D12: listing(('/a', '/b')), D12 + '/a': a,
                       D12 + '/b': b}, {
            cat('a', SEP, N): {'properties': PR, 'description': '1'},
            cat('b', SEP, N): {'properties': PR, 'description': '2'}},
            'definitions')
    ck.ob('same name in two resources', T, both)

    def subs():
        a = decl([], '/a', models={'x': model(N, subTypes=[M]), 'y': model(
            M)})
        b = decl([], '/b', models={'x': model(N), 'y': model(M)})
        expect_at(ck, {D12: listing(('/a', '/b')), D12 + '/a': a,
                       D12 + '/b': b}, {
            cat('a', SEP, N): {'properties': PR},
            cat('a', SEP, M): {'properties': PR, 'allOf': up(N)},
            cat('b', SEP, N): {'properties': PR},
            cat('b', SEP, M): {'properties': PR}}, 'definitions')
    ck.ob('sub types in two resources', T, subs)


INFO = {'title': 'title', 'description': 'description',
        'termsOfServiceUrl': 'termsOfService', 'contact': ('contact', 'email'),
        'license': ('license', 'name'), 'licenseUrl': ('license', 'url')}


def check_meta(ck):
    T = 'metadata is kept'
    top = {'swagger': '2.0'}

    def info(ms, ver=True):
        d = one()
        d[D12] = listing(info={m: text('i' + m) for m in ms})
        e = {}
        if ver:
            d[D12]['apiVersion'] = text('av')
            e['version'] = text('av')
        else:
            del d[D12]['apiVersion']
        for m in ms:
            t = INFO[m]
            if isinstance(t, tuple):
                e.setdefault(t[0], {})[t[1]] = text('i' + m)
            else:
                e[t] = text('i' + m)
        expect_at(ck, d, e, 'info')
    rest = [m for m in INFO if m not in ('title', 'description')]
    for ms in [['title', 'description'] + list(c) for k in range(5)
               for c in itertools.combinations(rest, k)]:
        ck.ob('info ' + ' '.join(ms), T, lambda: info(ms))
    ck.ob('info without version', T, lambda: info(['title', 'description'], False))

    def noinfo():
        d = one()
        d[D12] = listing()
        expect_at(ck, d, {'version': '1'}, 'info')
    ck.ob('no info', T, noinfo)
    ck.ob('version of the document', T, lambda: expect_at(
        ck, one(), '2.0', 'swagger'))

    def tags(rps, exp):
        ns = ['/r%d' % i for i in range(len(rps))]
        d = {D12: listing(ns)}
        for n, rp in zip(ns, rps):
            d[D12 + n] = decl([], rp)
        expect_at(ck, d, [{'name': x} for x in exp], 'tags')
    A, B = text('tA', 'plain', ('group', 'tg')), text('tB', 'plain', (
        'group', 'tg'))
    for x in ODDRES:
        ck.ob('tag of %s' % x, 'one tag for each resource', lambda: tags(
            [x, '/a'], [x[1:], 'a']))
        ck.ob('operation of %s' % x, 'one tag for each resource', lambda:
              expect_at(ck, one(rp=x), [x[1:]], 'paths', '/v/p', 'get',
                        'tags'))
    for rps in ([A], [A, B], [B, A], [A, A], [A, B, A], [B, A, A]):
        ck.ob('tags %r' % (rps, ), 'one tag for each resource', lambda: tags(
            [cat('/', x) for x in rps],
            [x for i, x in enumerate(rps) if x not in rps[:i]]))

    # security
    S = 'a security scheme keeps its meaning'

    def scheme(auths, exp):
        d = one()
        d[D12] = listing(authorizations=auths)
        expect_at(ck, d, exp, 'securityDefinitions')
    n, n2 = member('sn', 'secs', 'fresh'), member('sn2', 'secs', 'fresh')
    E = Opt({})
    basic = ({'type': 'basicAuth'}, {'type': 'basic', 'scopes': E})
    ck.ob('basic', S, lambda: scheme({n: basic[0]}, {n: basic[1]}))
    for w in ('header', 'query'):
        key = ({'type': 'apiKey', 'passAs': w, 'keyname': text('kn')},
               {'type': 'apiKey', 'in': w, 'name': text('kn'), 'scopes': E})
        ck.ob('api key in ' + w, S, lambda: scheme({n: key[0]}, {n: key[1]}))
        ck.ob('api key in %s and basic' % w, S, lambda: scheme(
            {n: key[0], n2: basic[0]}, {n: key[1], n2: basic[1]}))
    im = {'loginEndpoint': {'url': text('lu')}, 'tokenName': text('tn')}
    ac = {'tokenRequestEndpoint': {'url': text('tr')},
          'tokenEndpoint': {'url': text('tu')}}
    a, b = (member(x, 'scopes') for x in 'ab')
    for sc, esc in ((None, E), ([], E), (
            [{'scope': a, 'description': text('da')}], {a: text('da')}), (
            [{'scope': a}], {a: ANY}), (
            [{'scope': a, 'description': text('da')}, {'scope': b}],
            {a: text('da'), b: ANY}), (
            [{'scope': a, 'description': text('da')},
             {'scope': b, 'description': text('db')}],
            {a: text('da'), b: text('db')})):
        for g, e in (
                ({'implicit': im}, {'flow': 'implicit',
                                    'authorizationUrl': text('lu')}),
                ({'authorization_code': ac}, {
                    'flow': 'access_code', 'tokenUrl': text('tu'),
                    'authorizationUrl': Opt(text('tr'))}),
                ({'implicit': im, 'authorization_code': ac}, {
                    'flow': 'implicit', 'authorizationUrl': text('lu'),
                    'tokenUrl': Opt(text('tu'))})):
            def oauth(sc=sc, esc=esc, g=g, e=e):
                d = {'type': 'oauth2', 'grantTypes': g}
                if sc is not None:
                    d['scopes'] = sc
                scheme({n: d}, {n: dict(e, type='oauth2', scopes=esc)})
            ck.ob('oauth2 %s with %s scopes' % ('+'.join(g), sc and [
                len(x) for x in sc]), S, oauth)
    ck.ob('two oauth2', S, lambda: scheme(
        {n: {'type': 'oauth2', 'grantTypes': {'implicit': im},
             'scopes': [{'scope': a, 'description': text('da')}]},
         n2: {'type': 'oauth2', 'grantTypes': {'implicit': {
             'loginEndpoint': {'url': text('lu2')}}},
             'scopes': [{'scope': b, 'description': text('db')}]}},
        {n: {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': text(
            'lu'), 'scopes': {a: text('da')}},
         n2: {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': text(
             'lu2'), 'scopes': {b: text('db')}}}))


OPM = {  # member -> (1.2, 2.0), (without content)
    'summary': (('sm', 'sm'), ('', '')), 'notes': (('nt', 'nt'), ('', '')),
    'nickname': (('nn', 'nn'), ('', '')),
    'deprecated': (('true', True), ('false', False)),
    'consumes': ((['a/c', 'a/d'], ) * 2, ([], [])),
    'produces': ((['a/p', 'a/q'], ) * 2, ([], [])),
    'authorizations': (({'k': [{'scope': 's1', 'description': 'x'}]},
                        [{'k': ['s1']}]), ({}, [])),
    'parameters': (([{'paramType': 'query', 'name': 'q', 'type': 'string',
                      'required': True, 'description': 'qd'}],
                    [{'in': 'query', 'name': 'q', 'type': 'string',
                      'required': True, 'description': 'qd'}]), ([], [])),
    'type': (('integer', {'type': 'integer'}), ('void', None)),
}
TO = {'notes': 'description', 'nickname': 'operationId',
      'authorizations': 'security'}
DECL = {
    'consumes': (['b/c'], []), 'produces': (['b/p'], []),
    'authorizations': ({'l': [{'scope': 't', 'description': 'y'}]}, {}),
    'apiVersion': ('7', ''),
}
MODEL = {
    'required': (['p', 'x'], []), 'discriminator': ('p', ''),
    'description': ('md', ''),
    'properties': ({'p': {'type': 'string', 'description': 'pd'}}, {}),
}
LIST = {
    'title': 'title', 'description': 'description',
    'termsOfServiceUrl': 'termsOfService', 'contact': ('contact', 'email'),
    'license': ('license', 'name'), 'licenseUrl': ('license', 'url')}


def quiet(v):
    """what has no content may be left out"""
    return Opt(v) if v in ('', [], {}, False) else v


def together12(ck, ops, decl_on, model_on=None, list_on=None):
    L = ck.lab
    apis, paths = [], {}
    for i, on in enumerate(ops):
        o, e = {'method': 'PUT', 'nickname': 'd', 'type': 'void',
                'parameters': []}, {}
        e = {'operationId': 'd', 'deprecated': Opt(False), 'tags': ['a'],
             'responses': {'default': {'description': Opt('')}}}
        for k, j in on.items():
            a, b = OPM[k][j]
            o[k] = a
            if k == 'type':
                if b:
                    e['responses'] = {'default': {'description': Opt(''),
                                                  'schema': b}}
            else:
                e[TO.get(k, k)] = quiet(b)
        for k in ('consumes', 'produces'):
            if not o.get(k) and k in decl_on:
                e[k] = quiet(DECL[k][decl_on[k]])
        if 'authorizations' not in on and 'authorizations' in decl_on:
            e['security'] = quiet([{'l': ['t']}] if not decl_on[
                'authorizations'] else [])
        apis.append({'path': '/p%d' % i, 'operations': [o]})
        paths['/v/p%d' % i] = {'put': e}
    d = decl(apis, **{k: DECL[k][i] for k, i in decl_on.items()})
    exp = {'paths': paths, 'tags': [{'name': 'a'}], 'swagger': '2.0'}
    if model_on is not None:
        m = {'id': 'M', 'properties': {}}
        e = {}
        for k, i in model_on.items():
            m[k] = MODEL[k][i]
            e[k] = quiet(m[k])
        # models below, above, between and beside others
        y = {k: v for k, v in e.items() if k != 'allOf'}

        def up(n):
            return [{'$ref': '#/definitions/a' + SEP + n}]
        d['models'] = {'M': m, 'Z': dict(m, id='Z', subTypes=['M']),
                       'Y': dict(m, id='Y'),
                       'X': dict(m, id='X', subTypes=['V', 'W']),
                       'W': dict(m, id='W', subTypes=['V']),
                       'V': dict(m, id='V')}
        exp['definitions'] = {'a' + SEP + k: x for k, x in {
            'M': dict(e, allOf=up('Z')), 'Z': y, 'Y': y, 'X': y,
            'W': dict(y, allOf=up('X')),
            'V': dict(y, allOf=Bag(up('X') + up('W')))}.items()}
    top = listing()
    if list_on is not None:
        top['info'], e = {}, {'version': '1'}
        for k, i in list_on.items():
            v = ('L' + k, '')[i]
            top['info'][k] = v
            t = LIST[k]
            if isinstance(t, tuple) and v:
                e.setdefault(t[0], {})[t[1]] = v
            elif isinstance(t, str):
                e[t] = quiet(v)
        exp['info'] = e
        top['authorizations'] = {
            'k': {'type': 'apiKey', 'passAs': 'query', 'keyname': 'kn'},
            'l': {'type': 'basicAuth'}}
        exp['securityDefinitions'] = {
            'k': {'type': 'apiKey', 'in': 'query', 'name': 'kn',
                  'scopes': Opt({})},
            'l': {'type': 'basic', 'scopes': Opt({})}}
    st, out = dumped(ck, {D12: top, D12 + '/a': d})
    L.expect(st, Sub(exp), out, 'upgrade')


def subsets(members, both):
    every = {k: 0 for k in members}
    yield every
    yield {}
    yield {k: 1 for k in members if k in both}
    for k in members:
        yield {x: 0 for x in members if x != k}
        yield {k: 0}
        if k in both:
            yield dict(every, **{k: 1})
            yield dict({x: 1 for x in both}, **{k: 0})
            yield {k: 1}
        for x in members:
            if x < k:
                yield {x: 0, k: 0}
            if x != k and x in both:
                yield {x: 1, k: 0}


def check_together12(ck):
    R = 'members do not influence each other'
    ops = list(subsets(list(OPM), set(OPM)))
    models = list(subsets(list(MODEL), set(MODEL)))
    lists = [x for x in subsets(list(LIST), set(LIST))
             if 'title' in x and 'description' in x and not x['title'] and
             not x['description']]
    lists += [{'title': 0, 'description': 0, k: i} for k in LIST
              for i in (0, 1) if k not in ('title', 'description')]
    decls = list(subsets(list(DECL), set(DECL)))
    n = len(ops)
    for i, d in enumerate(decls):
        # every declaration with every 10th operation, in turn
        some = ops[:4] + ops[4 + i % 10::10]
        ck.ob('resource %s' % sorted(d.items()), R, lambda: together12(
            ck, some, d, {k: 0 for k in MODEL},
            {k: 0 for k in LIST} if i % 2 else None))
        for j in range(0, n, 12):
            ck.more('resource %s, operations %d' % (sorted(d.items()), j), R,
                    lambda: together12(ck, ops[j:j + 12], d))
    for j in range(0, n, 12):
        ck.ob('operations %d' % j, R, lambda: together12(
            ck, ops[j:j + 12], {}))
        ck.ob('operations %d in a resource' % j, R, lambda: together12(
            ck, ops[j:j + 12], {k: 0 for k in DECL}))
    for m in models:
        ck.ob('model %s' % sorted(m.items()), R, lambda: together12(
            ck, ops[:2], {}, m))
    for x in lists:
        ck.ob('listing %s' % sorted(x.items()), R, lambda: together12(
            ck, ops[:1], {}, None, x))


def check(ck):
    ck.floor = 100
    check_together12(ck)
    check_ops(ck)
    check_paths(ck)
    check_models(ck)
    check_meta(ck)
