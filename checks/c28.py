"""document, operation and security metadata survive the upgrade to 3.0.0"""
from .common import *  # noqa
from .whole import whole, META


def conv(ck, fname, cls, spec, exp, path='#/x', prep=None):
    L = ck.lab
    st = L.S()
    o = L.new(st, 'o20', cls, spec, path)
    v = convert(ck, st, fname, o, path)
    L.expect(st, exp, v, fname)


def op(ck, spec, exp, root=None):
    L = ck.lab
    st = L.S()
    o = L.new(st, 'o20', 'Operation', spec, '#/o')
    v = convert(ck, st, 'to_operation', o, None, root or text('root'), '#/o')
    L.expect(st, exp, v, 'to_operation')


def doc(ck, spec, exp, absent=()):
    L = ck.lab
    st = L.S()
    o = L.new(st, 'o20', 'Swagger', spec, '#')
    v = L.sure(L.call(st, L.name('c20', 'to_openapi'), o, '#'), 'to_openapi')
    L.expect(st, Sub(exp, absent), L.item(st, v, 0), 'to_openapi')


OPFIELDS = ('summary', 'description', 'operationId')


# unusual, but still paths
ODD = ('/', '/v1/', '/v1//', '//v1', '/{x}', '/%7Bx%7d', '/a b', '/..', '/v1/.',
       '/V1', '/http://x', '/v1.json', '/\xe9')


def check(ck):
    ck.floor = 70
    R = 'information about the API is kept'
    T = {'title': text('t'), 'version': text('v')}
    con = {'name': text('cn'), 'url': text('cu'), 'email': text('ce')}
    lic = {'name': text('ln'), 'url': text('lu')}
    opt = {'description': text('d'), 'termsOfService': text('tos'),
           'contact': con, 'license': lic}
    for k, v in opt.items():
        ck.ob('info.' + k, R, lambda: conv(ck, 'to_info', 'Info', dict(
            T, **{k: v}), dict(T, **{k: v})))
    ck.ob('info', R, lambda: conv(ck, 'to_info', 'Info', dict(T, **opt),
                                  dict(T, **opt)))
    ck.ob('info minimal', R, lambda: conv(ck, 'to_info', 'Info', T, T))
    for k in con:
        ck.ob('contact.' + k, R, lambda: conv(
            ck, 'to_contact', 'Contact', {k: con[k]}, {k: con[k]}))
    ck.ob('license', R, lambda: conv(ck, 'to_license', 'License', lic, lic))
    ck.ob('license.name', R, lambda: conv(
        ck, 'to_license', 'License', {'name': text('n')},
        {'name': text('n')}))
    ck.ob('doc.info', R, lambda: doc(ck, {'info': dict(T, **opt)},
                                     {'info': dict(T, **opt)}))
    R = 'tags and external documentation are kept'
    ed = ext_docs('e')
    g1 = {'name': text('g1'), 'description': text('gd'), 'externalDocs': ed}
    ck.ob('tag', R, lambda: conv(ck, 'to_tag', 'Tag', g1, g1))
    for k in ('description', 'externalDocs'):
        s = {'name': text('g'), k: g1[k]}
        ck.ob('tag.' + k, R, lambda: conv(ck, 'to_tag', 'Tag', s, s))
    ck.ob('externalDocs', R, lambda: conv(
        ck, 'to_external_docs', 'ExternalDocumentation', ed, ed))
    tags = [g1, {'name': text('g2')}, {'name': text('g3'),
                                       'description': text('gd3')}]
    ck.ob('doc.tags', R, lambda: doc(ck, {'tags': tags}, {'tags': tags}))
    ck.ob('doc.externalDocs', R, lambda: doc(ck, {'externalDocs': ed},
                                             {'externalDocs': ed}))
    ck.ob('doc.openapi', 'the upgraded document declares 3.0.0',
          lambda: doc(ck, {}, {'openapi': '3.0.0'}, (
              'info', 'tags', 'externalDocs', 'security', 'swagger', 'host',
              'basePath', 'schemes', 'definitions', 'parameters',
              'responses', 'securityDefinitions', 'consumes', 'produces')))

    R = 'metadata of an operation is kept'
    for k in OPFIELDS:
        ck.ob('op.' + k, R, lambda: op(ck, {k: text('x')}, {k: text('x')}))
    ck.ob('op.deprecated', R, lambda: op(ck, {'deprecated': boolean('x')},
                                         {'deprecated': boolean('x')}))
    tg = [text('t1'), text('t2'), text('t3')]
    ck.ob('op.tags', R, lambda: op(ck, {'tags': tg}, {'tags': tg}))
    ck.ob('op.externalDocs', R, lambda: op(ck, {'externalDocs': ed},
                                           {'externalDocs': ed}))
    ck.ob('op.empty', 'nothing is invented', lambda: op(ck, {}, {}))
    a, b = member('sa', 'sec'), member('sb', 'sec')
    secs = {
        'one': [{a: []}], 'scopes': [{a: [text('s1'), text('s2')]}],
        'or': [{a: [text('s1')]}, {b: []}],
        'and': [{a: [text('s1')], b: [text('s2')]}],
        'none': [],
        'optional': [{}, {a: []}],
    }
    R = 'security requirements are kept'
    for n, s in secs.items():
        ck.ob('op.security.' + n, R, lambda: op(ck, {'security': s},
                                                {'security': s}))
        e = {'security': s if s else Opt([])}
        ck.ob('doc.security.' + n, R, lambda: doc(ck, {'security': s}, e))
    full = {k: text('o' + k) for k in OPFIELDS}
    full.update({'deprecated': boolean('dep'), 'tags': tg, 'externalDocs': ed,
                 'security': secs['or']})
    ck.ob('op.all', R, lambda: op(ck, full, full))
    R = 'schemes of an operation become its servers'

    def schemes(st, v):
        r = ck.lab.rec(st, v)
        if not isinstance(r, ListR) or r.opaque is not None:
            raise Undecided('servers')
        if len(r.items) != 2:
            return False
        for (x, m), s in zip(r.items, ('http', 'wss')):
            if ck.lab.diff(st, {'url': s + '://h.com/v1'}, x) or not m:
                return False
        return True
    ck.ob('op.schemes', R, lambda: op(
        ck, {'schemes': ['http', 'wss']},
        {'servers': Pred('a server per scheme', schemes)},
        'https://h.com/v1'))

    def docschemes():
        L = ck.lab
        st = L.S()
        u = cat('/', word('u'))
        o = L.new(st, 'o20', 'Swagger', {
            'host': 'h.com', 'basePath': '/v1', 'schemes': ['https'],
            'paths': {u: {'get': {'schemes': ['http', 'wss']}}}}, '#')
        v = L.sure(L.call(st, L.name('c20', 'to_openapi'), o, '#'),
                   'to_openapi')
        L.expect(st, Sub({'paths': {u: {'get': {'servers': Pred(
            'a server per scheme', schemes)}}}}), L.item(st, v, 0),
            'to_openapi')
    ck.ob('doc.op.schemes', R, docschemes)

    def servers(schemes, rest):
        def f(st, v):
            r = ck.lab.rec(st, v)
            if not isinstance(r, ListR) or r.opaque is not None:
                raise Undecided('servers')
            return len(r.items) == len(schemes) and all(
                m and not ck.lab.diff(st, {'url': s + '://' + rest}, x)
                for (x, m), s in zip(r.items, schemes))
        return Pred('%s at %s' % (schemes, rest), f)
    for host in ('h.com', 'http.example.com', 'https.ws.com', 'wss', 'x:8080',
                 'ws.http.com:443', '10.0.0.1', 'H.com', 'localhost'):
        for base in (None, '/v1', '/http/v2', '/a/b', '/https', '/V1/wss',
                     '/v1/'):
            for sch in (['https'], ['http', 'wss'], ['ws'],
                        ['https', 'http', 'ws', 'wss'], ['http', 'http']):
                for ds in (None, ['http'], ['wss', 'https']):
                    d = {'host': host, 'paths': {'/u': {'get': {
                        'schemes': sch}}}}
                    if base:
                        d['basePath'] = base
                    if ds:
                        d['schemes'] = ds
                    e = servers(sch, host + (base or ''))
                    ck.ob('schemes %s of %s%s %s' % (sch, host, base, ds), R,
                          lambda: doc(ck, d, {
                              'servers': Pred('the server', lambda st, v:
                                              first(ck, st, v, '%s://%s%s' % (
                                                  (ds or ['https'])[0], host,
                                                  base or ''))),
                              'paths': {'/u': {'get': {'servers': e}}}}))
    R = 'metadata of an operation is kept'
    fields = dict(full, responses={text('rc'): {'description': text('rd')}},
                  parameters=[{'name': text('pn'), 'in': 'query'}])
    for x, y in [(a, b) for a in sorted(fields) for b in sorted(fields)
                 if a < b]:
        ck.ob('op.%s+%s' % (x, y), R, lambda: op(
            ck, {k: fields[k] for k in (x, y)},
            {k: fields[k] for k in (x, y)}))
    for x in fields:
        d = {k: v for k, v in fields.items() if k != x}
        ck.ob('op.all but ' + x, R, lambda: op(ck, d, d))
    for n in range(1, 5):
        tl = [text('t%d' % i) for i in range(n)]
        ck.ob('op.%d tags' % n, R, lambda: op(ck, {'tags': tl}, {'tags': tl}))
        gl = [{'name': text('g%d' % i)} for i in range(n)]
        ck.ob('doc.%d tags' % n, R, lambda: doc(ck, {'tags': gl},
                                                {'tags': gl}))
        sl = [{member('s%d' % i, 'secs'): [text('o%d%d' % (i, j))
                                           for j in range(n)]}
              for i in range(n)]
        ck.ob('op.%d requirements' % n, R, lambda: op(
            ck, {'security': sl}, {'security': sl}))
        ck.ob('doc.%d requirements' % n, R, lambda: doc(
            ck, {'security': sl}, {'security': sl}))
        ck.ob('doc.%d definitions' % n, R, lambda: doc(
            ck, {'definitions': {member('k%d' % i, 'defs'): {
                'title': text('t%d' % i)} for i in range(n)}},
            {'components': {'schemas': {member('k%d' % i, 'defs'): {
                'title': text('t%d' % i)} for i in range(n)}}}))
    for v in ('', 'A', 'a b', '0', 'null'):
        ck.ob('op texts %r' % v, R, lambda: op(
            ck, {k: v for k in OPFIELDS}, {k: v for k in OPFIELDS}))
        ck.ob('op tag %r' % v, R, lambda: op(
            ck, {'tags': [v, 'x', v]}, {'tags': [v, 'x', v]}))
        ck.ob('info texts %r' % v, R, lambda: conv(
            ck, 'to_info', 'Info', {k: v for k in (
                'title', 'version', 'description', 'termsOfService')},
            {k: v for k in ('title', 'version', 'description',
                            'termsOfService')}))
    ip = dict(opt)
    for x in ip:
        for y in ip:
            if x < y:
                ck.ob('info.%s+%s' % (x, y), 'information about the API is '
                      'kept', lambda: conv(
                          ck, 'to_info', 'Info', dict(T, **{
                              k: ip[k] for k in (x, y)}),
                          dict(T, **{k: ip[k] for k in (x, y)})))
        d = dict(T, **{k: v for k, v in ip.items() if k != x})
        ck.ob('info.all but ' + x, 'information about the API is kept',
              lambda: conv(ck, 'to_info', 'Info', d, d))
    for x in con:
        d = {k: v for k, v in con.items() if k != x}
        ck.ob('contact.all but ' + x, 'information about the API is kept',
              lambda: conv(ck, 'to_contact', 'Contact', d, d))
    dp = {'info': dict(T, **opt), 'tags': tags, 'externalDocs': ed,
          'security': secs['or'],
          'definitions': {text('k1'): {'type': 'string'}},
          'parameters': {text('k2'): {'name': text('pn'), 'in': 'query'}},
          'responses': {text('k3'): {'description': text('d')}},
          'securityDefinitions': {text('k4'): {'type': 'basic'}},
          'paths': {'/u': {'get': full}}}
    comp = {'definitions': 'schemas', 'parameters': 'parameters',
            'responses': 'responses', 'securityDefinitions':
            'securitySchemes'}

    def docof(names):
        e, absent = {}, []
        for k in names:
            v = dp[k]
            if k == 'securityDefinitions':
                v = {text('k4'): {'type': 'http', 'scheme': 'basic'}}
            if k in comp:
                e.setdefault('components', {})[comp[k]] = v
            else:
                e[k] = v
        for k in dp:
            if k not in names and k not in comp:
                absent.append(k)
        if 'components' not in e:
            absent.append('components')
        doc(ck, {k: dp[k] for k in names}, e, tuple(absent))
    R = 'the parts of a document do not disturb each other'
    for x in dp:
        ck.ob('doc.only ' + x, R, lambda: docof([x]))
        ck.ob('doc.all but ' + x, R, lambda: docof([k for k in dp if k != x]))
        for y in dp:
            if x < y:
                ck.ob('doc.%s+%s' % (x, y), R, lambda: docof([x, y]))
    R = 'every operation of a path is kept under its method'
    for a in METHODS:
        for b in METHODS:
            if a < b:
                ck.ob('path.%s+%s' % (a, b), R, lambda: doc(
                    ck, {'paths': {'/u': {a: {'summary': text('a')},
                                          b: {'summary': text('b')}}}},
                    {'paths': {'/u': {a: {'summary': text('a')},
                                      b: {'summary': text('b')}}}}))
    R = 'paths are kept under the same key'
    for k in ('/', '/a', '/a/', '/{b}', '/a/{b}/c', '/A', '/a.b', '/a~b',
              '/x-y', '/get', '/a b', '/n\u00e9', '/0', '/$ref'):
        ck.ob('path %r' % k, R, lambda: doc(
            ck, {'paths': {k: {'get': {'summary': text('z')}},
                           '/zz': {'put': {'summary': text('y')}}}},
            {'paths': {k: {'get': {'summary': text('z')}},
                       '/zz': {'put': {'summary': text('y')}}}}))
    R = 'a referenced path item stays referenced'

    def pref():
        L = ck.lab
        st = L.S()
        o = L.new(st, 'o20', 'PathItem', {
            '$ref': text('rel'), 'get': {'summary': text('s')}}, '#/p')
        g = L.sure(L.meth(st, o, 'get_attrs', 'migration', L.name(
            'a20', 'PathItemAttributeGroup')), 'get_attrs')
        L.run(st, lambda s: L.I.setattr(g, 'normalized_ref', text('abs'), s))
        v = L.sure(L.call(st, L.name('c20', 'to_path_item'), o,
                          text('root'), '#/p'), 'to_path_item')
        L.expect(st, {'$ref': text('abs'), 'get': {'summary': text('s')}},
                 L.item(st, v, 0), 'to_path_item')
    ck.ob('path.$ref', R, pref)

    R = 'every operation of a path is kept under its method'
    for m in METHODS:
        def one_():
            L = ck.lab
            st = L.S()
            o = L.new(st, 'o20', 'PathItem', {m: full}, '#/p')
            v = L.sure(L.call(st, L.name('c20', 'to_path_item'), o,
                              text('root'), '#/p'), 'to_path_item')
            L.expect(st, {m: full}, L.item(st, v, 0), 'to_path_item')
        ck.ob('path.' + m, R, one_)

    def all_():
        L = ck.lab
        st = L.S()
        s = {m: {'operationId': text(m)} for m in METHODS}
        o = L.new(st, 'o20', 'PathItem', s, '#/p')
        v = L.sure(L.call(st, L.name('c20', 'to_path_item'), o,
                          text('root'), '#/p'), 'to_path_item')
        L.expect(st, s, L.item(st, v, 0), 'to_path_item')
    ck.ob('path.all', R, all_)
    u1, u2 = (cat('/', Sym(('atom', x), 'str', frozenset((
        'truthy', 'plain', ('group', 'paths'))))) for x in ('u1', 'u2'))
    ck.ob('doc.paths', R, lambda: doc(
        ck, {'paths': {u1: {'get': full}, u2: {
            'get': {'summary': text('z')}, 'post': {'summary': text('y')}}}},
        {'paths': {u1: {'get': full}, u2: {
            'get': {'summary': text('z')}, 'post': {'summary': text('y')}}}}))

    R = 'the server is where host, basePath and schemes point'
    for n, s, e in (
            ('nothing', {}, '/'),
            ('host', {'host': 'h.com'}, 'https://h.com'),
            ('basePath', {'basePath': '/v1'}, '/v1'),
            ('host basePath', {'host': 'h.com', 'basePath': '/v1'},
             'https://h.com/v1'),
            ('host schemes', {'host': 'h.com', 'schemes': ['http', 'https']},
             'http://h.com'),
            ('host and no slash', {'host': 'h.com', 'basePath': 'v1/x'},
             'https://h.com/v1/x'),
            ('all', {'host': 'h.com:80', 'basePath': '/v1/x', 'schemes': [
                'ws', 'https']}, 'ws://h.com:80/v1/x')) + tuple(
            ('host and %s' % b, {'host': 'h.com', 'basePath': b},
             'https://h.com' + b) for b in ODD) + tuple(
            ('only %s' % b, {'basePath': b}, b) for b in ODD):
        ck.ob('server ' + n, R, lambda: doc(
            ck, s, {'servers': Pred('a server at %s first' % e, lambda st, v:
                                    first(ck, st, v, e))}))

    R = 'security schemes are expressed as 3.0.0 defines'
    D = {'description': text('d')}
    for n, s, e in (
            ('basic', {'type': 'basic'}, {'type': 'http', 'scheme': 'basic'}),
            ('basic description', dict(D, type='basic'),
             dict(D, type='http', scheme='basic')),
            ('apiKey', {'type': 'apiKey', 'name': text('n'), 'in': text('i')},
             {'type': 'apiKey', 'name': text('n'), 'in': text('i')}),
            ('apiKey description', dict(D, **{
                'type': 'apiKey', 'name': text('n'), 'in': 'header'}),
             dict(D, **{'type': 'apiKey', 'name': text('n'),
                        'in': 'header'}))):
        ck.ob('scheme ' + n, R, lambda: conv(
            ck, 'to_security_scheme', 'SecurityScheme', s, e))
    s1, s2 = member('s1', 'scope'), member('s2', 'scope')
    sc = {s1: text('sd1'), s2: text('sd2')}
    U = {'authorizationUrl': text('au'), 'tokenUrl': text('tu')}
    for f, e, us in (('implicit', 'implicit', ('authorizationUrl', )),
                     ('password', 'password', ('tokenUrl', )),
                     ('application', 'clientCredentials', ('tokenUrl', )),
                     ('accessCode', 'authorizationCode', (
                         'authorizationUrl', 'tokenUrl'))):
        u = {k: U[k] for k in us}
        for n, s in (('', sc), (' no scopes', {}), (' without', None)):
            src = dict(u, type='oauth2', flow=f)
            if s is not None:
                src['scopes'] = s
            ck.ob('scheme oauth2.%s%s' % (f, n), R, lambda: conv(
                ck, 'to_security_scheme', 'SecurityScheme', src,
                {'type': 'oauth2', 'flows': {e: dict(u, scopes=s or {})}}))
        ck.ob('scheme oauth2.%s description' % f, R, lambda: conv(
            ck, 'to_security_scheme', 'SecurityScheme',
            dict(dict(u, type='oauth2', flow=f, scopes=sc), **D),
            dict(D, type='oauth2', flows={e: dict(u, scopes=sc)})))
    def noflow():
        L = ck.lab
        st = L.S()
        o = L.new(st, 'o20', 'SecurityScheme', {'type': 'oauth2',
                                                'scopes': {}}, '#/s')
        raises(ck, L.call(st, L.name('c20', 'to_security_scheme'), o, '#/s'),
               ('SchemaError', ), 'oauth2 without a flow')
    ck.ob('scheme oauth2 without flow', 'an unusable scheme is refused',
          noflow)
    k1, k2, k3 = (member(x, 'sdef') for x in ('k1', 'k2', 'k3'))
    ck.ob('doc.securityDefinitions', R, lambda: doc(
        ck, {'securityDefinitions': {
            k1: {'type': 'basic'}, k2: {'type': 'apiKey', 'name': text('n'),
                                        'in': 'query'},
            k3: dict(U, type='oauth2', flow='accessCode', scopes=sc)}},
        {'components': {'securitySchemes': {
            k1: {'type': 'http', 'scheme': 'basic'},
            k2: {'type': 'apiKey', 'name': text('n'), 'in': 'query'},
            k3: {'type': 'oauth2', 'flows': {
                'authorizationCode': dict(U, scopes=sc)}}}}}))
    R = 'definitions become shared schemas under their names'
    ck.ob('doc.definitions', R, lambda: doc(
        ck, {'definitions': {k1: {'type': 'string'}, k2: {'$ref': text('r')},
                             k3: {'discriminator': text('x')}}},
        {'components': {'schemas': {
            k1: {'type': 'string'}, k2: {'$ref': text('r')},
            k3: {'discriminator': {'propertyName': text('x')}}}}}))
    ck.ob('doc.everything', 'the parts of a document do not disturb each '
          'other', lambda: doc(
              ck, {'swagger': '2.0', 'info': dict(T, **opt), 'tags': tags,
                   'externalDocs': ed, 'security': secs['or'],
                   'host': 'h.com', 'basePath': '/v1',
                   'paths': {u1: {'get': full}},
                   'definitions': {k1: {'type': 'string'}},
                   'parameters': {k2: {'name': text('pn'), 'in': 'query'}},
                   'responses': {k3: D},
                   'securityDefinitions': {a: {'type': 'basic'}}},
              {'openapi': '3.0.0', 'info': dict(T, **opt), 'tags': tags,
               'externalDocs': ed, 'security': secs['or'],
               'paths': {u1: {'get': full}},
               'components': {
                   'schemas': {k1: {'type': 'string'}},
                   'parameters': {k2: {'name': text('pn'), 'in': 'query'}},
                   'responses': {k3: D},
                   'securitySchemes': {a: {'type': 'http',
                                           'scheme': 'basic'}}}}))
    whole(ck, ('meta', ), META + (
        'info', 'd.tags', 'd.externalDocs', 'd.security', 'd.schemes', 'host',
        'basePath', 'definitions', 'securityDefinitions', 'p.put', 'p.2'),
          'metadata does not depend on anything else')
    ck.ob('doc.extension path', 'an extension among the paths is refused',
          lambda: ext(ck))


def first(ck, st, v, e):
    r = ck.lab.rec(st, v)
    if not isinstance(r, ListR) or r.opaque is not None:
        raise Undecided('servers')
    return bool(r.items) and r.items[0][1] and not ck.lab.diff(
        st, Sub({'url': e}), r.items[0][0])


def ext(ck):
    L = ck.lab
    st = L.S()
    o = L.new(st, 'o20', 'Swagger', {'paths': {cat('x-', text('e')): {
        'get': {}}}}, '#')
    raises(ck, L.call(st, L.name('c20', 'to_openapi'), o, '#'),
           ('SchemaError', ), 'an extension among paths')
