"""responses of 2.0 become responses of 3.0.0"""
from .common import *  # noqa
from .whole import whole


def resp(ck, spec, produces, exp, prep=None):
    L = ck.lab
    st = L.S()
    o = L.new(st, 'o20', 'Response', spec, '#/r')
    v = convert(ck, st, 'to_response', o, L.mk(st, produces), '#/r')
    L.expect(st, exp, v, 'to_response')


def op(ck, responses, exp, produces=None, inherited=None, prep=None):
    L = ck.lab
    st = L.S()
    spec = {'responses': responses}
    if produces is not None:
        spec['produces'] = produces
    o = L.new(st, 'o20', 'Operation', spec, '#/o')
    if prep:
        prep(st, L.attr(st, o, 'responses'))
    kw = {}
    if inherited is not None:
        kw['produces'] = inherited
    v = convert(ck, st, 'to_operation', o, None, text('root'), '#/o', **kw)
    L.expect(st, {'responses': exp}, v, 'to_operation')


def doc(ck, build, exp):
    L = ck.lab
    st = L.S()
    o = L.new(st, 'o20', 'Swagger', build, '#')
    v = L.sure(L.call(st, L.name('c20', 'to_openapi'), o, '#'), 'to_openapi')
    L.expect(st, Sub(exp), L.item(st, v, 0), 'to_openapi')


def check(ck):
    ck.floor = 60
    m1, m2, m3 = (member(x, 'mime') for x in ('m1', 'm2', 'm3'))
    p1, p2 = member('p1', 'prop'), member('p2', 'prop')
    D = {'description': text('d')}
    schemas = {
        'scalar': ({'type': 'string', 'maximum': num('m')}, ) * 2,
        'untyped': ({'title': text('t')}, ) * 2,
        'object': ({'type': 'object', 'properties': {
            p1: {'type': 'string'}, p2: {'discriminator': text('dd')}}},
            {'type': 'object', 'properties': {
                p1: {'type': 'string'},
                p2: {'discriminator': {'propertyName': text('dd')}}}}),
        'array': ({'type': 'array', 'items': {'$ref': text('r')}}, ) * 2,
        'ref': ({'$ref': text('r')}, ) * 2,
        'all': ({k: f('s.') for k, f in SCALARS_SCHEMA.items()}, ) * 2,
    }
    R = 'the schema of a response is given for every produced media type'
    for sn, (s, e) in schemas.items():
        b = dict(D, schema=s)
        for cn, own, inh, mts in (
                ('own', [m1, m2], None, [m1, m2]),
                ('inherited', None, [m1, m2, m3], [m1, m2, m3]),
                ('own wins', [m1], [m2, m3], [m1])):
            ck.ob('%s produces=%s' % (sn, cn), R, lambda: op(
                ck, {text('code'): b}, {text('code'): dict(
                    D, content={m: {'schema': e} for m in mts})}, own, inh))
        mt = 'application/json' if sn == 'object' else 'text/plain'
        for pr in ([], None):
            if pr is not None:
                ck.ob('%s produces nothing (own wins)' % sn, 'without a media '
                      'type the schema is still given', lambda: op(
                          ck, {text('code'): b}, {text('code'): dict(
                              D, content=Pred(
                                  'one media type with the schema',
                                  lambda st, v: one(
                                      ck, st, v, e, mt if sn in (
                                          'object', 'scalar') else None)))},
                          pr, [m1, m2]))
            ck.ob('%s produces nothing (%s)' % (sn, pr), 'without a media '
                  'type the schema is still given', lambda: op(
                      ck, {text('code'): b}, {text('code'): dict(
                          D, content=Pred(
                              'one media type with the schema',
                              lambda st, v: one(ck, st, v, e, mt if sn in (
                                  'object', 'scalar') else None)))}, pr))
    R = 'a response without schema has no content'
    ck.ob('no schema', R, lambda: op(ck, {text('code'): D}, {text('code'): D},
                                     [m1]))
    ck.ob('no schema, inherited', R, lambda: op(
        ck, {text('code'): D}, {text('code'): D}, None, [m1, m2]))
    R = 'every response is kept under its own status'
    c1, c2, c3 = (member(x, 'code') for x in ('c1', 'c2', 'c3'))
    ck.ob('three responses', R, lambda: op(
        ck, {c1: dict(D, schema={'type': 'string'}), c2: {
            'description': text('d2')}, c3: {'description': text('d3'),
                                             'schema': {'$ref': text('r')}}},
        {c1: dict(D, content={m1: {'schema': {'type': 'string'}}}),
         c2: {'description': text('d2')},
         c3: {'description': text('d3'), 'content': {m1: {'schema': {
             '$ref': text('r')}}}}}, [m1]))
    R = 'a file response is binary'
    for pr in (None, [m1]):
        ck.ob('file %s' % (pr, ), R, lambda: op(
            ck, {c1: dict(D, schema={'type': 'file'})},
            {c1: dict(D, content=Pred(
                'binary content', lambda st, v: filec(ck, st, v)))}, pr))
    R = 'a header of a response keeps every keyword in its schema'
    h1, h2 = member('h1', 'hdr'), member('h2', 'hdr')

    def hdr(ob, spec, exp):
        ck.ob('header.' + ob, R, lambda: op(
            ck, {c1: dict(D, headers={h1: spec, h2: {'type': 'integer'}})},
            {c1: dict(D, headers={h1: exp, h2: {'schema': {
                'type': 'integer'}}})}, [m1]))
    for k, f in SCALARS_BASE.items():
        hdr(k, {'type': 'string', k: f('h.')},
            {'schema': {'type': 'string', k: f('h.')}})
    hdr('enum', {'enum': enum('e')}, {'schema': {'enum': enum('e')}})
    hdr('description', {'type': 'string', 'description': text('hd')},
        {'description': text('hd'), 'schema': {'type': 'string'}})
    full = base_full('h.', 'array')
    full['items'] = items_full('h.i.')
    hdr('all', dict(full, description=text('hd')),
        dict({'description': text('hd'), 'schema': full}, **style('header')))
    for k in ('maximum', 'minimum', 'maxLength', 'default'):
        hdr(k + '=0', {k: 0}, {'schema': {k: 0}})
    ck.ob('headers and schema', R, lambda: op(
        ck, {c1: dict(D, headers={h1: {'type': 'string'}},
                      schema={'type': 'string'})},
        {c1: dict(D, headers={h1: {'schema': {'type': 'string'}}},
                  content={m1: {'schema': {'type': 'string'}}})}, [m1]))

    H = ({'type': 'string'}, {'schema': {'type': 'string'}})
    for pr in (None, [], [m1], [m1, m2], [m1, m2, m3]):
        n = 'with %s media types' % (pr if pr is None else len(pr))
        for x in (D, {'description': ''}):
            ck.ob('file and headers %s%s' % (n, ' no text' * (x is not D)), R,
                  lambda: op(ck, {c1: dict(x, schema={'type': 'file'}, headers={
                      h1: H[0]})}, {c1: dict(x, headers={h1: H[1]}, content=Pred(
                          'binary content', lambda st, v: filec(ck, st, v)))},
                      pr))
            ck.ob('schema and headers %s%s' % (n, ' no text' * (x is not D)),
                  R, lambda: op(
                      ck, {c1: dict(x, schema=D, headers={h1: H[0]})},
                      {c1: dict(x, headers={h1: H[1]}, content=Pred(
                          'the schema', lambda st, v: one(ck, st, v, D, None))
                          if not pr else {m: {'schema': D} for m in pr})}, pr))
            ck.ob('headers %s%s' % (n, ' no text' * (x is not D)), R,
                  lambda: op(ck, {c1: dict(x, headers={h1: H[0]})},
                             {c1: dict(x, headers={h1: H[1]})}, pr))
    R = 'a reference to a response stays one, unless its media types depend '\
        'on the operation'
    RS = 'ReferenceAttributeGroup'

    def to(spec):
        def f(st, rs):
            L = ck.lab
            link(ck, st, L.item(st, rs, c1), L.new(st, 'o20', 'Response', spec,
                                                   '#/responses/x'))
        return f
    other = {'description': text('d2')}
    ck.ob('$ref without schema', R, lambda: op(
        ck, {c1: {'$ref': cat('#/responses/', text('ref'))}, c2: other},
        {c1: {'$ref': cat('#/responses/', text('ref'))}, c2: other}, [m1], None, to(D)))
    ck.ob('$ref with schema', R, lambda: op(
        ck, {c1: {'$ref': cat('#/responses/', text('ref'))}, c2: other},
        {c1: dict(D, content={m1: {'schema': {'$ref': text('r')}},
                              m2: {'schema': {'$ref': text('r')}}}),
         c2: other}, [m1, m2], None, to(dict(D, schema={'$ref': text('r')}))))
    ck.ob('$ref with headers', R, lambda: op(
        ck, {c1: {'$ref': cat('#/responses/', text('ref'))}, c2: other},
        {c1: dict(D, content={m1: {'schema': {'type': 'string'}}},
                  headers={h1: {'schema': {'type': 'string'}}}), c2: other},
        [m1], None, to(dict(D, schema={'type': 'string'},
                            headers={h1: {'type': 'string'}}))))
    for n, t in {
            'headers': dict(D, headers={h1: {'type': 'string'}}),
            'two headers': dict(D, headers={h1: {'type': 'string'}, h2: {
                'type': 'array', 'items': {'type': 'integer'}}}),
            'empty headers': dict(D, headers={}),
            'examples': dict(D, examples={text('em'): text('ev')}),
            'all but a schema': dict(D, headers={h1: {'type': 'string'}},
                                     examples={text('em'): text('ev')}),
            'nothing': D}.items():
        for pr, inh in (([m1], None), (None, [m1]), (None, None), ([], None)):
            ck.ob('$ref to %s %s/%s' % (n, pr, inh), R, lambda: op(
                ck, {c1: {'$ref': '#/responses/x'}, c2: other},
                {c1: {'$ref': '#/responses/x'}, c2: other}, pr, inh, to(t)))
    for n, x in foreign_schemas():
        ck.ob('response of another document, %s' % n, 'references of a '
              'response from another document still lead there',
              lambda: foreign(ck, x))
    R = 'the number of responses, headers and media types does not matter'
    ms = [member('m%d' % i, 'mimes') for i in range(4)]
    cs = [member('c%d' % i, 'codes') for i in range(4)]
    hs = [member('h%d' % i, 'hdrs') for i in range(4)]
    for n in range(1, 5):
        for k in range(1, 5):
            ck.ob('%d responses, %d media types' % (n, k), R, lambda: op(
                ck, {c: {'description': text('d%d' % i),
                         'schema': {'title': text('t%d' % i)}}
                     for i, c in enumerate(cs[:n])},
                {c: {'description': text('d%d' % i), 'content': {
                    m: {'schema': {'title': text('t%d' % i)}}
                    for m in ms[:k]}}
                 for i, c in enumerate(cs[:n])}, ms[:k]))
            ck.ob('%d responses, %d headers' % (n, k), R, lambda: op(
                ck, {c: {'description': text('d%d' % i), 'headers': {
                    h: {'type': 'string', 'format': text('f%d%d' % (i, j))}
                    for j, h in enumerate(hs[:k])}}
                     for i, c in enumerate(cs[:n])},
                {c: {'description': text('d%d' % i), 'headers': {
                    h: {'schema': {'type': 'string',
                                   'format': text('f%d%d' % (i, j))}}
                    for j, h in enumerate(hs[:k])}}
                 for i, c in enumerate(cs[:n])}, [m1]))
    R = 'statuses, header names and media types are kept as they are'
    for c in ('200', 'default', '404', '1', '2XX', '500'):
        ck.ob('status ' + c, R, lambda: op(
            ck, {c: dict(D, schema={'type': 'string'}), '201': other},
            {c: dict(D, content={m1: {'schema': {'type': 'string'}}}),
             '201': other}, [m1]))
    for h in ('X-Rate-Limit', 'Content-Type', 'Location', 'x-low', 'ETag',
              'a', 'schema', 'description', 'Authorization', 'Accept'):
        ck.ob('header ' + h, R, lambda: op(
            ck, {c1: dict(D, headers={h: {'type': 'string'}})},
            {c1: dict(D, headers={h: {'schema': {'type': 'string'}}})}, [m1]))
    for m in ('application/xml', 'text/plain', 'application/json', '*/*',
              'application/json; charset=utf-8', 'image/*', 'text/a+b',
              'application/vnd.x.v1+json', 'application/octet-stream', MULTI,
              URLENC):
        for pr, inh in (([m], None), (None, [m]), ([m, 'text/z'], None),
                        (['text/z', m], None), ([m], ['text/z'])):
            ck.ob('media type %s/%s' % (pr, inh), R, lambda: op(
                ck, {c1: dict(D, schema={'type': 'object'})},
                {c1: dict(D, content={x: {'schema': {'type': 'object'}}
                                      for x in (pr or inh)})}, pr, inh))
    R = 'a header of a response keeps every keyword in its schema'
    words = {k: f('hp.') for k, f in SCALARS_BASE.items()}
    words.update({'enum': enum('he'), 'description': text('hd'),
                  'type': 'string', 'items': {'type': 'string'}})
    ks = sorted(words)
    for i, x in enumerate(ks):
        for y in ks[:i]:
            e = {k: words[k] for k in (x, y) if k == 'description'}
            e['schema'] = {k: words[k] for k in (x, y) if k != 'description'}
            ck.ob('header.%s+%s' % (y, x), R, lambda: op(
                ck, {c1: dict(D, headers={h1: {x: words[x], y: words[y]}})},
                {c1: dict(D, headers={h1: e})}, [m1]))
    whole(ck, ('responses', ), ('responses', 'd.responses', 'produces',
                                'd.produces'),
          'responses depend on the media types alone')
    R = 'shared responses are converted in place'
    r1, r2, r3 = (member(x, 'rs') for x in ('r1', 'r2', 'r3'))
    ck.ob('shared', R, lambda: doc(
        ck, {'produces': [m1], 'responses': {
            r1: dict(D, schema={'type': 'string'}), r2: other}},
        {'components': {'responses': {
            r1: dict(D, content={m1: {'schema': {'type': 'string'}}}),
            r2: other}}}))
    # one or more media types of the document, shared and direct responses,
    # and operations that have their own
    for ms in ([m1], [m1, m2], [m2, m1, m3], ['*/*', m1], ['a/b', 'c/d+json'],
               ['application/json', 'text/plain']):
        for own in (None, [m3], [m2, m3], ['text/plain', 'a/b', 'x/y']):
            for sn, (s, e) in schemas.items():
                def each(ms=ms, own=own, s=s, e=e):
                    b = dict(D, schema=s)
                    w = {'produces': own} if own else {}

                    def c(x):
                        return dict(D, content={m: {'schema': e} for m in x})
                    doc(ck, {'produces': ms, 'responses': {
                        r1: b, r2: dict(D, schema={'type': 'integer'}),
                        r3: D}, 'paths': {'/q': {
                            'get': dict(w, responses={c1: b, c2: D}),
                            'put': {'responses': {c1: b}}}}},
                        {'components': {'responses': {
                            r1: c(ms), r2: dict(D, content={
                                m: {'schema': {'type': 'integer'}}
                                for m in ms}), r3: D}},
                         'paths': {'/q': {
                             'get': {'responses': {c1: c(own or ms), c2: D}},
                             'put': {'responses': {c1: c(ms)}}}}})
                ck.ob('shared %s %s, own %s' % (sn, ms, own), R, each)
    ck.ob('document produces', 'media types of the document apply to '
          'operations without their own', lambda: doc(
              ck, {'produces': [m1, m2], 'paths': {
                  cat('/', word('u')): {
                      'get': {'responses': {c1: dict(D, schema={
                          'type': 'string'})}},
                      'post': {'produces': [m3], 'responses': {
                          c1: dict(D, schema={'type': 'string'})}}}}},
              {'paths': {cat('/', word('u')): {
                  'get': {'responses': {c1: dict(D, content={
                      m1: {'schema': {'type': 'string'}},
                      m2: {'schema': {'type': 'string'}}})}},
                  'post': {'responses': {c1: dict(D, content={
                      m3: {'schema': {'type': 'string'}}})}}}}}))


def foreign(ck, schema):
    L = ck.lab
    st = L.S()
    c = text('code')
    o = L.new(st, 'o20', 'Operation', {'produces': ['text/a', 'text/b'],
                                       'responses': {
        c: {'$ref': 'other.json#/responses/r'}}}, '#/o')
    t = L.new(st, 'o20', 'Response', {'description': text('d'),
                                      'schema': schema}, '#/responses/r')
    exp = absolute(ck, st, L.attr(st, t, 'schema'), schema)
    link(ck, st, L.item(st, L.attr(st, o, 'responses'), c), t)
    v = convert(ck, st, 'to_operation', o, None, text('root'), '#/o')
    L.expect(st, {'responses': {c: {'description': text('d'), 'content': {
        m: {'schema': exp} for m in ('text/a', 'text/b')}}}}, v,
        'to_operation')


def entries(ck, st, v):
    r = ck.lab.rec(st, v)
    if not isinstance(r, DictR) or r.opaque is not None:
        raise Undecided('content')
    if not all(x[1] for x in r.d.values()):
        return None
    return [(k, x[0]) for k, x in r.d.items()]


def one(ck, st, v, e, mt):
    es = entries(ck, st, v)
    if es is None or len(es) != 1:
        return False
    if mt and es[0][0] != Const(mt):
        return False
    return not ck.lab.diff(st, {'schema': e}, es[0][1])


def filec(ck, st, v):
    es = entries(ck, st, v)
    return bool(es) and all(not ck.lab.diff(st, {'schema': {
        'type': 'string', 'format': 'binary'}}, x) for _, x in es)
