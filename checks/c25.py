"""parameters of 2.0 become parameters or request bodies of 3.0.0"""
from .common import *  # noqa
from .whole import whole

PP = '#/paths/~1x/get/parameters/0'


ODD = ('', 'a b', '0', 'in', 'body', 'schema', '$ref', 'X-Y', 'a/b', 'a~b',
       'n\u00e9', 'A', 'a.b[]', 'x-e', 'default', 'properties')


def pairs(d):
    ks = sorted(d)
    return [(a, b) for i, a in enumerate(ks) for b in ks[i + 1:]]


def nonbody(ck, spec, exp, route='parameter'):
    L = ck.lab
    st = L.S()
    if route == 'parameter':
        o = L.new(st, 'o20', 'Parameter', spec, PP)
        v = convert(ck, st, 'to_parameter', o, PP)
        L.expect(st, exp, v, 'to_parameter')
    elif route == 'operation':
        o = L.new(st, 'o20', 'Operation', {'parameters': [
            {'name': text('n0'), 'in': 'header', 'type': 'string'}, spec,
            {'name': text('n2'), 'in': 'query', 'type': 'integer'}]}, '#/o')
        v = convert(ck, st, 'to_operation', o, None, text('root'), '#/o')
        L.expect(st, {'parameters': [
            {'name': text('n0'), 'in': 'header', 'schema': {'type': 'string'}},
            exp,
            {'name': text('n2'), 'in': 'query', 'schema': {'type': 'integer'}},
        ]}, v, 'to_operation')
    elif route == 'pathitem':
        o = L.new(st, 'o20', 'PathItem', {'parameters': [
            spec, {'name': text('n2'), 'in': 'query', 'type': 'integer'}],
            'get': {'parameters': [spec]}}, '#/p')
        v = L.sure(L.call(st, L.name('c20', 'to_path_item'), o, text('root'),
                          '#/p'), 'to_path_item')
        L.expect(st, {'parameters': [exp, {
            'name': text('n2'), 'in': 'query', 'schema': {'type': 'integer'}}],
            'get': {'parameters': [exp]}}, L.item(st, v, 0), 'to_path_item')
    else:
        k, k2 = member('k', 'pk'), member('k2', 'pk')
        o = L.new(st, 'o20', 'Swagger', {'parameters': {
            k: spec, k2: {'name': text('n2'), 'in': 'query',
                          'type': 'integer'}}}, '#')
        v = L.sure(L.call(st, L.name('c20', 'to_openapi'), o, '#'),
                   'to_openapi')
        L.expect(st, Sub({'components': {'parameters': {
            k: exp, k2: {'name': text('n2'), 'in': 'query',
                         'schema': {'type': 'integer'}}}}}),
            L.item(st, v, 0), 'to_openapi')


def below(ck, params, path, doc, own, form, n):
    """an operation with a body, of a path with parameters of its own"""
    L = ck.lab
    st = L.S()
    sch = {'title': text('bt')}
    b = [{'name': 'f', 'in': 'formData', 'type': 'string'} if form else
         {'name': 'b', 'in': 'body', 'schema': sch}]
    mts = own if own is not None else doc
    if form:
        e = {'content': {m: {'schema': {'properties': {'f': {
            'type': 'string'}}}, 'encoding': ANY} for m in mts or [URLENC]}}
    else:
        e = {'content': {m: {'schema': sch} for m in mts or [JSONT]}}
    spec = {'parameters': path}
    exp = {}
    for m in ('put', 'post', 'get')[:n]:
        spec[m] = {'parameters': b + params}
        exp[m] = {'requestBody': e}
        if own is not None:
            spec[m]['consumes'] = own
        if params:
            exp[m]['parameters'] = [as3(p) for p in params]
    if path:
        exp['parameters'] = [as3(p) for p in path]
    o = L.new(st, 'o20', 'Swagger', dict({'paths': {'/x': spec}}, **(
        {'consumes': doc} if doc is not None else {})), '#')
    v = L.sure(L.call(st, L.name('c20', 'to_openapi'), o, '#'), 'to_openapi')
    L.expect(st, {'/x': exp}, L.item(st, L.item(st, v, 0), 'paths'), 'paths')


def as3(p):
    return {'name': p['name'], 'in': p['in'], 'schema': {'type': p['type']}}


JSONT = 'application/json'


def op(ck, params, exp, consumes=None, inherited=None, extra=None, link_=None):
    """an operation with these parameters gets that request body"""
    L = ck.lab
    st = L.S()
    spec = {'parameters': params}
    if consumes is not None:
        spec['consumes'] = consumes
    o = L.new(st, 'o20', 'Operation', spec, '#/o')
    if link_:
        link_(st, L.attr(st, o, 'parameters'))
    kw = {}
    if inherited is not None:
        kw['consumes'] = inherited
    v = convert(ck, st, 'to_operation', o, None, text('root'), '#/o', **kw)
    e = dict(extra or {})
    if exp is not None:
        e['requestBody'] = exp
    L.expect(st, e, v, 'to_operation')


def op_raises(ck, params, what, consumes=None):
    L = ck.lab
    st = L.S()
    spec = {'parameters': params}
    if consumes:
        spec['consumes'] = consumes
    o = L.new(st, 'o20', 'Operation', spec, '#/o')
    out = L.call(st, L.name('c20', 'to_operation'), o, None, text('root'),
                 '#/o')
    raises(ck, out, ('SchemaError', ), what)


def check(ck):
    ck.floor = 90
    R = 'a query/header/path parameter keeps every keyword'
    for in_ in ('query', 'header', 'path'):
        ck.ob('%s.minimal' % in_, R, lambda: nonbody(
            ck, {'name': text('n'), 'in': in_}, {'name': text('n'), 'in': in_}))
        for k, f in SCALARS_BASE.items():
            ck.ob('%s.%s' % (in_, k), R, lambda: nonbody(
                ck, {'name': text('n'), 'in': in_, k: f('p.')},
                {'name': text('n'), 'in': in_, 'schema': {k: f('p.')}}))
        for k in ('maximum', 'minimum', 'maxLength', 'minLength', 'maxItems',
                  'minItems', 'default'):
            ck.ob('%s.%s=0' % (in_, k), R, lambda: nonbody(
                ck, {'name': text('n'), 'in': in_, k: 0},
                {'name': text('n'), 'in': in_, 'schema': {k: 0}}))
        for k in ('exclusiveMaximum', 'exclusiveMinimum', 'uniqueItems',
                  'default'):
            ck.ob('%s.%s=False' % (in_, k), R, lambda: nonbody(
                ck, {'name': text('n'), 'in': in_, k: False},
                {'name': text('n'), 'in': in_, 'schema': {k: False}}))
        for k in ('description', 'required', 'allowEmptyValue'):
            v = text('d') if k == 'description' else boolean(k)
            ck.ob('%s.%s' % (in_, k), R, lambda: nonbody(
                ck, {'name': text('n'), 'in': in_, k: v},
                {'name': text('n'), 'in': in_, k: v}))
        ck.ob('%s.enum' % in_, R, lambda: nonbody(
            ck, {'name': text('n'), 'in': in_, 'enum': enum('e')},
            {'name': text('n'), 'in': in_, 'schema': {'enum': enum('e')}}))
        for t in ('string', 'number', 'integer', 'boolean', 'array'):
            ck.ob('%s.type=%s' % (in_, t), R, lambda: nonbody(
                ck, {'name': text('n'), 'in': in_, 'type': t},
                dict({'name': text('n'), 'in': in_, 'schema': {'type': t}},
                     **(style(in_) if t == 'array' else {}))))
        for route in ('parameter', 'operation', 'pathitem', 'root'):
            for t in ('array', 'string'):
                ck.ob('%s.all(%s) via %s' % (in_, t, route), R,
                      lambda: nonbody(ck, *param_full('p.', in_, t),
                                      route=route))

    words = {k: f('pp.') for k, f in SCALARS_BASE.items()}
    words.update({'type': 'string', 'enum': enum('pe'),
                  'items': {'type': 'string'}, 'description': text('pd'),
                  'required': boolean('pr'),
                  'allowEmptyValue': boolean('pa')})
    TOP = ('description', 'required', 'allowEmptyValue')
    for in_ in ('query', 'header', 'path'):
        for a, b_ in pairs(words):
            def two():
                src = {'name': text('n'), 'in': in_}
                exp = dict(src)
                for k in (a, b_):
                    src[k] = words[k]
                    if k in TOP:
                        exp[k] = words[k]
                    else:
                        exp.setdefault('schema', {})[k] = words[k]
                nonbody(ck, src, exp)
            ck.ob('%s.%s+%s' % (in_, a, b_), R, two)
    for n in ODD:
        ck.ob('parameter named %r' % n, R, lambda: nonbody(
            ck, {'name': n, 'in': 'query', 'type': 'string'},
            {'name': n, 'in': 'query', 'schema': {'type': 'string'}},
            'operation'))

    R = 'a body parameter becomes the request body of every media type'
    m1, m2, m3 = (member(x, 'mime') for x in ('m1', 'm2', 'm3'))
    sch = {
        'scalar': ({'type': 'string', 'maxLength': integer('ml')}, ) * 2,
        'object': ({'type': 'object', 'properties': {member('p', 'g'): {
            'discriminator': text('d')}}},
            {'type': 'object', 'properties': {member('p', 'g'): {
                'discriminator': {'propertyName': text('d')}}}}),
        'array': ({'type': 'array', 'items': {'$ref': text('r')}}, ) * 2,
        'ref': ({'$ref': text('r')}, ) * 2,
        'all': ({k: f('s.') for k, f in SCALARS_SCHEMA.items()}, ) * 2,
    }
    for sn, (s, e) in sch.items():
        b = {'name': text('b'), 'in': 'body', 'schema': s}
        for cn, c, i, mt in (
                ('none', None, None, ['application/json']),
                ('own', [m1, m2], None, [m1, m2]),
                ('inherited', None, [m1, m2, m3], [m1, m2, m3]),
                ('own wins', [m1], [m2, m3], [m1]),
                ('own is empty', [], [m2, m3], ['application/json']),
                ('both form types', [URLENC, MULTI], None, [URLENC, MULTI])):
            ck.ob('body.%s consumes=%s' % (sn, cn), R, lambda: op(
                ck, [b], {'content': {m: {'schema': e} for m in mt}}, c, i))
    b = {'name': text('b'), 'in': 'body', 'schema': {'type': 'string'}}
    MIMES = ('application/xml', 'application/json', 'text/plain', '*/*',
             'application/json; charset=utf-8', 'application/vnd.a+json',
             'image/*', 'application/octet-stream', MULTI, URLENC)
    for m in MIMES:
        for c, i in (([m], None), (None, [m]), ([m], ['text/a']),
                     (['text/a', m], None), ([m, 'text/a'], None)):
            ck.ob('body %s %s' % (c, i), R, lambda: op(
                ck, [b], {'content': {x: {'schema': {'type': 'string'}}
                                      for x in (c or i)}}, c, i))
    for n in ODD:
        ck.ob('body named %r' % n, R, lambda: op(
            ck, [dict(b, name=n)], {'content': {m1: {'schema': {
                'type': 'string'}}}}, [m1]))
    q = [{'name': text('q%d' % i), 'in': ('query', 'header', 'path')[i % 3]}
         for i in range(4)]
    for n in range(1, 5):
        for at in range(n + 1):
            ck.ob('body at %d of %d' % (at, n + 1), R, lambda: op(
                ck, q[:at] + [b] + q[at:n], {'content': {m1: {'schema': {
                    'type': 'string'}}}}, [m1], extra={'parameters': q[:n]}))
    c = {'application/json': {'schema': {'type': 'string'}}}
    for r in (True, False):
        ck.ob('body.required=%s' % r, R, lambda: op(
            ck, [dict(b, required=r)],
            dict({'content': c}, **({'required': True} if r else
                                    {'required': Opt(False)}))))
    ck.ob('body.description', R, lambda: op(
        ck, [dict(b, description=text('d'))],
        {'content': c, 'description': text('d')}))
    ck.ob('body among parameters', R, lambda: op(
        ck, [{'name': text('q'), 'in': 'query'}, b,
             {'name': text('h'), 'in': 'header'}], {'content': c},
        extra={'parameters': [{'name': text('q'), 'in': 'query'},
                              {'name': text('h'), 'in': 'header'}]}))
    ck.ob('body twice', 'two bodies are refused', lambda: op_raises(
        ck, [b, dict(b, name=text('b2'))], 'a second body'))

    def to_body(st, ps):
        L = ck.lab
        t = L.new(st, 'o20', 'Parameter', dict(b, description=text('d'),
                                               required=True), '#/parameters/b')
        link(ck, st, L.item(st, ps, 0), t)
    ck.ob('body by reference', 'a referenced body is inlined, as its media '
          'types depend on the operation', lambda: op(
              ck, [{'$ref': text('ref')}],
              {'content': {m1: {'schema': {'type': 'string'}}},
               'description': text('d'), 'required': True}, [m1],
              link_=to_body))

    for n, x in foreign_schemas():
        ck.ob('body of another document, %s' % n, 'references of a body from '
              'another document still lead there', lambda: foreign(ck, x))

    def to_q(st, ps):
        L = ck.lab
        for i in (0, 1):
            link(ck, st, L.item(st, ps, i), L.new(
                st, 'o20', 'Parameter', {'name': text('n'), 'in': (
                    'query', 'header')[i]}, '#/parameters/b'))
    ck.ob('parameters by reference', 'a referenced parameter stays a '
          'reference', lambda: op(
              ck, [{'$ref': text('ref')}, {'$ref': text('ref1')},
                   {'name': text('z'), 'in': 'path'}], None, None,
              extra={'parameters': [
                  {'$ref': text('ref')}, {'$ref': text('ref1')},
                  {'name': text('z'), 'in': 'path'}]}, link_=to_q))

    R = 'form parameters become properties of the form schema'

    def fp(n, **kw):
        d = {'name': member(n, 'form'), 'in': 'formData', 'type': 'string'}
        d.update(kw)
        return d

    def form(props, req=None, encs=None):
        s = {'properties': props}
        if req is not None:
            s['required'] = req
        return {'schema': s, 'encoding': encs or {
            k: {'contentType': 'text/plain'} for k in props}}
    A, B, C = (member(x, 'form') for x in 'ABC')
    S = {'type': 'string'}
    for cn, c, i, mt in (
            ('none', None, None, [URLENC]),
            ('urlencoded', [URLENC], None, [URLENC]),
            ('multipart', [MULTI], None, [MULTI]),
            ('both', [URLENC, MULTI], None, [URLENC, MULTI]),
            ('both reversed', [MULTI, URLENC], None, [URLENC, MULTI]),
            ('mixed', ['application/json', MULTI, 'text/csv'], None, [MULTI]),
            ('unsuitable', ['application/json', 'text/csv'], None, [URLENC]),
            ('inherited', None, ['application/json', MULTI], [MULTI]),
            ('inherited unsuitable', None, ['application/json'], [URLENC]),
            ('own wins', [URLENC], [MULTI], [URLENC]),
            ('own is empty', [], [MULTI], [URLENC])):
        ck.ob('form consumes=%s' % cn, R, lambda: op(
            ck, [fp('A', required=True), fp('B'), fp('C', required=True)],
            {'required': True, 'content': {
                m: form({A: S, B: S, C: S}, [A, C]) for m in mt}}, c, i))
    ck.ob('form optional', R, lambda: op(
        ck, [fp('A'), fp('B', required=False)],
        {'content': {URLENC: form({A: S, B: S})},
         'required': Opt(False)}))
    for k, f in SCALARS_BASE.items():
        ck.ob('form.%s' % k, R, lambda: op(
            ck, [fp('A', **{k: f('f.')})],
            {'content': {URLENC: form({A: {'type': 'string', k: f('f.')}})}}))
    fwords = {k: f('fp.') for k, f in SCALARS_BASE.items()}
    fwords.update({'enum': enum('fe'), 'description': text('fd'),
                   'required': True, 'allowEmptyValue': True,
                   'type': 'integer'})
    for x, y in pairs(fwords):
        def ftwo():
            d = {k: fwords[k] for k in (x, y)}
            prop = dict(S, **{k: v for k, v in d.items() if k not in (
                'required', 'allowEmptyValue')})
            if 'allowEmptyValue' in d:
                prop['nullable'] = True
            e = {'content': {URLENC: form(
                {A: prop, B: S}, [A] if 'required' in d else None)}}
            if 'required' in d:
                e['required'] = True
            op(ck, [fp('A', **d), fp('B')], e)
        ck.ob('form.%s+%s' % (x, y), R, ftwo)
    for x in fwords:
        def frest():
            d = {k: v for k, v in fwords.items() if k != x}
            prop = dict(S, **{k: v for k, v in d.items() if k not in (
                'required', 'allowEmptyValue')})
            if 'allowEmptyValue' in d:
                prop['nullable'] = True
            e = {'content': {URLENC: form(
                {B: S, A: prop}, [A] if 'required' in d else None)}}
            if 'required' in d:
                e['required'] = True
            op(ck, [fp('B'), fp('A', **d)], e)
        ck.ob('form.all but %s' % x, R, frest)
    for n in ODD:
        ck.ob('form field named %r' % n, R, lambda: op(
            ck, [dict(fp('A'), name=n, required=True), dict(fp('B'), name='zz')],
            {'required': True, 'content': {URLENC: form(
                {n: S, 'zz': S}, [n])}}))
    many = [member('f%d' % i, 'form') for i in range(4)]
    for n in range(1, 5):
        for rq in range(2 ** n):
            names = [x for i, x in enumerate(many[:n]) if rq >> i & 1]
            ck.ob('form of %d, required %s' % (n, bin(rq)), R, lambda: op(
                ck, [dict(fp('f%d' % i), required=bool(rq >> i & 1))
                     for i in range(n)],
                dict({'content': {URLENC: form(
                    {x: S for x in many[:n]}, names or None)}},
                    **({'required': True} if names else
                       {'required': Opt(False)}))))
    CSV = dict(style('formData'), contentType='text/plain')
    full = base_full('f.', 'array')
    full['items'] = items_full('f.i.')
    ck.ob('form all keywords', R, lambda: op(
        ck, [dict(full, **{'name': A, 'in': 'formData', 'description':
                           text('d')})],
        {'content': {URLENC: form({A: dict(full, description=text('d'))},
                                  None, {A: CSV})}}))
    ck.ob('form allowEmptyValue', R, lambda: op(
        ck, [fp('A', allowEmptyValue=True), fp('B', allowEmptyValue=False),
             fp('C')],
        {'content': {URLENC: form({A: dict(S, nullable=True), B: S, C: S})}}))
    ck.ob('form beside others', R, lambda: op(
        ck, [fp('A'), {'name': text('q'), 'in': 'query'}, fp('B')],
        {'content': {URLENC: form({A: S, B: S})}},
        extra={'parameters': [{'name': text('q'), 'in': 'query'}]}))
    ck.ob('form twice', 'a repeated form field is refused', lambda: op_raises(
        ck, [fp('A'), fp('A', type='integer')], 'a repeated form field'))

    R = 'file parameters become binary properties of a multipart form'
    F = {'type': 'string', 'format': 'binary'}
    OCT = {'contentType': 'application/octet-stream'}
    fl = fp('F', type='file')
    G = member('F', 'form')
    for cn, c, i, mt in (
            ('none', None, None, MULTI), ('multipart', [MULTI], None, MULTI),
            ('unsuitable', ['application/json'], None, MULTI),
            ('inherited', None, [MULTI], MULTI),
            ('mixed', ['application/json', MULTI], None, MULTI)):
        ck.ob('file consumes=%s' % cn, R, lambda: op(
            ck, [dict(fl, required=True)],
            {'required': True, 'content': {mt: form({G: F}, [G], {G: OCT})}},
            c, i))
    for cn, c, i in (('own', [MULTI], None), ('inherited', None, [MULTI])):
        ck.ob('file and fields consumes=%s' % cn, R, lambda: op(
            ck, [fp('A', required=True), fl, fp('B')],
            {'required': True, 'content': {MULTI: form(
                {A: S, G: F, B: S}, [A], {A: {'contentType': 'text/plain'},
                                          G: OCT, B: {'contentType':
                                                      'text/plain'}})}},
            c, i))
    for o in ((0, 1, 2), (2, 1, 0), (1, 0), (0, 1), (1, 1), (0, 1, 1, 2)):
        n = len(o)
        for rq in range(2 ** n):
            ps, props, encs = [], {}, {}
            for i, x in enumerate(o):
                m = 'f%d' % i
                ps.append(dict(fp(m, type='file' if x == 1 else 'string'),
                               required=bool(rq >> i & 1)))
                props[ps[-1]['name']] = F if x == 1 else S
                encs[ps[-1]['name']] = OCT if x == 1 else {
                    'contentType': 'text/plain'}
            names = [p['name'] for p in ps if p['required']]
            ck.ob('files and fields %s, required %s' % (o, bin(rq)), R,
                  lambda: op(ck, ps, dict({'content': {MULTI: form(
                      props, names or None, encs)}}, **(
                          {'required': True} if names else
                          {'required': Opt(False)})), [MULTI], None))
    R = 'the encoding of a form field tells the type of its content'
    for t, exp in (('string', 'text/plain'), ('integer', 'text/plain'),
                   ('number', 'text/plain'), ('boolean', 'text/plain')):
        ck.ob('encoding.%s' % t, R, lambda: op(
            ck, [fp('A', type=t)], {'content': {MULTI: form(
                {A: {'type': t}}, None, {A: {'contentType': exp}})}}, [MULTI]))
    ck.ob('encoding.array', R, lambda: op(
        ck, [fp('A', type='array', items={'type': 'array', 'items': {
            'type': 'integer'}})], {'content': {MULTI: form(
                {A: {'type': 'array', 'items': {'type': 'array', 'items': {
                    'type': 'integer'}}}}, None, {A: CSV})}}, [MULTI]))
    R = 'the media types of the document count for operations of any path'
    MT = (['text/m1', URLENC], ['text/m2', 'text/m3', MULTI])
    pq = {'name': text('q'), 'in': 'query', 'type': 'string'}
    ph = {'name': text('h'), 'in': 'header', 'type': 'integer'}
    for doc in (None, [], MT[0]):
        for own in (None, [], MT[1]):
            for path in ([], [pq], [pq, ph]):
                for params in ([], [ph], [pq]):
                    for frm in (False, True):
                        if frm:
                            d2, o2 = [x and [x[-1]] for x in (doc, own)]
                        else:
                            d2, o2 = doc, own
                        for n in (1, 2):
                            ck.ob('%s of a path with %d parameters%s%s%s, '
                                  '%d operations' % (
                                      'form' if frm else 'body', len(path),
                                      ' and own' * len(params),
                                      ' consumes %s' % doc, ' %s' % own, n),
                                  R, lambda: below(ck, params, path, d2, o2,
                                                   frm, n))
    R = 'path-level bodies and forms reach every operation'
    ck.ob('path body', R, lambda: pathbody(ck))
    OPS = {'summary': (text('s'), ) * 2, 'description': (text('d'), ) * 2,
           'operationId': (text('oi'), ) * 2,
           'deprecated': (boolean('dep'), ) * 2,
           'tags': ([text('t1'), text('t2')], ) * 2,
           'security': ([{text('se'): []}], ) * 2,
           'externalDocs': (ext_docs('o'), ) * 2,
           'produces': ([text('pr')], None),
           'schemes': (['http'], None),
           'responses': ({text('rc'): {'description': text('rd')}}, ) * 2,
           'parameters': ([{'name': text('z'), 'in': 'query'}], ) * 2,
           'parameters2': ([{'name': text('z'), 'in': 'header'},
                            {'name': text('y'), 'in': 'path'}], ) * 2}
    for x in OPS:
        for own in (False, True):
            ck.ob('path body, operation with %s (%s)' % (x, own), R,
                  lambda: pathop(ck, OPS, [x], own))
            ck.ob('path body, operation without %s (%s)' % (x, own), R,
                  lambda: pathop(ck, OPS, [k for k in OPS if k != x], own))
    for x, y in pairs(OPS):
        ck.ob('path body, operation with %s+%s' % (x, y), R,
              lambda: pathop(ck, OPS, [x, y], False))
    ck.ob('path form', R, lambda: pathform(ck, fp, form, A, B, S))
    ck.ob('document consumes', 'media types of the document apply to '
          'operations without their own', lambda: docbody(ck))
    whole(ck, ('params', 'body'), (
        'parameters', 'd.parameters', 'p.parameters', 'body', 'form',
        'consumes', 'd.consumes'),
          'parameters and bodies depend on the media types alone')
    ck.ob('root bodies', 'shared body parameters become request bodies',
          lambda: rootbody(ck))


def foreign(ck, schema):
    L = ck.lab
    st = L.S()
    o = L.new(st, 'o20', 'Operation', {'parameters': [
        {'$ref': 'other.json#/parameters/b'}]}, '#/o')
    t = L.new(st, 'o20', 'Parameter', {
        'name': text('b'), 'in': 'body', 'schema': schema}, '#/parameters/b')
    exp = absolute(ck, st, L.attr(st, t, 'schema'), schema)
    link(ck, st, L.item(st, L.attr(st, o, 'parameters'), 0), t)
    v = convert(ck, st, 'to_operation', o, None, text('root'), '#/o')
    L.expect(st, {'requestBody': {'content': {'application/json': {
        'schema': exp}}}}, v, 'to_operation')


def pathbody(ck):
    L = ck.lab
    st = L.S()
    b = {'name': text('b'), 'in': 'body', 'schema': {'type': 'string'},
         'description': text('d'), 'required': True}
    spec = {'parameters': [b, {'name': text('q'), 'in': 'query'}]}
    spec.update({m: {'operationId': text(m)} for m in METHODS})
    o = L.new(st, 'o20', 'PathItem', spec, '#/p')
    v = L.sure(L.call(st, L.name('c20', 'to_path_item'), o, text('root'),
                      '#/p', consumes=[text('m')]), 'to_path_item')
    body = {'content': {text('m'): {'schema': {'type': 'string'}}},
            'description': text('d'), 'required': True}
    exp = {'parameters': [{'name': text('q'), 'in': 'query'}],
           'x-pyopenapi_internal_request_body': body}
    exp.update({m: {'operationId': text(m), 'requestBody': body}
                for m in METHODS})
    L.expect(st, exp, L.item(st, v, 0), 'to_path_item')


def pathop(ck, OPS, names, form):
    """an operation with these fields, under a path-level body or form"""
    L = ck.lab
    st = L.S()
    if form:
        p = {'name': text('b'), 'in': 'formData', 'type': 'string'}
        body = {'content': {URLENC: {
            'schema': {'properties': {text('b'): {'type': 'string'}}},
            'encoding': {text('b'): {'contentType': 'text/plain'}}}}}
    else:
        p = {'name': text('b'), 'in': 'body', 'schema': {'type': 'string'}}
        body = {'content': {'application/json': {'schema': {
            'type': 'string'}}}}
    src, exp = {}, {'requestBody': body}
    for k in names:
        a, e = OPS[k]
        k = k.rstrip('2')
        src[k] = src[k] + a if k in src else a
        if e is None:
            exp.pop(k, None)
        else:
            exp[k] = exp[k] + e if k in exp else e
    if 'schemes' in names:
        exp['servers'] = ANY
    o = L.new(st, 'o20', 'PathItem', {
        'parameters': [p], 'post': src, 'put': {'operationId': text('2nd')}},
        '#/p')
    v = L.sure(L.call(st, L.name('c20', 'to_path_item'), o, 'https://h.com',
                      '#/p'), 'to_path_item')
    L.expect(st, {'x-pyopenapi_internal_request_body': body, 'post': exp,
                  'put': {'operationId': text('2nd'), 'requestBody': body}},
             L.item(st, v, 0), 'to_path_item')


def pathform(ck, fp, form, A, B, S):
    L = ck.lab
    st = L.S()
    o = L.new(st, 'o20', 'PathItem', {
        'parameters': [fp('A', required=True)],
        'post': {'parameters': [fp('B')]}, 'put': {},
        'patch': {'parameters': [fp('B', required=True)]}}, '#/p')
    v = L.sure(L.call(st, L.name('c20', 'to_path_item'), o, text('root'),
                      '#/p'), 'to_path_item')
    one = {'required': True, 'content': {URLENC: form({A: S}, [A])}}
    two = {'required': True, 'content': {URLENC: form({A: S, B: S}, [A])}}
    req = {'required': True, 'content': {URLENC: form({A: S, B: S}, [A, B])}}
    L.expect(st, {'x-pyopenapi_internal_request_body': one,
                  'post': {'requestBody': two}, 'put': {'requestBody': one},
                  'patch': {'requestBody': req}},
             L.item(st, v, 0), 'to_path_item')


def rootbody(ck):
    L = ck.lab
    st = L.S()
    k, k1, k2 = (member(x, 'pk') for x in ('k', 'k1', 'k2'))
    G = text('ff')
    o = L.new(st, 'o20', 'Swagger', {'parameters': {
        k: {'name': text('b'), 'in': 'body', 'schema': {'type': 'string'},
            'description': text('d'), 'required': True},
        k1: {'name': text('n2'), 'in': 'query', 'type': 'integer'},
        k2: {'name': G, 'in': 'formData', 'type': 'integer'}}}, '#')
    v = L.sure(L.call(st, L.name('c20', 'to_openapi'), o, '#'), 'to_openapi')
    L.expect(st, Sub({'components': {
        'parameters': {k1: {'name': text('n2'), 'in': 'query', 'schema': {
            'type': 'integer'}}},
        'requestBodies': {
            k: {'content': {'application/json': {'schema': {
                'type': 'string'}}}, 'description': text('d'),
                'required': True},
            k2: {'content': {URLENC: {
                'schema': {'properties': {G: {'type': 'integer'}}},
                'encoding': {G: {'contentType': 'text/plain'}}}}},
        }}}), L.item(st, v, 0), 'to_openapi')


def docbody(ck):
    L = ck.lab
    st = L.S()
    u = cat('/', word('u'))
    b = {'parameters': [{'name': text('b'), 'in': 'body', 'schema': {
        'type': 'string'}}]}
    m1, m2, m3 = (member(x, 'mime') for x in ('m1', 'm2', 'm3'))
    o = L.new(st, 'o20', 'Swagger', {
        'consumes': [m1, m2], 'produces': [m3],
        'paths': {u: {'put': b, 'post': dict(b, consumes=[m3])}}}, '#')
    v = L.sure(L.call(st, L.name('c20', 'to_openapi'), o, '#'), 'to_openapi')
    S = {'schema': {'type': 'string'}}
    L.expect(st, Sub({'paths': {u: {
        'put': {'requestBody': {'content': {m1: S, m2: S}}},
        'post': {'requestBody': {'content': {m3: S}}}}}}),
        L.item(st, v, 0), 'to_openapi')
