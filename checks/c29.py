"""upgrading to 3.0.0 leaves the 2.0 document alone"""
from .common import *  # noqa


def call(ck, st, f, o, path):
    L = ck.lab
    args = {'to_operation': (o, None, text('root'), path),
            'to_path_item': (o, text('root'), path),
            'to_response': (o, L.mk(st, [text('prod')]), path),
            'from_parameter': (o, None, L.mk(st, [MULTI]), path),
            }.get(f, (o, path))
    v = L.sure(L.call(st, L.name('c20', f), *args), f)
    if f in ('to_openapi', 'to_path_item', 'from_parameter'):
        v = L.item(st, v, 0)
    return v


def pure(ck, f, cls, spec):
    L = ck.lab
    st = L.S()
    sp = L.mk(st, spec)
    ids = reach(st, sp)
    raw = freeze(st, ids)
    o = L.new(st, 'o20', cls, sp, '#/x')
    unchanged(ck, st, raw, 'loading')
    d1 = L.sure(L.meth(st, o, 'dump'), 'dump')
    call(ck, st, f, o, '#/x')
    unchanged(ck, st, raw, f)
    d2 = L.sure(L.meth(st, o, 'dump'), 'dump')
    ds = same(ck, st, d1, d2)
    if ds:
        raise Broken('%s changes what the 2.0 object says: %s' % (f, ds[:3]))


def repeat(ck, f, cls, spec):
    L = ck.lab
    st = L.S()
    o = L.new(st, 'o20', cls, spec, '#/x')
    a = call(ck, st, f, o, '#/x')
    ids = reach(st, a)
    before = freeze(st, ids)
    b = call(ck, st, f, o, '#/x')
    unchanged(ck, st, before, 'a second ' + f)
    ds = same(ck, st, a, b)
    if ds:
        raise Broken('%s gives another result the second time: %s' % (
            f, ds[:3]))


def bodies(ck, name, spec):
    """request bodies of operations share no structure"""
    L = ck.lab
    st = L.S()
    o = L.new(st, 'o20', 'PathItem', spec, '#/x')
    v = call(ck, st, 'to_path_item', o, '#/x')
    got = {}
    for m in METHODS + ('x-pyopenapi_internal_request_body', ):
        if m not in spec and m in METHODS:
            continue
        x = L.item(st, v, m)
        if m in METHODS:
            x = L.item(st, x, 'requestBody')
        ids = {i for i in reach(st, x)
               if isinstance(st.get(i), DictR)}
        for m2, i2 in got.items():
            if ids & i2:
                raise Broken('request bodies of %s and %s are one object: %s' %
                             (m, m2, L.show(st, Ref(min(ids & i2)))))
        got[m] = ids


def plain_units():
    """objects with literal lists and names in no order, some twice"""
    names = ['b', 'a', 'C', 'b', '', 'x-y', '10', '9']
    typed = {'string': ['b', 'a', 'b'], 'integer': [3, 1, 3],
             'number': [1.5, 0.5], 'boolean': [True, False],
             'array': [['b'], ['a']], 'object': [{'b': 1}, {'a': 1}],
             'null': [None], 'file': ['b', 'a']}
    sch = {'type': 'object', 'required': names[:4], 'enum': names,
           'default': {'b': [2, 1], 'a': {'d': [], 'c': None}},
           'example': [{'z': 1, 'y': [3, 1, 2]}, [], {}],
           'properties': dict({k: {'type': 'array', 'items': {
               'enum': [3, 1, 2], 'required': ['z', 'y']},
               'default': [3, 1, 2]} for k in names}, **{
                   'of ' + t: {'type': t, 'enum': list(e), 'format': 'date',
                               'required': ['z', 'y'], 'default': list(e),
                               'items': {'type': t, 'enum': list(e)}}
                   for t, e in typed.items()}),
           'allOf': [{'required': ['q', 'p']}, {'$ref': '#/definitions/A'},
                     {'enum': ['q', 'p', 'q']}],
           'xml': {'name': 'x', 'wrapped': False},
           'externalDocs': {'url': 'u', 'description': ''}}
    q = {'name': 'q', 'in': 'query', 'type': 'array', 'enum': ['z', 'a'],
         'collectionFormat': 'multi', 'default': ['z', 'a'],
         'items': {'type': 'string', 'enum': ['z', 'a', 'z'], 'default': 'z'}}
    resp = {'description': '', 'schema': sch, 'headers': {
        k: {'type': 'array', 'items': {'type': 'integer', 'enum': [3, 1]}}
        for k in ('X-B', 'X-A')},
        'examples': {'b/c': {'z': [2, 1]}, 'a/c': 1}}
    op = {'tags': names, 'consumes': ['b/c', 'a/c'], 'operationId': '',
          'produces': ['b/c', 'a/c', 'b/c'], 'schemes': ['wss', 'http'],
          'security': [{'k': ['w', 'r']}, {'b': [], 'a': ['z', 'y']}],
          'parameters': [q, dict(q, name='p'), {
              'name': 'b', 'in': 'body', 'schema': sch}],
          'responses': {'default': resp, '404': {'description': 'd'},
                        '200': resp}}
    form = {'consumes': [MULTI, URLENC], 'parameters': [
        dict(q, **{'name': k, 'in': 'formData', 'required': True})
        for k in ('z', 'a', 'm')], 'responses': {'200': resp}}
    item = {'parameters': [dict(q, name='o')], 'put': op, 'get': op,
            'post': form}
    doc = {'swagger': '2.0', 'info': {
        'title': '', 'version': '1', 'license': {'name': 'l'}},
        'schemes': ['wss', 'http'], 'consumes': ['b/c', 'a/c'],
        'host': 'h.com', 'produces': ['b/c', 'a/c'],
        'paths': {'/b': item, '/a': item, '/': {}},
        'definitions': {'B': sch, 'A': {}},
        'parameters': {'z': q, 'a': dict(op['parameters'][2])},
        'responses': {'z': resp, 'a': {'description': 'd'}},
        'security': [{'z': ['w', 'r']}, {'a': []}],
        'securityDefinitions': {
            'z': {'type': 'oauth2', 'flow': 'implicit', 'scopes': {
                'w': '', 'r': 'x'}}, 'a': {'type': 'basic'}},
        'tags': [{'name': 'z'}, {'name': 'a', 'description': ''},
                 {'name': 'z'}]}
    return [('to_schema', 'Schema', 'plain schema', sch),
            ('to_response', 'Response', 'plain response', resp),
            ('to_operation', 'Operation', 'plain operation', op),
            ('to_operation', 'Operation', 'plain form', form),
            ('to_path_item', 'PathItem', 'plain path', item),
            ('from_parameter', 'Parameter', 'plain query', q),
            ('from_parameter', 'Parameter', 'plain body',
             op['parameters'][2]),
            ('from_parameter', 'Parameter', 'plain field',
             form['parameters'][0]),
            ('to_header', 'Header', 'plain header', resp['headers']['X-B']),
            ('to_security_scheme', 'SecurityScheme', 'plain scheme',
             doc['securityDefinitions']['z']),
            ('to_openapi', 'Swagger', 'plain document', doc)] + [
        (f, c, 'plain %s %s %s' % (c, i, t), dict({
            'type': t, 'enum': list(e), 'default': list(e),
            'items': {'type': t, 'enum': list(e)}}, **(
                {'name': 'q', 'in': i} if i else {'description': ''})))
        for f, c, i in (('from_parameter', 'Parameter', 'query'),
                        ('from_parameter', 'Parameter', 'formData'),
                        ('from_parameter', 'Parameter', 'header'),
                        ('to_header', 'Header', ''))
        for t, e in typed.items() if t not in ('null', 'object')]


def check(ck):
    ck.floor = 25
    big = big_swagger()
    paths = list(big['paths'].values())
    units = [('to_openapi', 'Swagger', 'document', big)]
    units += [('to_path_item', 'PathItem', 'path %d' % i, p)
              for i, p in enumerate(paths)]
    units += [('to_operation', 'Operation', m, paths[0][m])
              for m in ('get', 'post')]
    units += [('to_schema', 'Schema', 'definition %d' % i, d)
              for i, d in enumerate(big['definitions'].values())]
    units += [('from_parameter', 'Parameter', 'parameter %d' % i, d)
              for i, d in enumerate(big['parameters'].values())]
    units += [('to_parameter', 'Parameter', 'query parameter',
               list(big['parameters'].values())[0])]
    units += [('to_response', 'Response', 'response',
               list(big['responses'].values())[0])]
    units += [('to_security_scheme', 'SecurityScheme', 'scheme %d' % i, d)
              for i, d in enumerate(big['securityDefinitions'].values())]
    units += [('to_info', 'Info', 'info', big['info']),
              ('to_tag', 'Tag', 'tag', big['tags'][0])]
    # types that are any text: what is done for one of them only is seen, too
    sch = dict(list(big['definitions'].values())[0], type=text('anytype'))
    units += [('to_schema', 'Schema', 'any type', sch)]
    units += [('to_schema', 'Schema', t, dict(sch, type=t))
              for t in ('string', 'integer', 'number', 'boolean', 'array',
                        'null', 'file')]
    units += [('to_schema', 'Schema', 'any type in ' + k, {k: sch}) for k in (
        'items', 'additionalProperties')]
    units += [('to_schema', 'Schema', 'any type in allOf',
               {'allOf': [sch, sch]}),
              ('to_schema', 'Schema', 'any type in properties',
               {'properties': {member('ap', 'ap'): sch,
                               member('aq', 'ap'): sch}})]
    q = list(big['parameters'].values())[0]
    for in_ in ('query', 'header', 'path', 'formData'):
        for t in (text('anytype'), 'string', 'integer', 'array', 'file'):
            units += [('from_parameter', 'Parameter', '%s %s' % (in_, t),
                       dict(q, **{'in': in_, 'type': t}))]
    for t in (text('anytype'), 'string', 'array'):
        units += [('to_header', 'Header', 'header %s' % (t, ), dict(
            items_full('hh.'), type=t, description=text('hd')))]
    units += [('from_items', 'Items', 'items', dict(items_full('ii.'), type=
                                                    text('anytype')))]
    units += [('to_response', 'Response', 'response any type', {
        'description': text('rd'), 'schema': sch,
        'headers': {member('h1', 'hs'): items_full('hx.')}})]
    units += [('to_security_scheme', 'SecurityScheme', 'scheme ' + f, {
        'type': 'oauth2', 'flow': f, 'authorizationUrl': text('au'),
        'tokenUrl': text('tu'), 'scopes': {member('s1', 'ss'): text('x')}})
        for f in ('implicit', 'password', 'application')]
    units += [('to_security_scheme', 'SecurityScheme', 'apiKey ' + i, {
        'type': 'apiKey', 'name': text('n'), 'in': i})
        for i in ('query', 'header')]
    units += plain_units()
    for f, c, n, s in units:
        ck.ob('pure %s' % n, 'the upgrade writes nothing reachable from the '
              'older document', lambda: pure(ck, f, c, s))
        ck.ob('repeat %s' % n, 'the same object upgrades to the same result '
              'again, and the first result is left alone',
              lambda: repeat(ck, f, c, s))

    def form(n, **kw):
        return dict({'name': member(n, 'bigform'), 'in': 'formData',
                     'type': 'string'}, **kw)
    R = 'operations of a path get request bodies of their own'
    fs = {'own fields': {m: {'parameters': [form('x' + m)]}
                         for m in METHODS},
          'no fields': {m: {} for m in METHODS},
          'mixed': {'put': {}, 'post': {'parameters': [form('x')]},
                    'patch': {'consumes': [URLENC, MULTI]}}}
    for n, ops in fs.items():
        ck.ob('bodies form, %s' % n, R, lambda: bodies(ck, n, dict(
            ops, parameters=[form('p', required=True, enum=enum('e'))])))
    ck.ob('bodies body', R, lambda: bodies(ck, 'b', dict(
        {m: {} for m in METHODS}, parameters=[{
            'name': text('b'), 'in': 'body', 'schema': {
                'type': 'object', 'properties': {member('q', 'g'): {
                    'type': 'string'}}}}])))
