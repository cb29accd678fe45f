"""schema keywords survive the 2.0 -> 3.0.0 conversion"""
from .common import *  # noqa

P0 = '#/definitions/x'


def conv(ck, spec, exp, fname='to_schema', cls='Schema'):
    L = ck.lab
    st = L.S()
    o = L.new(st, 'o20', cls, spec, P0)
    v = convert(ck, st, fname, o, P0)
    L.expect(st, exp, v, '%s(%s)' % (fname, cls))


def generic(n, depth=2, type_='object'):
    """a schema with every keyword, and what it converts to"""
    s, e = schema_full(n, type_), schema_full(n, type_)
    s['required'] = [text(n + 'r0'), text(n + 'r1')]
    e['required'] = [text(n + 'r0'), text(n + 'r1')]
    s['discriminator'] = text(n + 'disc')
    e['discriminator'] = {'propertyName': text(n + 'disc')}
    s['xml'], e['xml'] = xml_spec(n), xml_spec(n)
    s['externalDocs'], e['externalDocs'] = ext_docs(n), ext_docs(n)
    if depth:
        for k in ('items', 'additionalProperties'):
            s[k], e[k] = generic(n + k + '.', depth - 1)
        a, b = generic(n + 'ao0.', depth - 1), generic(n + 'ao1.', 0)
        s['allOf'], e['allOf'] = [a[0], b[0]], [a[1], b[1]]
        p, q = member(n + 'p', n + 'g'), member(n + 'q', n + 'g')
        a, b = generic(n + 'p.', depth - 1), generic(n + 'q.', 0)
        s['properties'] = {p: a[0], q: b[0]}
        e['properties'] = {p: a[1], q: b[1]}
    return s, e


def check(ck):
    ck.floor = 70
    R = 'schema keyword alone converts to exactly itself'
    for k, f in SCALARS_SCHEMA.items():
        ck.ob('schema.%s' % k, R, lambda: conv(
            ck, {k: f('s.')}, {k: f('s.')}))
    for t in ('string', 'integer', 'number', 'boolean', 'object', 'array',
              'null'):
        ck.ob('schema.type=%s' % t, R, lambda: conv(
            ck, {'type': t}, {'type': t}))
    ck.ob('schema.enum', R, lambda: conv(ck, {'enum': enum('s.')},
                                         {'enum': enum('s.')}))
    ck.ob('schema.required', R, lambda: conv(
        ck, {'required': [text('r0'), text('r1')]},
        {'required': [text('r0'), text('r1')]}))
    ck.ob('schema.empty', 'nothing is invented', lambda: conv(ck, {}, {}))
    for b in (True, False):
        for k in ('exclusiveMaximum', 'exclusiveMinimum', 'uniqueItems',
                  'readOnly', 'default', 'example'):
            ck.ob('schema.%s=%s' % (k, b), R, lambda: conv(
                ck, {k: b}, {k: b}))
    for k in ('maximum', 'minimum', 'maxLength', 'minLength', 'maxItems',
              'minItems', 'maxProperties', 'minProperties', 'default',
              'example'):
        ck.ob('schema.%s=0' % k, R, lambda: conv(ck, {k: 0}, {k: 0}))
    for t in ('object', 'array', 'string', 'number'):
        ck.ob('schema.all(%s)' % t, 'all scalar keywords together keep their '
              'values',
              lambda: conv(ck, schema_full('s.', t), schema_full('s.', t)))

    R = 'compound keyword converts as 3.0.0 defines'
    ck.ob('schema.discriminator', R, lambda: conv(
        ck, {'discriminator': text('d')},
        {'discriminator': {'propertyName': text('d')}}))
    for k in XML:
        x = {k: xml_spec('s.')[k]}
        ck.ob('schema.xml.%s' % k, R, lambda: conv(ck, {'xml': x}, {'xml': x}))
    ck.ob('schema.xml', R, lambda: conv(ck, {'xml': xml_spec('s.')},
                                        {'xml': xml_spec('s.')}))
    ck.ob('schema.externalDocs', R, lambda: conv(
        ck, {'externalDocs': ext_docs('s.')}, {'externalDocs': ext_docs('s.')}))
    ck.ob('schema.externalDocs.url', R, lambda: conv(
        ck, {'externalDocs': {'url': text('u')}},
        {'externalDocs': {'url': text('u')}}))
    ck.ob('schema.additionalProperties=false', R, lambda: conv(
        ck, {'additionalProperties': False}, {'additionalProperties': False}))
    ck.ob('schema.additionalProperties=true', R, lambda: conv(
        ck, {'additionalProperties': True}, {'additionalProperties': Opt(True)}))
    ck.ob('schema.$ref', 'a reference converts to that reference alone',
          lambda: conv(ck, {'$ref': text('ref')}, {'$ref': text('ref')}))
    ck.ob('schema.file', R, lambda: conv(
        ck, {'type': 'file'}, Sub({'type': 'string', 'format': 'binary'})))

    R = 'nested schemas convert recursively, in every position'
    kinds = {
        'scalar': ({'type': 'string', 'maximum': num('m'), 'minLength':
                    integer('ml')},) * 2,
        'ref': ({'$ref': text('ref')}, ) * 2,
        'file': ({'type': 'file'}, {'type': 'string', 'format': 'binary'}),
        'disc': ({'discriminator': text('dd')},
                 {'discriminator': {'propertyName': text('dd')}}),
        'closed': ({'type': 'object', 'additionalProperties': False},
                   {'type': 'object', 'additionalProperties': False}),
        'req': ({'required': [text('z')]}, {'required': [text('z')]}),
        'nest': ({'items': {'properties': {'a': {'discriminator': text('d2')}}}},
                 {'items': {'properties': {'a': {
                     'discriminator': {'propertyName': text('d2')}}}}}),
        'empty': ({}, {}),
    }
    g = lambda n: member(n, 'props')
    for n, (a, b) in kinds.items():
        spots = {
            'items': ({'items': a}, {'items': b}),
            'additionalProperties': ({'additionalProperties': a},
                                     {'additionalProperties': b}),
            'allOf': ({'allOf': [a, {'title': text('t')}, a]},
                      {'allOf': [b, {'title': text('t')}, b]}),
            'properties': ({'properties': {g('p'): a, g('q'): {
                'title': text('t')}}}, {'properties': {g('p'): b, g('q'): {
                    'title': text('t')}}}),
        }
        for k, (x, y) in spots.items():
            if n == 'empty' and k == 'items':
                pass
            ck.ob('nested.%s.%s' % (k, n), R, lambda: conv(ck, x, y))
    # every list and mapping with one, two and three entries
    e = lambda i: {'title': text('t%d' % i)}
    for n in (1, 2, 3):
        for k, x in {
                'allOf': [e(i) for i in range(n)],
                'properties': {g('p%d' % i): e(i) for i in range(n)},
                'required': [text('r%d' % i) for i in range(n)],
                'enum': [opaque('e%d' % i) for i in range(n)]}.items():
            ck.ob('sizes.%s.%d' % (k, n), R, lambda: conv(
                ck, {k: x}, {k: x}))
            ck.ob('sizes.%s.%d all' % (k, n), R, lambda: conv(
                ck, dict(schema_full('s.'), **{k: x}),
                dict(schema_full('s.'), **{k: x})))
            ck.ob('sizes.items.%s.%d' % (k, n), R, lambda: conv(
                ck, {'items': {k: x}}, {'items': {k: x}}))
    # every two keywords together
    full, exp = generic('w.', 1)
    del full['type'], exp['type']
    ks = sorted(full)
    for i, a in enumerate(ks):
        for b in ks[:i]:
            ck.ob('pair.%s.%s' % (a, b), 'keywords do not influence each '
                  'other', lambda: conv(ck, {a: full[a], b: full[b]},
                                        {a: exp[a], b: exp[b]}))
        for t in ('object', 'array', 'string', 'number', 'boolean'):
            ck.ob('pair.%s.type=%s' % (a, t), 'keywords do not influence '
                  'each other', lambda: conv(ck, {a: full[a], 'type': t},
                                             {a: exp[a], 'type': t}))
    for t in ('object', 'array', 'string'):
        ck.ob('generic(%s)' % t, 'a schema using every keyword at every level '
              'converts keyword by keyword', lambda: conv(
                  ck, *generic('g.', 2, t)))
    R = 'keywords do not influence each other'
    for i, a in enumerate(ks):
        for j, b in enumerate(ks[:i]):
            for w in ('items', 'additionalProperties'):
                ck.more('pair in %s.%s.%s' % (w, a, b), R, lambda: conv(
                    ck, {w: {a: full[a], b: full[b]}},
                    {w: {a: exp[a], b: exp[b]}}))
            ck.more('pair in allOf.%s.%s' % (a, b), R, lambda: conv(
                ck, {'allOf': [{}, {a: full[a], b: full[b]}]},
                {'allOf': [{}, {a: exp[a], b: exp[b]}]}))
            ck.more('pair in properties.%s.%s' % (a, b), R, lambda: conv(
                ck, {'properties': {g('p'): {a: full[a], b: full[b]},
                                    g('q'): {b: full[b]}}},
                {'properties': {g('p'): {a: exp[a], b: exp[b]},
                                g('q'): {b: exp[b]}}}))
            ck.more('all but.%s.%s' % (a, b), R, lambda: conv(
                ck, {k: v for k, v in full.items() if k not in (a, b)},
                {k: v for k, v in exp.items() if k not in (a, b)}))
            for c in ks[:j]:
                ck.more('triple.%s.%s.%s' % (a, b, c), R, lambda: conv(
                    ck, {k: full[k] for k in (a, b, c)},
                    {k: exp[k] for k in (a, b, c)}))
