"""array serialization (collectionFormat) survives the upgrade to 3.0.0"""
from .common import *  # noqa
from .c25 import nonbody, op


def header(ck, spec, exp):
    L = ck.lab
    st = L.S()
    o = L.new(st, 'o20', 'Response', {'headers': {
        text('h'): spec}}, '#/r')
    v = convert(ck, st, 'to_response', o, [], '#/r')
    L.expect(st, {'headers': {text('h'): exp}}, v, 'to_response')


def check(ck):
    ck.floor = 40
    n = text('n')
    R = 'collectionFormat of a parameter becomes its style and explode'
    kws = {'plain': {}, 'items': {'items': {'type': 'string'}},
           'nested': {'items': {'type': 'array', 'collectionFormat': 'pipes',
                                'items': {'type': 'integer'}}},
           'full': {'description': text('d'), 'required': boolean('r'),
                    'allowEmptyValue': boolean('a'),
                    'default': opaque('def', ('nottype', 'NoneType')),
                    'maxItems': integer('mi'), 'uniqueItems': boolean('u')}}
    TOP = ('description', 'required', 'allowEmptyValue')

    def exp_of(kw):
        top = {k: v for k, v in kw.items() if k in TOP}
        sch = {k: v for k, v in kw.items() if k not in TOP}
        sch['type'] = 'array'
        if 'collectionFormat' in str(kw):
            sch['items'] = {'type': 'array', 'items': {'type': 'integer'}}
        return top, sch

    combos = [('query', 'csv'), ('query', 'ssv'), ('query', 'pipes'),
              ('query', 'multi'), ('query', None), ('path', 'csv'),
              ('path', None), ('header', 'csv'), ('header', None)]
    for in_, cf in combos:
        for kn, kw in kws.items():
            s = dict(kw, **{'name': n, 'in': in_, 'type': 'array'})
            if cf:
                s['collectionFormat'] = cf
            top, sch = exp_of(kw)
            e = dict(top, **{'name': n, 'in': in_, 'schema': sch})
            e.update(style(in_, cf or 'csv'))
            for route in ('parameter', 'operation', 'pathitem', 'root'):
                if route != 'parameter' and kn not in ('items', 'full'):
                    continue
                ck.ob('%s.%s.%s via %s' % (in_, cf, kn, route), R,
                      lambda: nonbody(ck, s, e, route))
    words = {k: f('w.') for k, f in SCALARS_BASE.items()}
    words.update({'enum': enum('we'), 'description': text('wd'),
                  'required': boolean('wr'), 'allowEmptyValue': boolean('wa'),
                  'items': {'type': 'number'}})
    for in_, cf in combos:
        for k, w in words.items():
            s = {'name': n, 'in': in_, 'type': 'array', k: w}
            if cf:
                s['collectionFormat'] = cf
            e = {'name': n, 'in': in_, 'schema': {'type': 'array'}}
            (e if k in TOP else e['schema'])[k] = w
            e.update(style(in_, cf or 'csv'))
            ck.ob('%s.%s with %s' % (in_, cf, k), R,
                  lambda: nonbody(ck, s, e))
    R = 'every parameter has its own format'
    for a in combos:
        for b in combos:
            def two():
                src, exp = [], []
                for i, (in_, cf) in enumerate((a, b, ('query', 'scalar'))):
                    x = {'name': text('n%d' % i), 'in': in_, 'type': 'array'}
                    y = {'name': text('n%d' % i), 'in': in_,
                         'schema': {'type': 'array'}}
                    if cf == 'scalar':
                        x['type'] = y['schema']['type'] = 'string'
                    else:
                        y.update(style(in_, cf or 'csv'))
                        if cf:
                            x['collectionFormat'] = cf
                    src.append(x)
                    exp.append(y)
                op(ck, src, None, extra={'parameters': exp})
            ck.ob('%s.%s beside %s.%s' % (a + b), R, two)
    R = 'collectionFormat of a form field becomes style and explode of its '\
        'encoding'
    for cf in ('csv', 'ssv', 'pipes', 'multi', None):
        for t, ct in (('string', 'text/plain'), ('integer', 'text/plain')):
            s = {'name': n, 'in': 'formData', 'type': 'array',
                 'items': {'type': t}}
            if cf:
                s['collectionFormat'] = cf
            for mt in ([URLENC], [MULTI], [URLENC, MULTI]):
                ck.ob('formData.%s.%s.%s' % (cf, t, '+'.join(mt)), R,
                      lambda: op(ck, [s], {'content': {m: {
                          'schema': {'properties': {n: {
                              'type': 'array', 'items': {'type': t}}}},
                          'encoding': {n: dict(style('formData', cf or 'csv'),
                                               contentType=ct)}}
                          for m in mt}}, mt))
    def nest(t, depth, fmt=None):
        x = {'type': t}
        if fmt:
            x['format'] = fmt
        for i in range(depth):
            x = {'type': 'array', 'items': x}
        return x

    def nested(items, cf, ct, inner):
        x = dict({'name': n, 'in': 'formData', 'type': 'array', 'items':
                  items}, **({'collectionFormat': cf} if cf else {}))
        src = items
        y = {'name': x['name']}
        op(ck, [x], {'content': {MULTI: {
            'schema': {'properties': {n: {'type': 'array', 'items': inner}}},
            'encoding': {n: dict(style('formData', cf or 'csv'),
                                 contentType=ct)}}}}, [MULTI])
    for cf in ('csv', 'multi', None):
        for depth in (1, 2, 3):
            for t in ('string', 'integer', 'number', 'boolean'):
                ck.ob('form.%s of %d arrays of %s' % (cf, depth, t), R,
                      lambda: nested(nest(t, depth), cf, 'text/plain',
                                     nest(t, depth)))
            ck.ob('form.%s of %d arrays of files' % (cf, depth), R,
                  lambda: nested(nest('file', depth), cf,
                                 'application/octet-stream', ANY))
    FF = ('csv', 'ssv', 'pipes', 'multi', None)
    g = member('g', 'ff'), member('h', 'ff'), member('z', 'ff')
    for a in FF:
        for b in FF:
            def ftwo():
                ps, props, enc = [], {}, {}
                for k, cf in zip(g, (a, b, 'scalar')):
                    x = {'name': k, 'in': 'formData', 'type': 'array'}
                    props[k] = {'type': 'array'}
                    enc[k] = {'contentType': 'text/plain'}
                    if cf == 'scalar':
                        x['type'] = 'string'
                        props[k] = {'type': 'string'}
                    else:
                        x['items'] = {'type': 'integer'}
                        props[k]['items'] = {'type': 'integer'}
                        if cf:
                            x['collectionFormat'] = cf
                        enc[k].update(style('formData', cf or 'csv'))
                    ps.append(x)
                op(ck, ps, {'content': {URLENC: {
                    'schema': {'properties': props}, 'encoding': enc}}},
                   [URLENC])
            ck.ob('form %s beside %s' % (a, b), R, ftwo)
    for cf in FF:
        for k, w in list(words.items()):
            if k == 'items':
                continue

            def fword():
                x = {'name': n, 'in': 'formData', 'type': 'array',
                     'items': {'type': 'string'}, k: w}
                if cf:
                    x['collectionFormat'] = cf
                pr = {'type': 'array', 'items': {'type': 'string'}}
                e = {'content': ANY}
                sch = {'properties': {n: pr}}
                if k == 'required':
                    x[k] = True
                    sch['required'] = [n]
                    e['required'] = True
                elif k == 'allowEmptyValue':
                    x[k] = True
                    pr['nullable'] = True
                else:
                    pr[k] = w
                e['content'] = {MULTI: {'schema': sch, 'encoding': {
                    n: dict(style('formData', cf or 'csv'),
                            contentType='text/plain')}}}
                op(ck, [x], e, [MULTI])
            ck.ob('form %s with %s' % (cf, k), R, fword)
    R = 'collectionFormat of a response header becomes the simple style'
    for cf in ('csv', None):
        for kn, kw in kws.items():
            kw = {k: v for k, v in kw.items()
                  if k not in ('required', 'allowEmptyValue')}
            s = dict(kw, type='array')
            if cf:
                s['collectionFormat'] = cf
            top, sch = exp_of(kw)
            ck.ob('response header.%s.%s' % (cf, kn), R, lambda: header(
                ck, s, dict(dict(top, schema=sch), **style('header'))))
    for cf in ('csv', None):
        for k, w in words.items():
            if k in ('required', 'allowEmptyValue'):
                continue
            s = {'type': 'array', k: w}
            if cf:
                s['collectionFormat'] = cf
            e = {'schema': {'type': 'array'}}
            (e if k in TOP else e['schema'])[k] = w
            e.update(style('header'))
            ck.ob('response header.%s with %s' % (cf, k), R,
                  lambda: header(ck, s, e))
    R = 'a format that cannot be expressed in that location is refused'
    for in_ in ('path', 'header'):
        for cf in ('ssv', 'pipes'):
            for kn in ('plain', 'items'):
                def bad():
                    L = ck.lab
                    st = L.S()
                    o = L.new(st, 'o20', 'Parameter', dict(
                        kws[kn], **{'name': n, 'in': in_, 'type': 'array',
                                    'collectionFormat': cf}), '#/p')
                    raises(ck, L.call(st, L.name('c20', 'to_parameter'), o,
                                      '#/p'), ('SchemaError', ),
                           '%s in %s' % (cf, in_))
                ck.ob('refused %s.%s.%s' % (in_, cf, kn), R, bad)
    for cf in ('ssv', 'pipes'):
        for t in ('string', 'integer'):
            def bad2():
                L = ck.lab
                st = L.S()
                o = L.new(st, 'o20', 'Parameter', {
                    'name': n, 'in': 'query', 'type': t,
                    'collectionFormat': cf}, '#/p')
                raises(ck, L.call(st, L.name('c20', 'to_parameter'), o,
                                  '#/p'), ('SchemaError', ),
                       '%s for a %s' % (cf, t))
            ck.ob('refused scalar %s %s' % (cf, t), R, bad2)
    R = 'a scalar without collectionFormat gets no style'
    for in_ in ('query', 'path', 'header'):
        for t in ('string', 'integer', 'number', 'boolean'):
            ck.ob('%s.%s' % (in_, t), R, lambda: nonbody(
                ck, {'name': n, 'in': in_, 'type': t},
                {'name': n, 'in': in_, 'schema': {'type': t}}))
