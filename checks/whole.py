"""one operation in one document: every member of either on its own, all but
one of them, in pairs, and each without content, as the members a check is
about must not depend on the others"""
from .common import *  # noqa

M1, M2 = 'text/m1', 'text/m2'
ED = {'url': text('wedu'), 'description': text('wedd')}
SEC = [{member('wsec', 'wsecs'): [text('wsc')]}]
RS = {'description': text('wrd'), 'schema': {'title': text('wst')},
      'headers': {member('wh', 'whs'): {'type': 'string'}}}
HD = {member('wh', 'whs'): {'schema': {'type': 'string'}}}
DOCRS = {'description': text('wdr')}
FALSE = ({'title': '', 'version': ''}, )

# member -> (source, source without content)
OP = {
    'summary': (text('wsm'), ''), 'description': (text('wds'), ''),
    'operationId': (text('woi'), ''), 'deprecated': (True, False),
    'tags': ([text('wt1'), text('wt2')], []), 'externalDocs': (ED, None),
    'security': (SEC, []), 'schemes': (['ws', 'http'], []),
    'consumes': ([MULTI, M2], []), 'produces': ([M1, M2], []),
    'parameters': ([{'name': text('wq'), 'in': 'query', 'type': 'array',
                     'collectionFormat': 'pipes'},
                    {'name': text('wp'), 'in': 'path', 'required': True,
                     'type': 'string'}], []),
    'body': ({'name': text('wb'), 'in': 'body', 'description': text('wbd'),
              'required': True, 'schema': {'title': text('wbt')}}, None),
    'form': ({'name': 'wf', 'in': 'formData', 'type': 'string',
              'required': True}, None),
    'responses': ({'200': RS, 'default': DOCRS}, None),
}
DOC = {
    'info': ({'title': text('wti'), 'version': text('wve'), 'description':
              text('wid'), 'contact': {'name': text('wcn')},
              'license': {'name': text('wln')}},
             {'title': '', 'version': '', 'description': ''}),
    'd.tags': ([{'name': text('wtn'), 'externalDocs': ED}], []),
    'd.externalDocs': (ED, None), 'd.security': (SEC, []),
    'd.schemes': (['https', 'http'], []),
    'host': ('h.com', None), 'basePath': ('/v1', None),
    'd.consumes': ([URLENC, M1], []), 'd.produces': ([M2], []),
    'definitions': ({text('wdk'): {'title': text('wdt')}}, {}),
    'd.parameters': ({text('wpk'): {'name': text('wpn'), 'in': 'header',
                                    'type': 'string'}}, {}),
    'd.responses': ({text('wrk'): RS}, {}),
    'securityDefinitions': ({text('wsk'): {'type': 'basic'}}, {}),
    # of the path
    'p.parameters': ([{'name': text('wpq'), 'in': 'header', 'type':
                       'integer'}], []),
    'p.put': ({'summary': text('wps'), 'produces': ['text/put'],
               'consumes': ['text/put'], 'responses': {'201': RS}}, {}),
    'p.2': ({'get': {'deprecated': True, 'responses': {'202': DOCRS}}}, {}),
}
ALL = dict(OP, **DOC)
META = ('summary', 'description', 'operationId', 'deprecated', 'tags',
        'externalDocs', 'security', 'schemes')


def source(on):
    """on: member -> 0 (with content) or 1 (without)"""
    op, path, doc = {}, {}, {'swagger': '2.0'}
    for k, i in on.items():
        v = ALL[k][i]
        if k in ('body', 'form'):
            op['parameters'] = op.get('parameters', []) + [v]
        elif k == 'parameters':
            op[k] = v + op.get(k, [])
        elif k == 'p.2':
            continue
        elif k.startswith('p.'):
            path[k[2:]] = v
        elif k in OP:
            op[k] = v
        else:
            doc[k.replace('d.', '')] = v
    path['post'] = op
    doc['paths'] = {'/u': path}
    if 'p.2' in on:
        doc['paths']['/w'] = ALL['p.2'][on['p.2']]
    return doc


def value(on, k, default=None):
    return ALL[k][on[k]] if k in on else default


def types(on, own, inherited):
    return value(on, own) if own in on else value(on, inherited)


def empty(v):
    return Opt(v) if isinstance(v, (list, dict)) and not v else v


def content(ck, mts, schema):
    if mts:
        return {m: {'schema': schema} for m in mts}

    def f(st, v):
        r = ck.lab.rec(st, v)
        if not isinstance(r, DictR) or r.opaque is not None:
            raise Undecided('content')
        return len(r.d) == 1 and all(m and not ck.lab.diff(st, {
            'schema': schema}, x) for x, m, _ in r.d.values())
    return Pred('one media type with the schema', f)


def url(on, scheme):
    base = value(on, 'basePath') or ''
    return '%s://%s%s' % (scheme, value(on, 'host'), base) if value(
        on, 'host') else base or '/'


def servers(ck, urls):
    def f(st, v):
        r = ck.lab.rec(st, v)
        if not isinstance(r, ListR) or r.opaque is not None:
            raise Undecided('servers')
        return len(r.items) == len(urls) and all(m and not ck.lab.diff(
            st, {'url': u}, x) for (x, m), u in zip(r.items, urls))
    return Pred('servers at %s' % urls, f)


def response(ck, on, mts):
    return {'description': RS['description'], 'headers': HD,
            'content': content(ck, mts, RS['schema'])}


def expected(ck, on, focus):
    op, noop, doc, nodoc = {}, [], {}, []
    if 'meta' in focus:
        for k in META:
            if k not in on:
                noop.append(k if k != 'schemes' else 'servers')
            elif k != 'schemes':
                op[k] = value(on, k)
                if k == 'tags':
                    op[k] = empty(op[k])
            elif not value(on, k):
                op['servers'] = Opt([])
            elif value(on, 'host'):
                op['servers'] = servers(ck, [url(on, s)
                                             for s in value(on, k)])
        for k, t in (('info', 'info'), ('d.tags', 'tags'),
                     ('d.externalDocs', 'externalDocs'),
                     ('d.security', 'security')):
            if k in on:
                doc[t] = empty(value(on, k))
            else:
                nodoc.append(t)
        s = (value(on, 'd.schemes') or ['https'])[0]
        doc['servers'] = Pred('the server', lambda st, v: first(
            ck, st, v, url(on, s)))
        for k, t, x in (('definitions', 'schemas', None),
                        ('securityDefinitions', 'securitySchemes',
                         {text('wsk'): {'type': 'http',
                                        'scheme': 'basic'}})):
            if value(on, k):
                doc.setdefault('components', {})[t] = x or value(on, k)
        if 'components' in doc:
            doc['components'] = Sub(doc['components'])
    if 'params' in focus:
        if value(on, 'parameters'):
            op['parameters'] = [
                {'name': text('wq'), 'in': 'query',
                 'schema': {'type': 'array'}, 'style': 'pipeDelimited',
                 'explode': Opt(False)},
                {'name': text('wp'), 'in': 'path', 'required': True,
                 'schema': {'type': 'string'}}]
        else:
            noop.append('parameters')
        if value(on, 'd.parameters'):
            doc['components'] = Sub({'parameters': {text('wpk'): {
                'name': text('wpn'), 'in': 'header', 'schema': {
                    'type': 'string'}}}})
    if 'body' in focus:
        mts = types(on, 'consumes', 'd.consumes')
        if 'body' in on:
            op['requestBody'] = {
                'description': text('wbd'), 'required': True,
                'content': {m: {'schema': {'title': text('wbt')}}
                            for m in mts or ['application/json']}}
        elif 'form' in on:
            mts = [m for m in (URLENC, MULTI) if m in (mts or ())]
            op['requestBody'] = {'required': True, 'content': {
                m: {'schema': {'properties': {'wf': {'type': 'string'}},
                               'required': ['wf']},
                    'encoding': {'wf': {'contentType': 'text/plain'}}}
                for m in mts or [URLENC]}}
        else:
            noop.append('requestBody')
    if 'responses' in focus:
        if 'responses' in on:
            op['responses'] = {'default': DOCRS, '200': response(
                ck, on, types(on, 'produces', 'd.produces'))}
        else:
            noop.append('responses')
        if value(on, 'd.responses'):
            doc['components'] = Sub({'responses': {text('wrk'): response(
                ck, on, value(on, 'd.produces'))}})
    path = {'post': Sub(op, tuple(noop))}
    if 'params' in focus:
        if value(on, 'p.parameters'):
            path['parameters'] = [{'name': text('wpq'), 'in': 'header',
                                   'schema': {'type': 'integer'}}]
    if 'p.put' in on:
        x = {}
        if on['p.put'] == 0:
            if 'meta' in focus:
                x['summary'] = text('wps')
            if 'responses' in focus:
                x['responses'] = {'201': response(ck, on, ['text/put'])}
        path['put'] = Sub(x, ('requestBody', 'parameters', 'servers',
                              'security', 'tags'))
    doc['paths'] = {'/u': Sub(path)}
    if 'p.2' in on:
        doc['paths']['/w'] = {} if on['p.2'] else {'get': Sub({
            'deprecated': True, 'responses': {'202': DOCRS}})}
        if on['p.2']:
            doc['paths']['/w'] = Opt({})
    return Sub(doc, tuple(nodoc))


def first(ck, st, v, e):
    r = ck.lab.rec(st, v)
    if not isinstance(r, ListR) or r.opaque is not None:
        raise Undecided('servers')
    return bool(r.items) and r.items[0][1] and not ck.lab.diff(
        st, Sub({'url': e}), r.items[0][0])


def run(ck, on, focus):
    L = ck.lab
    st = L.S()
    o = L.new(st, 'o20', 'Swagger', source(on), '#')
    v = L.sure(L.call(st, L.name('c20', 'to_openapi'), o, '#'), 'to_openapi')
    L.expect(st, expected(ck, on, focus), L.item(st, v, 0), 'to_openapi')


def whole(ck, focus, members, rule):
    """obligations about some members among all others"""
    for alt in ('body', 'form'):
        alls = [k for k in ALL if k not in ('body', 'form')] + [alt]

        def ob(name, on):
            ck.ob('with %s, %s' % (alt, name), rule,
                  lambda: run(ck, on, focus))
        ob('everything', {k: 0 for k in alls})
        no = {k: 1 for k in alls if ALL[k][1] is not None}
        ob('nothing but empty ones', no)
        for k in alls:
            ob('everything but ' + k, {x: 0 for x in alls if x != k})
            if k in no:
                ob('everything, no content in ' + k,
                   dict({x: 0 for x in alls}, **{k: 1}))
        for k in members:
            if k not in alls:
                continue
            ob('only empty ones and ' + k, dict(no, **{k: 0}))
            for x in alls:
                if x != k and (alt == 'body' or alt in (x, k)) and (
                        x not in members or x < k):
                    ob('%s beside %s' % (k, x), {x: 0, k: 0})
                    if x in no:
                        ob('%s beside empty %s' % (k, x), {x: 1, k: 0})
    for alt in ('body', 'form'):
        alls = [k for k in ALL if k not in ('body', 'form')] + [alt]
        for k in members:
            if k not in alls:
                continue
            for i, x in enumerate(alls):
                for y in alls[:i]:
                    if k not in (x, y):
                        ck.more('with %s, %s beside %s, %s' % (alt, k, x, y),
                                rule, lambda: run(ck, {x: 0, y: 0, k: 0},
                                                  focus))
                        ck.more('with %s, %s among all but %s, %s' % (
                            alt, k, x, y), rule, lambda: run(ck, {
                                z: 0 for z in alls if z not in (x, y)},
                                focus))
