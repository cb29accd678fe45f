"""references lead to the upgraded objects after upgrading to 3.0.0"""
from .c15 import *  # noqa
from .c16 import step

MIME = 'application/json'


def base_doc():
    d = root('2.0')
    d.update({'produces': [MIME], 'consumes': [MIME], 'paths': {}})
    return d


def op(**kw):
    return dict({'responses': {}}, **kw)


def body(x):
    return {'name': 'b', 'in': 'body', 'schema': x}


NEW = ('components', 'schemas')
# place -> (where the reference is put, where it is found)
SCHEMA = {
    'definition': (lambda r, K: {'definitions': {K: r}},
                   lambda K: NEW + (K, )),
    'response of operation': (
        lambda r, K: {'paths': {'/p': {'get': op(responses={
            '200': {'description': 'd', 'schema': r}})}}},
        lambda K: ('paths', '/p', 'get', 'responses', '200', 'content', MIME,
                   'schema')),
    'shared response': (
        lambda r, K: {'responses': {K: {'description': 'd', 'schema': r}}},
        lambda K: ('components', 'responses', K, 'content', MIME, 'schema')),
    'body of operation': (
        lambda r, K: {'paths': {'/p': {'post': op(parameters=[body(r)])}}},
        lambda K: ('paths', '/p', 'post', 'requestBody', 'content', MIME,
                   'schema')),
    'body of path': (
        lambda r, K: {'paths': {'/p': {'put': op(), 'parameters': [
            body(r)]}}},
        lambda K: ('paths', '/p', 'put', 'requestBody', 'content', MIME,
                   'schema')),
    'shared body': (
        lambda r, K: {'parameters': {K: body(r)}},
        lambda K: ('components', 'requestBodies', K, 'content', MIME,
                   'schema')),
}
for m, (f, n) in {
        'items': (lambda r: r, ('items', )),
        'allOf': (lambda r: [{'type': 'object'}, r], ('allOf', 1)),
        'properties': (lambda r: {'p/q': r}, ('properties', 'p/q')),
        'additionalProperties': (lambda r: r, ('additionalProperties', ))
}.items():
    SCHEMA['definition ' + m] = (
        lambda r, K, f=f, m=m: {'definitions': {K: {m: f(r)}}},
        lambda K, n=n: NEW + (K, ) + n)
    SCHEMA['response ' + m] = (
        lambda r, K, f=f, m=m: {'paths': {'/p': {'get': op(responses={
            '200': {'description': 'd', 'schema': {m: f(r)}}})}}},
        lambda K, n=n: ('paths', '/p', 'get', 'responses', '200', 'content',
                        MIME, 'schema') + n)
    SCHEMA['body ' + m] = (
        lambda r, K, f=f, m=m: {'paths': {'/p': {'put': op(parameters=[
            body({m: f(r)})])}}},
        lambda K, n=n: ('paths', '/p', 'put', 'requestBody', 'content', MIME,
                        'schema') + n)
RESPONSE = {'operation': (
    lambda r, K: {'paths': {'/p': {'get': op(responses={
        '200': {'description': 'd'}, K: r})}}},
    lambda K: ('paths', '/p', 'get', 'responses', K))}
PARAM = {
    'operation': (
        lambda r, K: {'paths': {'/p': {'get': op(parameters=[
            {'name': 'o', 'in': 'query', 'type': 'string'}, r])}}},
        lambda K: ('paths', '/p', 'get', 'parameters', 1)),
    'path': (
        lambda r, K: {'paths': {'/p': {'get': op(), 'parameters': [
            {'name': 'o', 'in': 'query', 'type': 'string'}, r]}}},
        lambda K: ('paths', '/p', 'parameters', 1)),
    'after body': (
        lambda r, K: {'paths': {'/p': {'get': op(parameters=[
            body({'type': 'string'}), r])}}},
        lambda K: ('paths', '/p', 'get', 'parameters', 0)),
}
PATH = {'path': (lambda r, K: {'paths': {cat('/', K): r}},
                 lambda K: ('paths', cat('/', K)))}
# what is referred to: where it is, where it goes, content, class
TARGETS = {
    'schema': (SCHEMA, ('definitions', ), NEW, {'type': 'string'}, 'Schema'),
    'response': (RESPONSE, ('responses', ), ('components', 'responses'),
                 {'description': text('D')}, 'Response'),
    'path': (PATH, ('paths', ), ('paths', ), {'get': op(summary=text('D'))},
             'PathItem'),
}
for w in ('query', 'header', 'path'):
    TARGETS[w + ' parameter'] = (
        PARAM, ('parameters', ), ('components', 'parameters'),
        {'name': text('N'), 'in': w, 'type': 'string', 'required': True},
        'Parameter')


def key(name, *props):
    return member(name, 'names', 'fresh', *props)


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = v
    return a


def put(doc, home_, k, v):
    d = doc
    for h in home_:
        d = d.setdefault(h, {})
    d[k] = v


def follow(ck, st, o, nav):
    for x in nav:
        o = step(ck, st, o, x)
    return o


def moved(ck, what, place, how, T=None):
    L = app_lab(ck)
    places, old, new, spec, cls = TARGETS[what]
    where, found = places[place]
    K, T = key('K'), key('T') if T is None else T
    if what == 'path':
        T = cat('/', T)
    jp = ptr('#/' + '/'.join(old), T)
    njp = ptr('#/' + '/'.join(new), T)
    doc = base_doc()
    docs = {U: doc}
    if how == 'here':
        ref, full, url = jp, U, U
        want = njp
        put(doc, old, T, spec)
    elif how == 'there':
        # only the object itself is loaded, and stays where it is
        url, njp = O, jp
        docs[O] = base_doc()
        put(docs[O], old, T, spec)
        ref, want = cat('other.json', jp), cat(O, njp)
    else:
        url = PART
        docs[PART] = {'x/y': {T: spec}} if how == 'in part' else dict(spec)
        njp = ptr('#', 'x/y', T) if how == 'in part' else '#'
        ref = cat('sub/part.yml', njp if how == 'in part' else '')
        want = cat(PART, njp)
    merge(doc, where({'$ref': ref}, K))
    st, app, out = start(ck, docs, U, '3.0.0')
    o = L.sure(out, 'loading')
    slot_ = follow(ck, st, o, found(K))
    kind = 'PathItem' if what == 'path' else 'Reference'
    if L.clsname(st, slot_) != kind:
        raise Broken('expected a reference, found %s' % L.show(st, slot_))
    if what == 'path':
        want = OneOf(want, cat(url, njp), cat(url, '' if njp == '#' else njp))
    L.expect(st, want, L.attr(st, slot_, 'ref'), 'the upgraded reference')
    n, r = info(ck, st, slot_, 'the upgraded reference')
    L.expect(st, cat(url, njp), n, 'the absolute upgraded reference')
    if L.clsname(st, r) != cls:
        raise Broken('the upgraded reference leads to %s' % L.show(st, r))
    t = cached(ck, st, app, url, njp, '3.0.0')
    if t != r:
        raise Broken('%s is not what is found at %s' % (
            L.show(st, r), L.show(st, L.mk(st, njp))))
    if st.get(r.id).cls != L.name('o30', cls):
        raise Broken('the upgraded reference leads to an object of another '
                     'version')
    if how == 'here' and follow(ck, st, o, new + (T, )) != r:
        raise Broken('the upgraded reference does not lead into the document')


def below(ck, home_, new, spec, rest, cls, T=None):
    """references to something inside a shared object"""
    L = app_lab(ck)
    T, K = key('T') if T is None else T, key('K')
    doc = base_doc()
    put(doc, home_, T, spec)
    ref = ptr('#/' + '/'.join(home_), T, *rest)
    put(doc, ('definitions', ), K, {'$ref': ref})
    st, app, out = start(ck, {U: doc}, U, '3.0.0')
    o = L.sure(out, 'loading')
    s = follow(ck, st, o, NEW + (K, ))
    L.expect(st, ptr('#/' + '/'.join(new), T, *rest), L.attr(st, s, 'ref'),
             'the upgraded reference')
    n, r = info(ck, st, s, 'the reference')
    if L.clsname(st, r) != cls or follow(
            ck, st, o, new + (T, ) + tuple(
                int(x) if x.isdigit() else x for x in rest)) != r:
        raise Broken('it leads to %s' % L.show(st, r))


def inlined(ck, what, how, inner):
    """shared bodies, and responses with content are copied to where they are
    used, the references they contain still lead to where they did"""
    L = app_lab(ck)
    K, T, M = key('K'), key('T'), key('M')
    doc = base_doc()
    docs = {U: doc}
    r = {'$ref': ptr('#/definitions', T)}
    f, nav = {
        'itself': (lambda r: r, ()),
        'items': (lambda r: {'items': r}, ('items', )),
        'allOf': (lambda r: {'allOf': [{}, r]}, ('allOf', 1)),
        'properties': (lambda r: {'properties': {'p': r}},
                       ('properties', 'p')),
        'deep': (lambda r: {'properties': {'p': {'items': {'allOf': [r]}}}},
                 ('properties', 'p', 'items', 'allOf', 0)),
        'additionalProperties': (lambda r: {'additionalProperties': r},
                                 ('additionalProperties', )),
    }[inner]
    if what == 'response':
        old, spec = ('responses', ), {'description': text('D'),
                                      'schema': f(r)}
    else:
        old, spec = ('parameters', ), body(f(r))
        spec['description'] = text('D')
    if how == 'here':
        home_, ref = doc, ptr('#/' + '/'.join(old), K)
        end = (U, ptr('#', *(NEW + (T, ))))
        want = end[1]
    else:
        home_ = docs[O] = base_doc()
        ref = cat('other.json', ptr('#/' + '/'.join(old), K))
        end = (O, ptr('#/definitions', T))
        want = cat(*end)
        # the same name here as well
        put(doc, ('definitions', ), T, {'description': 'wrong'})
        if how == 'chain there':
            put(docs[O], old, M, {'$ref': ptr('#/' + '/'.join(old), K)})
            ref = cat('other.json', ptr('#/' + '/'.join(old), M))
    put(home_, old, K, spec)
    put(home_, ('definitions', ), T, {'description': text('t')})
    if what == 'response':
        doc['paths']['/p'] = {'get': op(responses={'200': {'$ref': ref}})}
        at = ('responses', '200')
    elif what == 'body':
        doc['paths']['/p'] = {'get': op(parameters=[{'$ref': ref}])}
        at = ('requestBody', )
    else:
        doc['paths']['/p'] = {'get': op(), 'parameters': [{'$ref': ref}]}
        at = ('requestBody', )
    st, app, out = start(ck, docs, U, '3.0.0')
    o = L.sure(out, 'loading')
    x = follow(ck, st, o, ('paths', '/p', 'get') + at)
    L.expect(st, text('D'), L.attr(st, x, 'description'), 'the copy')
    s = follow(ck, st, x, ('content', MIME, 'schema') + nav)
    n, r = info(ck, st, s, 'the reference in the copy')
    L.expect(st, cat(*end), n, 'what the reference in the copy names')
    L.expect(st, text('t'), L.attr(st, r, 'description'),
             'where the reference in the copy leads')
    if cached(ck, st, app, end[0], end[1], '3.0.0') != r:
        raise Broken('the copy leads to another object than the one cached')
    L.expect(st, OneOf(want, cat(*end)), L.attr(st, s, 'ref'),
             'the reference in the copy')


def chain(ck, how):
    """reference to a reference, the second one in a document of its own"""
    L = app_lab(ck)
    T, K, M = key('T'), key('K'), key('M')
    doc = base_doc()
    docs = {U: doc}
    if how == 'here':
        put(doc, ('definitions', ), T, {'description': text('t')})
        put(doc, ('definitions', ), M, {'$ref': ptr('#/definitions', T)})
        ref = ptr('#/definitions', M)
        end = (U, ptr('#/components/schemas', T))
    elif how == 'there':
        docs[O] = base_doc()
        put(docs[O], ('definitions', ), T, {'description': text('t')})
        put(docs[O], ('definitions', ), M, {'$ref': ptr('#/definitions', T)})
        ref = cat('other.json', ptr('#/definitions', M))
        end = (O, ptr('#/definitions', T))
    elif how == 'part':
        docs[PART] = {'a': {'$ref': '#/b'}, 'b': {'description': text('t')}}
        ref = 'sub/part.yml#/a'
        end = (PART, '#/b')
    else:
        docs[PART] = {'a': {'$ref': cat('../swagger.json',
                                        ptr('#/definitions', T))}}
        put(doc, ('definitions', ), T, {'description': text('t')})
        ref = 'sub/part.yml#/a'
        end = (U, ptr('#/components/schemas', T))
    put(doc, ('definitions', ), K, {'$ref': ref})
    st, app, out = start(ck, docs, U, '3.0.0')
    o = L.sure(out, 'loading')
    s = follow(ck, st, o, NEW + (K, ))
    d = L.sure(L.call(st, L.name('utils', 'deref'), s), 'deref')
    if L.clsname(st, d) != 'Schema':
        raise Broken('the chain of references ends at %s' % L.show(st, d))
    L.expect(st, text('t'), L.attr(st, d, 'description'), 'the object the '
             'chain ends at')
    if cached(ck, st, app, end[0], end[1], '3.0.0') != d:
        raise Broken('the chain ends at another object than the one cached')


def routed(ck, pick):
    """pointers are relocated to where the converted object is"""
    L = app_lab(ck)
    T, P = key('T'), cat('/', key('P'), '/{x~}')
    doc = base_doc()
    for h in ('definitions', 'responses', 'securityDefinitions'):
        put(doc, (h, ), T, {
            'definitions': {'properties': {'x': {'type': 'string'}}},
            'responses': {'description': 'd', 'headers': {
                'H': {'type': 'string'}}},
            'securityDefinitions': {'type': 'basic'}}[h])
    B, Q, N = key('B'), key('Q'), key('N')
    put(doc, ('parameters', ), B, body({'type': 'string'}))
    put(doc, ('parameters', ), Q, {'name': 'q', 'in': 'query',
                                   'type': 'string'})
    put(doc, ('parameters', ), N, {'name': 'n', 'in': 'header',
                                   'type': 'string'})
    doc['paths'][P] = {'get': op(), 'parameters': [
        {'name': 'q', 'in': 'query', 'type': 'string'}, body({})]}
    doc['tags'] = [{'name': 'n'}]
    st, app, out = start(ck, {U: doc}, U, '3.0.0')
    o = L.sure(out, 'loading')
    old, new, cls = {
        'definition': (('definitions', T), NEW + (T, ), 'Schema'),
        'inside definition': (('definitions', T, 'properties', 'x'),
                              NEW + (T, 'properties', 'x'), 'Schema'),
        'response': (('responses', T), ('components', 'responses', T),
                     'Response'),
        'inside response': (('responses', T, 'headers', 'H'),
                            ('components', 'responses', T, 'headers', 'H'),
                            'Header'),
        'security': (('securityDefinitions', T),
                     ('components', 'securitySchemes', T), 'SecurityScheme'),
        'query': (('parameters', Q), ('components', 'parameters', Q),
                  'Parameter'),
        'header': (('parameters', N), ('components', 'parameters', N),
                   'Parameter'),
        'body': (('parameters', B), ('components', 'requestBodies', B),
                 'RequestBody'),
        'parameters': (('parameters', ), ('components', 'parameters'), None),
        'definitions': (('definitions', ), NEW, None),
        'path': (('paths', P), ('paths', P), 'PathItem'),
        'operation': (('paths', P, 'get'), ('paths', P, 'get'), 'Operation'),
        'first of path': (('paths', P, 'parameters', '0'),
                          ('paths', P, 'parameters', '0'), 'Parameter'),
        'body of path': (('paths', P, 'parameters', '1'),
                         ('paths', P, 'x-pyopenapi_internal_request_body'),
                         None),
        'tag': (('tags', '0'), ('tags', '0'), 'Tag'),
        'root': ((), (), 'OpenApi'),
    }[pick]
    store = L.attr(st, app, 'spec_obj_store')
    want = ptr('#', *new)
    for a, b in (('2.0', '3.0.0'), ('1.2', '3.0.0')):
        v = L.sure(L.meth(st, store, 'relocate', U, ptr('#', *old), a, b),
                   'relocate')
        L.expect(st, want, v, 'relocating')
    for a, b in (('2.0', '2.0'), ('3.0.0', '3.0.0'), ('1.2', '2.0')):
        v = L.sure(L.meth(st, store, 'relocate', U, ptr('#', *old), a, b),
                   'relocate')
        L.expect(st, ptr('#', *old), v, 'relocating from %s to %s' % (a, b))
    if cls:
        r = cached(ck, st, app, U, want, '3.0.0')
        if L.clsname(st, r) != cls:
            raise Broken('%s is found there' % L.show(st, r))


PICKS = ('definition', 'inside definition', 'response', 'inside response',
         'security', 'query', 'header', 'body', 'parameters', 'definitions',
         'path', 'operation', 'first of path', 'body of path', 'tag', 'root')


ODD = ('', '/', 'a/b', 'A~1', 'a b', ' a', 'definitions', 'parameters', '0',
       'x-a', 'get', '%7B', 'components', '#', '$ref', 'a#b', 'a?b')


def check(ck):
    ck.floor = 100
    R = 'an upgraded reference names and leads to the upgraded object'
    for what, t in TARGETS.items():
        for place in t[0]:
            for how in ('here', 'there', 'in part', 'whole part'):
                ck.ob('%s from %s %s' % (what, place, how), R, lambda: moved(
                    ck, what, place, how))
    S = {'items': {'type': 'string'}, 'allOf': [{'type': 'object'}, {}],
         'properties': {'a/b': {'type': 'string'}},
         'additionalProperties': {'type': 'string'}}
    for rest in (('items', ), ('allOf', '1'), ('properties', 'a/b'),
                 ('additionalProperties', )):
        ck.ob('below definition %s' % '/'.join(rest), R, lambda: below(
            ck, ('definitions', ), NEW, S, rest, 'Schema'))
    # names that may be confused with something else
    for T in ODD:
        for what, t in TARGETS.items():
            for how in ('here', 'there', 'in part'):
                ck.ob('%s called %r %s' % (what, T, how), R, lambda: moved(
                    ck, what, list(t[0])[0], how, T))
        for rest in (('items', ), ('properties', 'a/b')):
            ck.ob('below definition called %r %s' % (T, '/'.join(rest)), R,
                  lambda: below(ck, ('definitions', ), NEW, S, rest,
                                'Schema', T))
    for what in ('response', 'body', 'body of path'):
        for how in ('here', 'there', 'chain there'):
            for inner in ('itself', 'items', 'allOf', 'properties', 'deep',
                          'additionalProperties'):
                if how == 'chain there' and inner not in ('itself',
                                                             'deep'):
                    continue
                ck.ob('%s with %s copied from %s' % (what, inner, how),
                      'copied references lead to where they did',
                      lambda: inlined(ck, what, how, inner))
    for how in ('here', 'there', 'part', 'part back'):
        ck.ob('chain ' + how, R, lambda: chain(ck, how))
    for pick in PICKS:
        ck.ob('relocating %s' % pick, 'a pointer is relocated to where the '
              'converter puts the object', lambda: routed(ck, pick))
