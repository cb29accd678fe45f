"""helpers shared by the conversion checks: generic Swagger 2.0 objects and
what the specifications say they become in OpenAPI 3.0.0"""
from pyabs.lab import *  # noqa

# keyword -> generic value.  Text is non-empty, numbers/flags/defaults are
# completely unknown (so a truthiness test on them is an unknown predicate).
SCALARS_BASE = {
    'format': lambda n: text(n + 'format'),
    'default': lambda n: opaque(n + 'default', ('nottype', 'NoneType')),
    'maximum': lambda n: num(n + 'maximum'),
    'exclusiveMaximum': lambda n: boolean(n + 'exMax'),
    'minimum': lambda n: num(n + 'minimum'),
    'exclusiveMinimum': lambda n: boolean(n + 'exMin'),
    'maxLength': lambda n: integer(n + 'maxLength'),
    'minLength': lambda n: integer(n + 'minLength'),
    'pattern': lambda n: text(n + 'pattern'),
    'maxItems': lambda n: integer(n + 'maxItems'),
    'minItems': lambda n: integer(n + 'minItems'),
    'uniqueItems': lambda n: boolean(n + 'uniqueItems'),
    'multipleOf': lambda n: num(n + 'multipleOf'),
}
SCALARS_SCHEMA = dict(SCALARS_BASE)
SCALARS_SCHEMA.update({
    'title': lambda n: text(n + 'title'),
    'description': lambda n: text(n + 'description'),
    'maxProperties': lambda n: integer(n + 'maxProperties'),
    'minProperties': lambda n: integer(n + 'minProperties'),
    'readOnly': lambda n: boolean(n + 'readOnly'),
    'example': lambda n: opaque(n + 'example', ('nottype', 'NoneType')),
})


def enum(n):
    return [opaque(n + 'enum0'), opaque(n + 'enum1')]


def base_full(n, type_='string'):
    d = {'type': type_}
    for k, f in SCALARS_BASE.items():
        d[k] = f(n)
    d['enum'] = enum(n)
    return d


def schema_full(n, type_='string'):
    d = {'type': type_}
    for k, f in SCALARS_SCHEMA.items():
        d[k] = f(n)
    d['enum'] = enum(n)
    return d


XML = ('name', 'namespace', 'prefix', 'attribute', 'wrapped')


def xml_spec(n):
    return {'name': text(n + 'xn'), 'namespace': text(n + 'xns'),
            'prefix': text(n + 'xp'), 'attribute': boolean(n + 'xa'),
            'wrapped': boolean(n + 'xw')}


def ext_docs(n):
    return {'url': text(n + 'edurl'), 'description': text(n + 'eddesc')}


def convert(ck, st, fname, obj, *args, **kw):
    """call a converter by its public name; -> value"""
    L = ck.lab
    f = L.name('c20', fname)
    return L.sure(L.call(st, f, obj, *args, **kw), fname)


def items_full(n, depth=3):
    """an Items object with every keyword, nested; converts to itself"""
    d = base_full(n, 'array' if depth else 'string')
    if depth:
        d['items'] = items_full(n + 'items.', depth - 1)
    return d


def param_full(n, in_, type_='array'):
    """non-body parameter and its expected 3.0.0 form"""
    name = text(n + 'name')
    top = {'name': name, 'in': in_, 'description': text(n + 'desc'),
           'required': boolean(n + 'req'),
           'allowEmptyValue': boolean(n + 'aev')}
    s = base_full(n, type_)
    s['items'] = items_full(n + 'i.')
    src = dict(top)
    src.update(s)
    exp = dict(top)
    exp['schema'] = s
    if type_ == 'array':
        exp.update(style(in_))
    return src, exp


def link(ck, st, ref, target, ns='a20', group='ReferenceAttributeGroup'):
    """what the reference resolver leaves behind on a $ref"""
    L = ck.lab
    g = L.sure(L.meth(st, ref, 'get_attrs', 'migration', L.name(ns, group)),
               'get_attrs')
    L.run(st, lambda s: L.I.setattr(g, 'ref_obj', target, s))
    return ref


def absolute(ck, st, obj, spec):
    """what the resolver leaves behind on every reference in a schema; ->
    the schema as it reads from elsewhere"""
    L = ck.lab
    if '$ref' in spec:
        ref = cat('file:///other.json', spec['$ref'])
        g = L.sure(L.meth(st, obj, 'get_attrs', 'migration', L.name(
            'a20', 'ReferenceAttributeGroup')), 'get_attrs')
        L.run(st, lambda s: L.I.setattr(g, 'normalized_ref', ref, s))
        return {'$ref': ref}
    out = dict(spec)
    for k in ('items', 'additionalProperties'):
        if isinstance(spec.get(k), dict):
            out[k] = absolute(ck, st, L.attr(st, obj, k), spec[k])
    if 'allOf' in spec:
        out['allOf'] = [absolute(ck, st, L.item(st, L.attr(st, obj, 'allOf'),
                                                i), x)
                        for i, x in enumerate(spec['allOf'])]
    if 'properties' in spec:
        out['properties'] = {
            k: absolute(ck, st, L.item(st, L.attr(st, obj, 'properties'), k),
                        x) for k, x in spec['properties'].items()}
    return out


def foreign_schemas():
    """schemas with references in every nested position, and in pairs"""
    r = lambda n: {'$ref': '#/definitions/' + n}
    spots = {'itself': lambda x: x,
             'items': lambda x: {'type': 'array', 'items': x},
             'additional': lambda x: {'additionalProperties': x},
             'all': lambda x: {'allOf': [{'title': text('t')}, x]},
             'prop': lambda x: {'properties': {'a': {'type': 'string'},
                                               'b': x}}}
    for n, f in spots.items():
        yield n, f(r('X'))
        for m, g in spots.items():
            if 'itself' not in (n, m):
                yield '%s of %s' % (m, n), f(g(r('X')))
                x = f(r('X'))
                for k, v in g(r('Y')).items():
                    x.setdefault(k, v)
                yield '%s and %s' % (n, m), x


def raises(ck, out, types, what):
    """the call must not complete, and fail with one of these exceptions"""
    if out.val is not None:
        raise Broken('%s is accepted (returns %s)' % (
            what, ck.lab.show(out.st, out.val)))
    got = set(out.exc_types())
    if not got:
        raise Undecided('%s: no outcome' % what)
    if not got <= set(types):
        raise Broken('%s fails with %s' % (what, sorted(out.excs())[:3]),
                     ck.lab.exc_loc(out))


URLENC = 'application/x-www-form-urlencoded'
MULTI = 'multipart/form-data'
METHODS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')


def style(in_, cf='csv'):
    """how 3.0.0 expresses a collectionFormat; members equal to a default of
    3.0.0 may be left out"""
    if in_ in ('query', 'formData'):
        if cf == 'csv':
            return {'style': 'form', 'explode': False}
        if cf == 'multi':
            return {'style': 'form', 'explode': True}
        return {'style': {'ssv': 'spaceDelimited',
                          'pipes': 'pipeDelimited'}[cf],
                'explode': Opt(False)}
    return {'style': Opt('simple'), 'explode': Opt(False)}


def reach(st, v, seen=None, through=(DictR, ListR)):
    """ids of the containers reachable from v"""
    seen = set() if seen is None else seen
    if isinstance(v, Alt):
        for o in v.opts:
            reach(st, o, seen, through)
    elif isinstance(v, Tup):
        for o in v.items:
            reach(st, o, seen, through)
    elif isinstance(v, Ref) and v.id not in seen:
        r = st.get(v.id)
        if not isinstance(r, through):
            return seen
        seen.add(v.id)
        if isinstance(r, DictR):
            for k, e in r.d.items():
                reach(st, e[0], seen, through)
        elif isinstance(r, ListR):
            for x, _ in r.items:
                reach(st, x, seen, through)
        elif isinstance(r, InstR):
            for x in r.attrs.values():
                reach(st, x[0] if isinstance(x, tuple) else x, seen, through)
    return seen


def freeze(st, ids):
    """content of containers, for comparing later"""
    out = {}
    for i in ids:
        r = st.get(i)
        if isinstance(r, DictR):
            out[i] = (tuple((k, e[0], e[1]) for k, e in r.d.items()),
                      r.opaque is not None)
        elif isinstance(r, ListR):
            out[i] = (tuple(r.items), r.opaque is not None)
    return out


def unchanged(ck, st, before, what):
    for i, old in before.items():
        new = freeze(st, [i]).get(i)
        if new != old:
            r = st.get(i)
            loc = None
            if isinstance(r, DictR):
                o = {k: v for k, v, m in old[0]}
                for k, e in r.d.items():
                    if o.get(k) != e[0]:
                        loc = e[2]
            raise Broken('%s changes %s' % (what, ck.lab.show(st, Ref(i))),
                         loc if loc != 'input' else None)


def same(ck, st, a, b, path='', depth=0):
    """two abstract values have equal content"""
    L = ck.lab
    if isinstance(a, Alt) and isinstance(b, Alt) and a != b and \
            len(a.opts) == len(b.opts):
        # one of several values, depending on something unknown
        for x in a.opts:
            if all(same(ck, st, x, y, path, depth + 1) for y in b.opts):
                return ['%s: %s vs %s' % (path, L.show(st, x),
                                          L.show(st, b))]
        return []
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.id == b.id:
            return []
        ra, rb = st.get(a.id), st.get(b.id)
        if type(ra) is not type(rb):
            return ['%s: %s vs %s' % (path, L.show(st, a), L.show(st, b))]
        if isinstance(ra, DictR):
            if ra.opaque is not None or rb.opaque is not None:
                raise Undecided('unknown keys')
            out = []
            for k in list(ra.d) + [k for k in rb.d if k not in ra.d]:
                x, y = ra.d.get(k), rb.d.get(k)
                if x is None or y is None or x[1] != y[1]:
                    out.append('%s/%s only once' % (path, L.show(st, k)))
                else:
                    out += same(ck, st, x[0], y[0], '%s/%s' % (
                        path, L.show(st, k)), depth + 1)
            return out
        if isinstance(ra, ListR):
            if len(ra.items) != len(rb.items) or ra.kind != rb.kind:
                return ['%s: %s vs %s' % (path, L.show(st, a), L.show(st, b))]
            out = []
            for i, ((x, m), (y, n)) in enumerate(zip(ra.items, rb.items)):
                if m != n:
                    out.append('%s/%d' % (path, i))
                out += same(ck, st, x, y, '%s/%d' % (path, i), depth + 1)
            return out
        return ['%s: %s vs %s' % (path, L.show(st, a), L.show(st, b))]
    if a == b:
        return []
    return ['%s: %s vs %s' % (path, L.show(st, a), L.show(st, b))]


def big_swagger():
    """a Swagger 2.0 document that uses every construct"""
    m = lambda n: member(n, 'bigkeys')
    u = lambda n: cat('/', Sym(('atom', n), 'str', frozenset((
        'truthy', 'plain', ('group', 'bigpaths')))))
    ed = ext_docs('big.')
    sch = schema_full('big.s.', 'object')
    sch.update({'required': [text('rq')], 'discriminator': text('dc'),
                'xml': xml_spec('big.'), 'externalDocs': ed,
                'items': {'type': 'string', 'enum': enum('bi')},
                'allOf': [{'$ref': text('bref')}, {'title': text('tt')}],
                'properties': {m('p1'): {'type': 'array', 'items': {
                    'enum': enum('bp')}}, m('p2'): {'$ref': text('bref2')}},
                'additionalProperties': {'required': [text('rq2')]}})
    q = dict(param_full('big.q.', 'query')[0])
    body = {'name': text('bb'), 'in': 'body', 'required': True,
            'description': text('bd'), 'schema': sch}

    def form(n, t='string'):
        return {'name': member(n, 'bigform'), 'in': 'formData', 'type': t,
                'required': True, 'enum': enum(n)}
    resp = {'description': text('rd'), 'schema': sch, 'headers': {
        m('h1'): dict(items_full('big.h.'), description=text('hd'))}}
    op1 = {'summary': text('os'), 'operationId': text('oi'),
           'tags': [text('t1'), text('t2')], 'externalDocs': ed,
           'security': [{m('sec'): [text('sc1')]}], 'deprecated': boolean('dp'),
           'consumes': [text('cons')], 'produces': [text('prod')],
           'parameters': [q, body],
           'responses': {m('c1'): resp, m('c2'): {'description': text('x')}}}
    op2 = {'consumes': [URLENC, MULTI],
           'parameters': [form('f1'), form('f2', 'file')],
           'responses': {m('c1'): resp}}
    return {
        'swagger': '2.0', 'host': 'h.com', 'basePath': '/v1',
        'schemes': ['https'], 'consumes': ['application/json', MULTI],
        'produces': ['application/json'],
        'info': {'title': text('it'), 'version': text('iv'),
                 'contact': {'name': text('icn')},
                 'license': {'name': text('iln')}},
        'paths': {
            u('u1'): {'get': op1, 'post': op2, 'parameters': [q]},
            u('u2'): {'parameters': [form('f3'), q],
                      'put': {'parameters': [form('f4')]},
                      'patch': {}, 'delete': {'parameters': [form('f5')]}},
            u('u3'): {'parameters': [body], 'put': {}, 'post': {}},
        },
        'definitions': {m('d1'): sch, m('d2'): {'$ref': text('dr')}},
        'parameters': {m('gp1'): q, m('gp2'): body, m('gp3'): form('f6')},
        'responses': {m('gr1'): resp},
        'securityDefinitions': {
            m('sec'): {'type': 'oauth2', 'flow': 'accessCode',
                       'authorizationUrl': text('au'), 'tokenUrl': text('tu'),
                       'scopes': {m('s1'): text('sd')}},
            m('sec2'): {'type': 'basic'}},
        'security': [{m('sec'): [text('sc2')]}],
        'tags': [{'name': text('tn'), 'externalDocs': ed}],
        'externalDocs': ed,
    }
