"""Swagger 1.2 data types and parameters in 2.0"""
from .app import *  # noqa

ODDRES = ('/a/b', '/a/b/c', '/a-b', '/a.b', '/{x}', '/a b', '/a/', '/A',
          '/a~b', '/0')
D12 = 'http://h.com/a/api-docs'
SEP = '!##!'
PRIM = ('integer', 'number', 'string', 'boolean', 'array')
VALS = {  # keyword -> (name in 2.0, generic values)
    'format': ('format', lambda n: [text(n + 'format')]),
    'defaultValue': ('default', lambda n: [
        opaque(n + 'default', ('nottype', 'NoneType')), 0, False, '']),
    'uniqueItems': ('uniqueItems', lambda n: [boolean(n + 'unique'), True,
                                              False]),
    'enum': ('enum', lambda n: [[text(n + 'e0'), text(n + 'e1')],
                                [text(n + 'e2')]]),
}
NUMS = {  # text in 1.2 -> (as integer, as number)
    '0': (0, 0.0), '1': (1, 1.0), '-7': (-7, -7.0), '1.0': (1, 1.0),
    '9223372036854775807': (9223372036854775807, float(9223372036854775807)),
    '9007199254740993': (9007199254740993, 9007199254740992.0),
    '2.5': (None, 2.5), '-0.25': (None, -0.25),
    # as numbers, too
    0: (0, 0.0), 7: (7, 7.0), -3: (-3, -3.0), 2.5: (None, 2.5),
    9007199254740993: (9007199254740993, 9007199254740992.0),
}


def listing(apis=('/a', ), **kw):
    d = {'swaggerVersion': '1.2', 'apiVersion': '1',
         'apis': [{'path': p} for p in apis]}
    d.update(kw)
    return d


def decl(apis, rp='/a', base='http://h.com/v', **kw):
    d = {'swaggerVersion': '1.2', 'resourcePath': rp, 'basePath': base,
         'apis': apis}
    d.update(kw)
    return d


def oper(**kw):
    d = {'method': 'GET', 'nickname': 'n', 'type': 'void', 'parameters': []}
    d.update(kw)
    return {k: v for k, v in d.items() if v is not DROP}


DROP = object()


def loaded(ck, docs, sep=None):
    """-> state, outcome of loading these 1.2 documents as 2.0"""
    st, app, out = start(ck, docs, D12, '2.0', sep=sep)
    return st, out


def dumped(ck, docs, sep=None):
    L = ck.lab
    st, out = loaded(ck, docs, sep)
    o = L.sure(out, 'upgrading')
    if L.clsname(st, o) != 'Swagger':
        raise Broken('upgrading gives %s' % L.show(st, o))
    return st, L.sure(L.meth(st, o, 'dump'), 'dump')


def one(op=None, models=None, rp='/a', **kw):
    d = decl([{'path': '/p', 'operations': [op or oper()]}], rp, **kw)
    if models is not None:
        d['models'] = models
    return {D12: listing(), D12 + '/a': d}


def at(ck, st, d, *toks):
    for t in toks:
        d = ck.lab.item(st, d, t)
    return d


# where a data type may be: name -> (documents, where it is in 2.0)
def place(where, spec, rp='/a', name=None):
    more = {'T': {'id': NAME if name is None else name, 'properties': {}}}
    if where == 'property':
        return one(models=dict({'M': {'id': 'M', 'properties': {
            member('P', 'ps'): spec}}}, **more), rp=rp), (
                'definitions', cat(rp_scope(rp), SEP, 'M') if rp != '/' else
                'M', 'properties', member('P', 'ps'))
    if where == 'result':
        return one(oper(**dict({'type': DROP}, **spec)), more, rp=rp), (
            'paths', '/v/p', 'get', 'responses', 'default', 'schema')
    if where == 'body':
        p = dict(spec, paramType='body', name='body')
        return one(oper(method='POST', parameters=[p]), more, rp=rp), (
            'paths', '/v/p', 'post', 'parameters', 0, 'schema')
    p = dict(spec, paramType=where, name='q')
    return one(oper(parameters=[p]), rp=rp), (
        'paths', '/v/p', 'get', 'parameters', 0)


def rp_scope(rp):
    return rp[1:] if isinstance(rp, str) else R


NAME = text('Model', 'fresh')
R = Sym(('atom', 'R'), 'str', frozenset(('truthy', 'plain')))
SCHEMAS = ('property', 'result', 'body')
PARAMS = ('query', 'header', 'path', 'form')
EXTRA = {'body': {}, 'property': {}, 'result': {}}


def dtype(ck, where, spec, exp, rp='/a', sep=None, name=None):
    docs, toks = place(where, spec, rp, name)
    st, d = dumped(ck, docs, sep)
    exp = dict(exp)
    if where in PARAMS:
        exp.update({'name': 'q', 'in': 'formData' if where == 'form' else
                    where})
    ck.lab.expect(st, exp, at(ck, st, d, *toks), '%s %r' % (where, sorted(
        spec)))


def refused(ck, where, spec):
    docs, toks = place(where, spec)
    st, out = loaded(ck, docs)
    raises(ck, out, ('SchemaError', ), '%s with %r' % (where, spec))


def ref(name, rp='/a', sep=SEP):
    """where a model of this resource is found"""
    s = rp_scope(rp)
    return {'$ref': cat('#/definitions/', enc(cat(s, sep, name) if s != ''
                                              else name))}


def array(items, **kw):
    return dict({'type': 'array', 'items': items,
                 'collectionFormat': Opt('csv')}, **kw)


def check(ck):
    ck.floor = 300
    T = 'a data type keeps its meaning'
    name = NAME

    waiting = {}

    def ob(n, where, spec, exp, **kw):
        if kw:
            ck.ob('%s of %s' % (n, where), T, lambda: dtype(
                ck, where, spec, exp, **kw))
        else:
            waiting.setdefault(where, []).append((n, spec, exp))

    def no(n, where, spec):
        ck.ob('%s of %s' % (n, where), 'what 2.0 cannot express is refused',
              lambda: refused(ck, where, spec))

    # names of models that may be confused with something else
    for w in SCHEMAS:
        for odd in ('a/b', 'm~n', 'M~1', 'a b', 'Integer', 'integers', '$ref',
                    'List[M]', 'a!b', '%2F', '0', ' M'):
            ob('$ref to %r' % odd, w, {'$ref': odd}, ref(odd),
               name=odd)
            if odd.lower() not in PRIM:
                ob('type %r' % odd, w, {'type': odd}, ref(odd),
                   name=odd)
            ob('items $ref %r' % odd, w, {'type': 'array', 'items': {
                '$ref': odd}}, array(ref(odd)), name=odd)
    for w in SCHEMAS + PARAMS:
        for t in PRIM[:4]:
            ob('type ' + t, w, {'type': t}, {'type': t})
            for k, (k2, vs) in VALS.items():
                if k == 'uniqueItems' and w in PARAMS:
                    continue
                for i, v in enumerate(vs('v')):
                    ob('%s %d with type %s' % (k, i, t), w, {
                        'type': t, k: v}, {'type': t, k2: v})
        for a in VALS:
            for b in VALS:
                if a < b and not ('uniqueItems' in (a, b) and w in PARAMS):
                    ob('%s and %s' % (a, b), w, {
                        'type': 'string', a: VALS[a][1]('v')[0],
                        b: VALS[b][1]('v')[0]},
                       {'type': 'string', VALS[a][0]: VALS[a][1]('v')[0],
                        VALS[b][0]: VALS[b][1]('v')[0]})
        for m in ('minimum', 'maximum'):
            for s, (i, f) in NUMS.items():
                if i is not None:
                    ob('%s %r of integer' % (m, s), w, {
                        'type': 'integer', m: s}, {'type': 'integer', m: i})
                ob('%s %r of number' % (m, s), w, {
                    'type': 'number', m: s}, {'type': 'number', m: f})
            ob('empty %s' % m, w, {'type': 'string', m: ''},
               {'type': 'string'})
            no('%s of string' % m, w, {'type': 'string', m: '1'})
            no('%s of boolean' % m, w, {'type': 'boolean', m: '0'})
        ob('both limits', w, {'type': 'integer', 'minimum': '0',
                              'maximum': '10'},
           {'type': 'integer', 'minimum': 0, 'maximum': 10})

        # arrays
        for t in PRIM[:4]:
            a = {'type': 'array', 'items': {'type': t}}
            e = {'type': t}
            ob('array of ' + t, w, a, array(e) if w in PARAMS else dict(
                a, items=e))
            a = {'type': 'array', 'items': {'type': t, 'format': text('f')}}
            ob('array of %s with format' % t, w, a, array(a['items'])
               if w in PARAMS else a)
        for u in (True, False, boolean('u')):
            a = {'type': 'array', 'items': {'type': 'string'},
                 'uniqueItems': u}
            ob('unique %r array' % (u, ), w, a, array(
                a['items'], uniqueItems=u) if w in PARAMS else a)
        a = {'type': 'array', 'items': {'type': 'integer', 'format': text(
            'f')}, 'defaultValue': opaque('dv', ('nottype', 'NoneType'))}
        e = dict(a, default=a['defaultValue'])
        if w in SCHEMAS:
            # what is said of an array is not said of its items
            for k, (k2, vs) in VALS.items():
                for f in ({}, {'format': text('f')}):
                    for v in vs('a'):
                        i = dict({'type': 'integer'}, **f)
                        ob('array with %s %r, items with %s' % (
                            k, v, sorted(f)), w, {
                                'type': 'array', 'items': i, k: v},
                           {'type': 'array', 'items': i, k2: v})
        else:
            ob('array with format', w, dict(a, format=text('af')), array(
                a['items'], format=text('af'), default=e['default']))
        del e['defaultValue']
        ob('array with default', w, a, array(e['items'], default=e[
            'default']) if w in PARAMS else e)

    # references
    for w in SCHEMAS:
        for rp, n in (('/a', 'named'), (cat('/', R), 'any'), ('/', 'no'),
                      *[(x, x) for x in ODDRES]):
            for k in ('type', '$ref'):
                ob('%s of %s resource' % (k, n), w, {k: name}, ref(name, rp),
                   rp=rp)
                ob('items %s of %s resource' % (k, n), w, {
                    'type': 'array', 'items': {k: name}},
                   {'type': 'array', 'items': ref(name, rp)}, rp=rp)
    for w in PARAMS:
        no('$ref', w, {'$ref': 'M'})
        no('items $ref', w, {'type': 'array', 'items': {'$ref': 'M'}})
        no('items model', w, {'type': 'array', 'items': {'type': 'M'}})
        ob('type File', w, {'type': 'File'}, {'type': 'file'})

    # several values
    for w in PARAMS:
        for t in PRIM[:4]:
            s = {'type': t, 'allowMultiple': True}
            ob('several ' + t, w, s, array({'type': t}))
            ob('not several ' + t, w, dict(s, allowMultiple=False),
               {'type': t})
            ob('several %s with format' % t, w, dict(s, format=text('f')),
               array({'type': t, 'format': text('f')}))
            en = [text('e0'), text('e1')]
            ob('several %s of enum' % t, w, dict(s, enum=en),
               array({'type': t, 'enum': en}))
            for u in (True, False):
                ob('several %s unique %s' % (t, u), w, dict(s, uniqueItems=u),
                   array({'type': t}, uniqueItems=u))
            for dv in (text('dv'), 0, False):
                ob('several %s with default %r' % (t, dv), w, dict(
                    s, defaultValue=dv), array({'type': t}, default=[dv]))
        for m in ('minimum', 'maximum'):
            for x, (i, f) in NUMS.items():
                if i is not None:
                    ob('several integers with %s %r' % (m, x), w, {
                        'type': 'integer', 'allowMultiple': True, m: x},
                       array({'type': 'integer', m: i}))
                ob('several numbers with %s %r' % (m, x), w, {
                    'type': 'number', 'allowMultiple': True, m: x},
                   array({'type': 'number', m: f}))
        no('several $ref', w, {'$ref': 'M', 'allowMultiple': True})
        no('several models', w, {'type': 'M', 'allowMultiple': True})
        ob('several of array', w, {
            'type': 'array', 'items': {'type': 'string'},
            'allowMultiple': True}, array({'type': 'string'}))

        # the members of a parameter
        for k, vs in {'required': (True, False), 'description': (
                text('d'), )}.items():
            for v in vs:
                ob('%s %r' % (k, v), w, {'type': 'string', k: v},
                   {'type': 'string', k: v})
    for k, vs in {'required': (True, False), 'description': (
            text('d'), ), 'name': (text('bn'), )}.items():
        for v in vs:
            def body(k=k, v=v):
                p = {'paramType': 'body', 'name': 'b', 'type': 'string'}
                p[k] = v
                st, d = dumped(ck, one(oper(method='PUT', parameters=[p])))
                ck.lab.expect(st, dict({
                    'in': 'body', 'name': 'b', 'schema': {'type': 'string'}},
                    **{k: v}), at(ck, st, d, 'paths', '/v/p', 'put',
                                  'parameters', 0), 'body with ' + k)
            ck.ob('body with %s %r' % (k, v), T, body)

    def prop_desc():
        docs, toks = place('property', {'type': 'string', 'description':
                                        text('pd')})
        st, d = dumped(ck, docs)
        ck.lab.expect(st, {'type': 'string', 'description': text('pd')},
                      at(ck, st, d, *toks), 'property')
    ck.ob('description of property', T, prop_desc)

    def ordered():
        ps = [{'paramType': w, 'name': text('n' + w), 'type': t}
              for w, t in zip(PARAMS, PRIM)]
        st, d = dumped(ck, one(oper(parameters=ps)))
        ck.lab.expect(st, [{
            'in': 'formData' if p['paramType'] == 'form' else p['paramType'],
            'name': p['name'], 'type': p['type']} for p in ps],
            at(ck, st, d, 'paths', '/v/p', 'get', 'parameters'), 'parameters')
    ck.ob('parameters in order', T, ordered)

    # everything that can be in one document
    for w, cases in waiting.items():
        for j in range(0, len(cases), 10):
            some = cases[j:j + 10]
            ck.ob('%s of %s' % (', '.join(c[0] for c in some), w), T,
                  lambda: several(ck, w, [(dict(x[1]), placed(w, x[2]))
                                          for x in some], 0, w))
    check_together(ck)

    def sep(s, k, w):
        docs, toks = place(w, {k: name})
        if w == 'property':
            toks = ('definitions', cat('a', s, 'M')) + toks[2:]
        st, d = dumped(ck, docs, sep=s)
        ck.lab.expect(st, ref(name, sep=s), at(ck, st, d, *toks), 'reference')
    for s in ('.', '::', '/'):
        for w in SCHEMAS:
            for k in ('type', '$ref'):
                ck.ob('separator %r with %s of %s' % (s, k, w), T,
                      lambda: sep(s, k, w))


# keyword -> (1.2, 2.0); the second pair has no content
WORDS = {
    'format': ((text('wf'), text('wf')), None),
    'defaultValue': ((text('wd'), text('wd')), ('', '')),
    'uniqueItems': ((True, True), (False, False)),
    'enum': (([text('we')], [text('we')]), None),
    'minimum': (('1', 1), (0, 0)), 'maximum': (('9', 9), ('0', 0)),
    'required': ((True, True), (False, False)),
    'description': ((text('wt'), text('wt')), ('', '')),
}


def words(w, t, on):
    """a data type with several keywords -> in 1.2, in 2.0"""
    src, exp = {}, {}
    multi = t.startswith('*')
    if t == 'array' or t == '*array':
        src['items'], exp['items'] = {'type': 'string'}, {'type': 'string'}
    src['type'] = exp['type'] = t.strip('*')
    for k, i in on.items():
        a, b = WORDS[k][i]
        if k[1:] in ('inimum', 'aximum') and 'number' in t:
            b = float(b)
        src[k] = a
        exp[VALS[k][0] if k in VALS else k] = b
    if multi:
        src['allowMultiple'] = True
    if w in PARAMS and multi and t != '*array':
        items = {'type': src['type']}
        for k in ('format', 'enum', 'minimum', 'maximum'):
            if k in exp:
                items[k] = exp.pop(k)
        exp = dict(exp, type='array', items=items)
        if 'default' in exp:
            exp['default'] = [exp['default']]
    if w in PARAMS and 'items' in exp:
        exp['collectionFormat'] = Opt('csv')
    return src, placed(w, exp)


def placed(w, exp):
    exp = dict(exp)
    if w == 'body':
        exp = {'in': 'body', 'schema': exp}
        for k in ('required', 'description'):
            if k in exp['schema']:
                exp[k] = exp['schema'].pop(k)
    elif w in PARAMS:
        exp['in'] = 'formData' if w == 'form' else w
    return exp


def together(ck, w, t, ons, more):
    several(ck, w, [words(w, t, on) for on in ons], more, '%s of %s' % (w, t))


def several(ck, w, cases, more, what):
    """data types in one document, which may have more in it"""
    L = ck.lab
    apis, ps, props, eps, eprops = [], [], {}, [], {}
    o = {}
    if more:
        o = {'summary': 's', 'notes': 'n', 'deprecated': 'true', 'consumes':
             ['a/b'], 'produces': ['a/c'], 'authorizations': {'k': []}}
    for i, (src, exp) in enumerate(cases):
        n = 'n%d' % i
        if w == 'property':
            props[n], eprops[n] = src, exp
        elif w == 'result':
            apis.append({'path': '/' + n, 'operations': [oper(
                **dict(o, **src))]})
        else:
            ps.append(dict(src, paramType=w, name=n))
            eps.append(dict(exp, name=n))
    m = 'GET'
    if ps:
        m = 'POST'
        apis.append({'path': '/p', 'operations': [oper(
            parameters=ps, method=m, **o)]})
    models = {'M': {'id': 'M', 'properties': props}}
    kw, top = {}, {}
    if more:
        models['N'] = {'id': 'N', 'description': 'x', 'required': ['y'],
                       'subTypes': ['M'], 'discriminator': 'y',
                       'properties': {'y': {'type': 'string', 'format': 'z',
                                            'description': 'w'}}}
        models['M'].update({'description': 'x', 'required': ['n0'],
                            'discriminator': 'n1'})
        kw = {'consumes': ['c/a'], 'produces': ['c/b'], 'apiVersion': '3',
              'authorizations': {'l': []}}
        top = {'info': {'title': 'i', 'description': 'j'},
               'authorizations': {'k': {'type': 'basicAuth'}}}
    docs = {D12: dict(listing(), **top), D12 + '/a': decl(
        apis, models=models, **kw)}
    st, d = dumped(ck, docs)
    if w == 'property':
        L.expect(st, eprops, at(ck, st, d, 'definitions', 'a' + SEP + 'M',
                                'properties'), what)
    elif w == 'result':
        for i, (src, exp) in enumerate(cases):
            L.expect(st, exp, at(ck, st, d, 'paths', '/v/n%d' % i, 'get',
                                 'responses', 'default', 'schema'), what)
    else:
        L.expect(st, eps, at(ck, st, d, 'paths', '/v/p', 'post',
                             'parameters'), what)


def check_together(ck):
    R = 'keywords do not influence each other'
    for w in SCHEMAS + PARAMS:
        for t in PRIM + (('*string', '*number', '*array')
                         if w in PARAMS else ()):
            ks = [k for k in WORDS
                  if (k[1:] != 'inimum' and k[1:] != 'aximum' or
                      t.strip('*') in ('integer', 'number')) and
                  (k != 'uniqueItems' or w in SCHEMAS or 'a' in t[:2] or
                   t[0] == '*') and
                  (k != 'required' or w in PARAMS + ('body', )) and
                  (k != 'description' or w != 'result') and
                  (k not in ('format', 'enum') or t != '*array')]
            if w in PARAMS and t == 'array':
                ks.remove('enum')
            every = {k: 0 for k in ks}
            ons = [every, {}]
            for k in ks:
                ons += [{x: 0 for x in ks if x != k}, {k: 0}]
                if WORDS[k][1]:
                    ons += [dict(every, **{k: 1}), {k: 1}]
                ons += [{x: 0, k: 0} for x in ks if x < k]
                ons += [{x: 1, k: 0} for x in ks if x != k and WORDS[x][1]]
            for more in (0, 1):
                for j in range(0, 12 if more else len(ons), 12):
                    ck.ob('keywords of %s %s (%d) %d' % (w, t, more, j), R,
                          lambda: together(ck, w, t, ons[j:j + 12], more))
            for j in range(12, len(ons), 12):
                ck.more('keywords of %s %s (1) %d' % (w, t, j), R,
                        lambda: together(ck, w, t, ons[j:j + 12], 1))
            ons = [{x: i, y: j, z: k} for x in ks for y in ks for z in ks
                   if x < y < z for i in (0, 1) for j in (0, 1)
                   for k in (0, 1) if all(WORDS[a][b] for a, b in (
                       (x, i), (y, j), (z, k)))]
            for j in range(0, len(ons), 12):
                ck.more('three keywords of %s %s %d' % (w, t, j), R,
                        lambda: together(ck, w, t, ons[j:j + 12], 0))
