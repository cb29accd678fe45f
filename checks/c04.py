"""every part of a document knows where it is"""
from .app import *  # noqa


def located(ck, g, cls, spec, base, orphan=None):
    L = ck.lab
    st = L.S()
    sp = L.mk(st, spec)
    o = L.new(st, g.short, cls, sp, base)

    def visit(st, kind, spec, v, path, parent, where):
        if kind in ('v', 's'):
            return
        p = L.sure(L.meth(st, v, 'get_path'), 'get_path')
        L.expect(st, path, p, 'location of ' + where)
        q = L.sure(L.meth(st, v, 'get_parent'), 'get_parent')
        if parent is None:
            L.expect(st, None, q, 'parent of ' + where)
        elif orphan is not None and kind in ('[]', '{}') and q == Const(None):
            orphan.append(where)
        elif q != parent:
            raise Broken('parent of %s is %s' % (where, L.show(st, q)))
    g.walk(ck, st, cls, sp, o, base, visit, None, cls)


def check(ck):
    ck.floor = 150
    base = text('url#/any')
    orphans = []
    for ver in VERSIONS:
        g = Gen(ver)
        for cls in classes(ver):
            for m, k in g.tab[cls].items():
                if is_value(k):
                    continue
                R = ('the location of a part is that of its holder followed '
                     'by its encoded name, its parent is its holder')
                for f in g.forms(k):
                    ck.ob('%s %s.%s %s' % (ver, cls, m, f), R,
                          lambda: located(ck, g, cls, g.shaped(f, cls, m),
                                          base))
                b = bare(k)
                if b[0] in '[{':
                    ck.ob('%s %s.%s empty' % (ver, cls, m), R,
                          lambda: located(ck, g, cls, dict(
                              g.obj(cls, -1, []), **{m: [] if b[0] == '[' else
                                                     {}}), base, orphans))
            ck.ob('%s %s all members' % (ver, cls), R, lambda: located(
                ck, g, cls, g.obj(cls, 2 if ver != '3.0.0' else 1), base))

    def empty():
        if orphans:
            raise Broken('no parent: ' + ', '.join(orphans))
    check_loaded(ck)
    ck.ob('empty containers', 'containers without elements have a parent, too',
          empty)


PLACES = '''
def below(o):
    names = o.get_field_names()
    if names:
        return [(n, getattr(o, n)) for n in sorted(names)]
    if hasattr(o, 'keys'):
        return [(k, o[k]) for k in o.keys()]
    return [(str(i), o[i]) for i in range(len(o))]

def astray(o, where, lost, seen):
    """what does not know its holder or its place"""
    for n, v in below(o):
        if not hasattr(v, 'get_parent'):
            continue
        seen.append(n)
        w = where + '/' + n.replace('~', '~0').replace('/', '~1')
        # containers without elements: a known finding, see below
        if (v or v.get_parent() is not None) and not (
                v.get_parent() is o):
            lost.append(('parent', w))
        if v.get_path() != (o.get_path() + '/' +
                            n.replace('~', '~0').replace('/', '~1')):
            lost.append(('path', w, v.get_path()))
        astray(v, w, lost, seen)

def check(app, url, to):
    obj = app.load_obj(url)
    o = app.migrate_obj(obj, url, to)
    lost = []
    seen = []
    astray(o, '', lost, seen)
    return (lost, len(seen))
'''
DOC = 'http://h.com/a/doc.json'
D12 = 'http://h.com/a/api'
REST = 'http://h.com/a/more.json'


def wholes():
    """-> {name: (url, documents, versions to look at)}"""
    A, B = text('A', 'fresh', 'plain'), text('B', 'fresh', 'plain')
    P = cat('/', text('p', 'fresh', 'plain'))
    info = {'title': text('title'), 'version': text('version')}
    obj = {'type': 'object', 'properties': {
        A: {'type': 'string'}, 'a/b~c': {'type': 'array', 'items': {
            'type': 'integer', 'enum': [1, 2]}}}, 'required': ['a/b~c']}
    r2 = {'200': {'description': text('d'), 'schema': {
        '$ref': '#/definitions/M'}, 'headers': {B: {'type': 'string'}}},
        'default': {'$ref': '#/responses/R'}}
    two = {
        'swagger': '2.0', 'info': info, 'host': 'h.com',
        'schemes': ['http'], 'tags': [{'name': text('tag')}],
        'security': [{'k': []}],
        'securityDefinitions': {'k': {'type': 'apiKey', 'in': 'query',
                                      'name': text('key')}},
        'definitions': {'M': obj, 'N': {'allOf': [
            {'$ref': '#/definitions/M'}, {'type': 'object'}]}},
        'parameters': {'q': {'in': 'query', 'name': text('q'),
                             'type': 'string'}},
        'responses': {'R': {'description': text('d2')}},
        'paths': {P: {'get': {
            'parameters': [{'$ref': '#/parameters/q'}, {
                'in': 'header', 'name': text('h'), 'type': 'array',
                'items': {'type': 'string'}}],
            'responses': r2, 'tags': [text('tag')]},
            'post': {'consumes': ['a/b', 'c/d'], 'parameters': [{
                'in': 'body', 'name': 'b', 'schema': {
                    '$ref': '#/definitions/N'}}],
                'responses': {'201': {'description': text('d3')}}}}}}
    three = {
        'openapi': '3.0.0', 'info': info,
        'servers': [{'url': text('s'), 'variables': {B: {
            'default': text('v'), 'enum': [text('v')]}}}],
        'components': {
            'schemas': {'M': obj}, 'responses': {'R': {
                'description': text('d'), 'content': {'a/b': {
                    'schema': {'$ref': '#/components/schemas/M'}}}}},
            'callbacks': {'C': {'{$url}': {'get': {'responses': {
                '200': {'description': text('d1')}}}}}}},
        'paths': {P: {'parameters': [{
            'in': 'query', 'name': text('q'), 'schema': {'type': 'string'}}],
            'post': {'requestBody': {'content': {'a/b': {'schema': {
                '$ref': '#/components/schemas/M'}, 'encoding': {
                    B: {'contentType': text('ct')}}}}},
            'responses': {'200': {'description': text('d2'), 'links': {
                'l~/': {'operationId': text('id')}}},
                'default': {'$ref': '#/components/responses/R'}}}}}}
    item = {'get': {'responses': {'200': {'description': text('d5')}}}}
    op = {'method': 'GET', 'nickname': 'n', 'type': 'M', 'parameters': [{
        'paramType': 'query', 'name': 'q', 'type': 'array', 'items': {
            'type': 'string'}}],
        'authorizations': {'k': [{'scope': 's', 'description': 'd'}]}}
    one = {D12: {'swaggerVersion': '1.2', 'apiVersion': '1', 'apis': [
        {'path': '/a'}], 'info': {'title': 't', 'description': 'd'},
        'authorizations': {'k': {'type': 'oauth2', 'scopes': [
            {'scope': 's', 'description': 'd'}], 'grantTypes': {'implicit': {
                'loginEndpoint': {'url': 'http://h.com/l'}}}}}},
        'http://h.com/a/api/a': {'swaggerVersion': '1.2', 'resourcePath': '/a',
                     'basePath': 'http://h.com/v', 'apis': [{
                         'path': '/p', 'operations': [op]}],
                     'models': {'M': {'id': 'M', 'properties': {
                         'x': {'$ref': 'M'}, 'y/z': {'type': 'string'}}}}}}
    more = {REST: {'items': {'i': item}}}
    o2 = {'swagger': '2.0', 'info': info, 'paths': {
        P: {'$ref': '#/paths/~1o'}, '/o': item,
        '/far': {'$ref': 'more.json#/items/i'}}}
    o3 = {'openapi': '3.0.0', 'info': info, 'paths': {
        P: {'$ref': '#/paths/~1o'}, '/o': item,
        '/far': {'$ref': 'more.json#/items/i'}}}
    return {
        '1.2': (one, ('1.2', '2.0', '3.0.0'), 8),
        '2.0': ({DOC: two}, ('2.0', '3.0.0'), 30),
        '3.0.0': ({DOC: three}, ('3.0.0', ), 40),
        '2.0 path references': (dict(more, **{DOC: o2}), ('2.0', '3.0.0'), 7),
        '3.0.0 path references': (dict(more, **{DOC: o3}), ('3.0.0', ), 7),
    }


def pfn(ck, name):
    L = app_lab(ck)
    if not getattr(ck, '_placed', None):
        L.load('scenario_places', APP + PLACES)
        ck._placed = True
    m = L.I.import_module('scenario_places')
    return L.base.get(L.base.get(m.id).env).vars[name]


def whole(ck, docs, to, floor, url):
    L = app_lab(ck)
    st = L.S()
    app = L.sure(L.call(st, fn(ck, 'App'), url, docs), 'creating an app')
    r = L.sure(L.call(st, pfn(ck, 'check'), app, url, to), 'loading')
    L.expect(st, [], L.item(st, r, 0), 'misplaced parts after loading')
    n = L.item(st, r, 1)
    if not (isinstance(n, Const) and n.v >= floor):
        raise Undecided('only %s parts of the document were seen' %
                        L.show(st, n))


def check_loaded(ck):
    R = ('parts of documents that were loaded, resolved, merged and converted '
         'still are located at their holder')
    for name, (docs, vers, floor) in wholes().items():
        for to in vers:
            ck.ob('loaded %s as %s' % (name, to), R,
                  lambda: whole(ck, docs, to, floor, D12 if
                                name == '1.2' else DOC))
