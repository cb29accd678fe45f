"""documents are read as what they are, from files and urls"""
from .c15 import *  # noqa

MORE = '''
from pyopenapi.migration.getter import (LocalGetter, SimpleGetter, UrlGetter,
    DictGetter)

class Real(ApiBase):
    """an application with the getters of the library"""
    def prepare_obj(self, obj, jref):
        return obj

class Given(Getter):
    """hands out what it is given"""
    def __init__(self, value):
        super(Given, self).__init__('x')
        self.urls = ['x']
        self.value = value
    def load(self, path):
        return self.value

def simple(value):
    log = []
    def give(url):
        log.append(url)
        return value
    class Simple(SimpleGetter):
        __simple_getter_callback__ = give
    return (Simple, log)

def first(getter):
    return next(getter)

def every(getter):
    return [x for x in getter]

def real(url, getter=None):
    app = Real(url)
    return app.load_obj(url, getter=getter)

def raw(url, getter=None):
    return Resolver().resolve(url, getter)
'''
JSON = cat('{', text('json'))
YAML = cat('swagger: ', text('yaml'))


def lab23(ck):
    L = app_lab(ck)
    if not getattr(ck, '_get', None):
        L.load('scenario_get', APP + MORE)
        ck._get = True
    return L


def gfn(ck, name):
    L = lab23(ck)
    m = L.I.import_module('scenario_get')
    return L.base.get(L.base.get(m.id).env).vars[name]


DOC = {'swagger': '2.0', 'info': {'title': text('T'), 'version': 'v'},
       'paths': {'/p': {'get': {'responses': {'200': {
           'description': text('D')}}}}}}
# yaml gives numbers for unquoted keys
YDOC = {'swagger': '2.0', 'info': {'title': text('T'), 'version': 'v'},
        'paths': {'/p': {'get': {'responses': {200: {
            'description': text('D')}}}}}}


class World(object):
    """files and urls there are, with what is in them"""

    def __init__(self, ck, files=(), urls=(), json=None, yaml=None):
        self.nat = lab23(ck).I.nat
        self.w = {'files': dict(files), 'urls': dict(urls),
                  'json': {JSON: DOC} if json is None else json,
                  'yaml': {YAML: YDOC} if yaml is None else yaml}

    def __enter__(self):
        self.nat.world = self.w

    def __exit__(self, *a):
        self.nat.world = None
        for c, loc in self.w.get('coding', ()):
            raise Broken('text is decoded as %s, not as (strict) UTF-8' % c,
                         loc)
        for how, loc in self.w.get('wrong', ()):
            raise Broken('what is not %s is parsed as that' % how, loc, True)


def events(st, *kinds):
    return [e for e in st.events if isinstance(e, tuple) and e[0] in kinds]


def closed(ck, out, what):
    """whatever happens, everything opened is closed"""
    ends = [(out.st, 'in the end')] if out.val is not None else []
    ends += [(s, 'when it fails (%s)' % t) for (s, e), t in zip(
        out.raised, out.exc_types())]
    n = 0
    for s, when in ends:
        opened = events(s, 'open', 'urlopen')
        # urlopen that failed gave nothing to close
        read = events(s, 'read')
        cl = events(s, 'close')
        n += len(cl)
        if read and len(cl) < len(opened):
            raise Broken('%s is not closed %s' % (what, when),
                         opened[0][-1])
    if out.val is not None and not n:
        raise Broken('%s is never closed' % what)


def safe(st):
    bad = events(st, 'unsafe yaml')
    if bad:
        raise Broken('yaml is loaded with %s, which makes objects' %
                     (bad[0][1], ), bad[0][-1])


def loaded(ck, files, urls, url, at, kind, cls=None):
    """load a document through an application"""
    L = lab23(ck)
    st = L.S()
    content = YAML if kind == 'yaml' else JSON
    g = L.name('getter', cls) if cls else Const(None)
    with World(ck, {f: content for f in files}, {u: content for u in urls}):
        out = L.call(st, gfn(ck, 'real'), url, g)
        o = L.val(out, 'loading %s' % url)
        bad = set(out.exc_types()) - {'OSError'}
        if bad:
            raise Broken('loading %s may raise %s' % (url, out.excs()),
                         L.exc_loc(out), True)
        if L.clsname(st, o) != 'Swagger':
            raise Broken('loading gives %s' % L.show(st, o))
        L.expect(st, text('T'), L.attr(st, L.attr(st, o, 'info'), 'title'),
                 'title')
        p = L.item(st, L.attr(st, o, 'paths'), '/p')
        r = L.item(st, L.attr(st, L.attr(st, p, 'get'), 'responses'), '200')
        L.expect(st, text('D'), L.attr(st, r, 'description'), 'description '
                 'of response 200')
    op = events(st, 'open', 'urlopen')
    import posixpath
    import ast as _ast
    names = [e[1] for e in op]
    want = term_of(Const(at))
    norm = [('const', 'str', repr(posixpath.normpath(at)))]
    if len(names) != 1 or names[0] != want and names[0] not in norm:
        raise Broken('%r is opened to load %s, expected %r' % (names, url,
                                                               at))
    closed(ck, out, at)
    safe(st)


def again(ck, cls, where):
    """a document that changed is read anew by the next application"""
    L = lab23(ck)
    st = L.S()
    g = L.name('getter', cls) if cls else Const(None)
    J2 = cat('{', text('json2'))
    D2 = dict(DOC, info={'title': text('T2'), 'version': 'v'})
    with World(ck, json={JSON: DOC, J2: D2}):
        nat = lab23(ck).I.nat
        for c, t in ((JSON, 'T'), (J2, 'T2')):
            nat.world['urls' if where[:4] == 'http' else 'files'] = {where: c}
            out = L.call(st, gfn(ck, 'real'), where, g)
            o = L.val(out, 'loading %s' % where)
            L.expect(out.st, text(t), L.attr(out.st, L.attr(
                out.st, o, 'info'), 'title'), 'title')
            st = out.st


def not_there(ck, files, url, cls=None):
    L = lab23(ck)
    st = L.S()
    g = L.name('getter', cls) if cls else Const(None)
    with World(ck, {f: JSON for f in files}):
        out = L.call(st, gfn(ck, 'real'), url, g)
    if out.val is not None:
        raise Broken('loading %s gives %s' % (url, L.show(st, out.val)))
    if not out.raised:
        raise Undecided('no outcome')


def given(ck, value, exp, json=None, yaml=None, kinds=None):
    """what a getter returns"""
    L = lab23(ck)
    st = L.S()
    v = L.mk(st, value)
    with World(ck, json=json or {}, yaml=yaml or {}):
        out = L.call(st, gfn(ck, 'first'), L.sure(L.call(
            st, gfn(ck, 'Given'), v), 'a getter'))
        r = L.sure(out, 'reading')
    L.expect(st, exp, r, 'content')
    if kinds:
        seen = [e[0] for e in events(st, 'json.loads', 'yaml.load')]
        if seen != kinds:
            raise Broken('it is read by %s' % seen)
    safe(st)


def refused(ck, value, json=None, yaml=None, types=None):
    L = lab23(ck)
    st = L.S()
    v = L.mk(st, value)
    with World(ck, json=json or {}, yaml=yaml or {}):
        out = L.call(st, gfn(ck, 'first'), L.sure(L.call(
            st, gfn(ck, 'Given'), v), 'a getter'))
    if out.val is not None:
        raise Broken('%r is accepted as %s' % (value, L.show(st, out.val)))
    if types and not set(out.exc_types()) <= set(types):
        raise Broken('refused with %s' % out.excs())


def simple(ck, path):
    L = lab23(ck)
    st = L.S()
    with World(ck):
        S, log = L.sure(L.call(st, gfn(ck, 'simple'), JSON), 'class').items
        r = L.sure(L.call(st, gfn(ck, 'first'), L.sure(L.call(st, S, path),
                                                       'getter')), 'reading')
    L.expect(st, DOC, r, 'content')
    L.expect(st, [path], log, 'what is asked for')
    raises(ck, L.call(st, S, {}), ('Exception', ), 'a getter for no text')


def in_order(ck):
    """a DictGetter gives the documents one after the other"""
    L = lab23(ck)
    st = L.S()
    g = L.sure(L.call(st, L.name('getter', 'DictGetter'), ['a', 'b', 'c'], {
        'a': {'n': 1}, 'b': {'n': 2}}), 'a getter')
    r = L.sure(L.call(st, gfn(ck, 'every'), g), 'reading')
    L.expect(st, [{'n': 1}, {'n': 2}, {}], r, 'documents')


def check(ck):
    ck.floor = 60
    R = 'a file is found by its name, in a folder, or without its extension'
    for n, files, url, at, cls in (
            ('path', ['/d/swagger.json'], '/d/swagger.json', None, None),
            ('other name', ['/d/my.json'], '/d/my.json', None, None),
            ('url', ['/d/my.json'], 'file:///d/my.json', None, None),
            ('folder', ['/d/e/swagger.json'], '/d/e', None, None),
            ('folder url', ['/d/e/swagger.json'], 'file:///d/e', None, None),
            ('folder 1.2', ['/d/e/resource_list.json'], '/d/e', None, None),
            ('no extension', ['/d/pet.json'], '/d/pet', None, None),
            ('dots', ['/d/pet.v1.json'], '/d/e/../pet.v1.json', None, None),
            ('folder with dots', ['/d.v1/pet.json'], '/d.v1/pet', None, None),
            ('space', ['/my dir/a b.json'], '/my dir/a b.json', None, None),
            ('encoded url', ['/my dir/a.json'], 'file:///my%20dir/a.json',
             None, None),
            ('percent', ['/d/50%.json'], '/d/50%.json', None, None),
            ('encoded name', ['/d/a%20b.json'], '/d/a%20b.json', None, None),
            ('folder with space', ['/my dir/swagger.json'], '/my dir', None,
             None),
            ('no extension but its letters', ['/d/myjson.json'], '/d/myjson',
             None, None),
            ('no extension but yaml', ['/d/ayaml.json'], '/d/ayaml', None,
             None),
            ('nothing but letters', ['/d/json.json'], '/d/json', None, None),
            ('folder like an extension', ['/d/json/a.json'], '/d/json/a',
             None, None),
            ('hidden', ['/d/.x.json'], '/d/.x', None, None),
            ('folder like a file', ['/d/swagger.json.d/swagger.json'],
             '/d/swagger.json.d', None, None),
            ('folder like an old file', ['/d/resource_list.json~/x.json'],
             '/d/resource_list.json~/x', None, None),
            ('below a folder like a file', ['/d/swagger.yml/a/swagger.json'],
             '/d/swagger.yml/a', None, None),
            ('name that ends like it', ['/d/my-swagger.json'],
             '/d/my-swagger.json', None, None),
            ('name that begins like it', ['/d/swagger.json.v2.json'],
             '/d/swagger.json.v2', None, None),
            ('many files', ['/d/pet.json', '/d/pet.txt', '/pet.json',
                            '/d/swagger.json', '/d/pet/x.json',
                            '/swagger.json'], '/d/pet', None, None),
            ('folder of many', ['/d/e/swagger.json', '/d/e.json', '/d/e.txt',
                                '/d/swagger.json', '/d/e/e.json',
                                '/d/e/x/swagger.json'], '/d/e', None, None),
            ('not ascii', ['/d/\xe9.json'], '/d/\xe9.json', None, None)):
        for ext in ('json', 'yaml', 'yml'):
            fs = [f[:-4] + ext if f.endswith('.json') else f for f in files]
            u = url[:-5] + '.' + ext if url.endswith('.json') else url
            if '1.2' in n and ext != 'json':
                continue
            for c in (None, 'LocalGetter'):
                for k in ('json', 'yaml'):
                    ck.ob('%s .%s with %s%s' % (n, ext, k, ' ' + c if c else
                                                ''), R,
                          lambda: loaded(ck, fs, (), u, fs[0], k, c))
    R = 'each application reads what is there now'
    for c, w in ((None, '/d/x.json'), ('LocalGetter', '/d/x.json'),
                 (None, 'http://h.com/x'), ('UrlGetter', 'http://h.com/x')):
        ck.ob('again %s %s' % (w, c), R, lambda: again(ck, c, w))
    R = 'what is not there is not loaded'
    for n, files, url in (('missing', ['/d/b.json'], '/d/a.json'),
                          ('missing folder', ['/d/b.json'], '/e'),
                          ('empty folder', ['/d/b.json'], '/d'),
                          ('other extension', ['/d/a.txt'], '/d/a'),
                          ('longer', ['/d/a.json'], '/d/a.jso')):
        for c in (None, 'LocalGetter'):
            ck.ob('%s %s' % (n, c or ''), R, lambda: not_there(
                ck, files, url, c))
    R = 'an url is opened as it is, and closed whatever happens'
    for u in ('http://h.com/swagger.json', 'https://h.com/a/b?x=y',
              'http://h.com/api-docs', 'http://h.com/a%20b.yml',
              'http://h.com/', 'ftp://h.com/x.json'):
        for k in ('json', 'yaml'):
            for c in (None, 'UrlGetter'):
                ck.ob('%s with %s%s' % (u, k, ' ' + c if c else ''), R,
                      lambda: loaded(ck, (), [u], u, u, k, c))
    ck.ob('no such url', R, lambda: not_there(ck, (), 'http://h.com/x'))
    R = 'text starting with { is JSON, all other text is YAML'
    plain = {'a': [1, {'b': None}], 'c': text('c')}
    ck.ob('json', R, lambda: given(ck, JSON, plain, {JSON: plain}, kinds=[
        'json.loads']))
    ck.ob('yaml', R, lambda: given(ck, YAML, plain, yaml={YAML: plain},
                                   kinds=['yaml.load', 'yaml.loads']
                                   if False else None))
    for n, t in (('space', cat(' {', text('x'))), ('line', cat('\n{', text(
            'x'))), ('comment', cat('# c\n', text('x'))), ('dashes', cat(
                '---\n{', text('x')))):
        ck.ob('yaml after ' + n, R, lambda: given(ck, t, plain,
                                                  yaml={t: plain}))
    for n, t in {'space': ' {a: 1}', 'newline': '\n{a: 1}', 'tab': '\t{"a": 1}',
                 'newlines': '\r\n\r\n{a: 1}', 'comment': '#{\n{a: 1}',
                 'list': '- {a: 1}', 'bracket': '[{', 'mapping': 'a: {b: 1}',
                 'dashes': '---\n{a: 1}', 'quote': '"{": 1', 'bom':
                 '\ufeff{"a": 1}', 'colon': ':{', 'nothing': '', 'trailing':
                 'a: 1\n\n  ', 'tagged': '%YAML 1.1\n---\na: 1',
                 'dots': 'a: 1\n...\n', 'not ascii': '\xe9: 1'}.items():
        for b in (False, True):
            v = NObj('bytes', Const(t)) if b else t
            ck.ob('yaml %s%s' % (n, ' bytes' * b), R, lambda: given(
                ck, v, plain, yaml={Const(t): plain}))
    for n, t in {'object': '{"a": 1}', 'space': '{ "a": 1 }', 'end':
                 '{"a": 1}\n ', 'empty': '{}', 'newline': '{\n"a": 1}',
                 'not ascii': '{"\xe9": 1}', 'only': '{'}.items():
        for b in (False, True):
            v = NObj('bytes', Const(t)) if b else t
            ck.ob('json %s%s' % (n, ' bytes' * b), R, lambda: given(
                ck, v, plain, {Const(t): plain}))
    R = 'bytes are text in UTF-8'
    ck.ob('json bytes', R, lambda: given(ck, NObj('bytes', JSON), plain, {
        JSON: plain}))
    ck.ob('yaml bytes', R, lambda: given(ck, NObj('bytes', YAML), plain,
                                         yaml={YAML: plain}))
    R = 'keys of YAML mappings are text, at every level'
    ck.ob('yaml keys', R, lambda: given(ck, YAML, {
        '200': {'1': [{'404': 5, 'x': [[{'7': 1}]]}], 'default': {
            '2.5': 'x'}}, 'a': 1, 'True': {'None': 200}}, yaml={YAML: {
                200: {1: [{404: 5, 'x': [[{7: 1}]]}], 'default': {2.5: 'x'}},
                'a': 1, True: {None: 200}}}))
    R = 'a mapping is a document already'
    ck.ob('mapping', R, lambda: given(ck, plain, plain))
    ck.ob('empty mapping', R, lambda: given(ck, {}, {}))
    R = 'what is neither text nor a mapping is refused'
    for v in (None, 1, [], ['{}'], 2.5, True, ('a', )):
        ck.ob('content %r' % (v, ), R, lambda: refused(ck, v, types=(
            'ValueError', )))
    R = 'malformed text is refused'
    ck.ob('bad json', R, lambda: refused(ck, JSON, {JSON: 'malformed'}))
    ck.ob('bad yaml', R, lambda: refused(ck, YAML, yaml={YAML: 'malformed'}))
    ck.ob('bad json is no yaml', R, lambda: refused(
        ck, JSON, {JSON: 'malformed'}, {JSON: plain}))
    R = 'a getter is given the name it is made with'
    for p in ('http://h.com/x', 'http://h.com/x/', 'x', ''):
        ck.ob('simple %r' % p, R, lambda: simple(ck, p))
    ck.ob('in order', 'documents come in the order they are asked for',
          lambda: in_order(ck))
