"""documents are upgraded version by version, each step is prepared and kept"""
from .c15 import *  # noqa

VS = ['1.2', '2.0', '3.0.0']
TOP = {'1.2': 'ResourceListing', '2.0': 'Swagger', '3.0.0': 'OpenApi'}
D12 = 'http://h.com/a/api-docs'
MORE = '''
class Swapping(App):
    """replaces the objects it is given"""
    def prepare_obj(self, obj, jref):
        super(Swapping, self).prepare_obj(obj, jref)
        n = obj.__class__.__name__
        if n == 'Swagger':
            return o20.Swagger({'swagger': '2.0', 'host': 'swapped.com',
                'info': {'title': 'swapped', 'version': 's'}, 'paths': {}})
        if n == 'OpenApi':
            return o30.OpenApi({'openapi': '3.0.0', 'paths': {},
                'info': {'title': obj.info.title + ' again', 'version': 's'}})
        return obj

class Plain(ApiBase):
    def prepare_obj(self, obj, jref):
        return obj

def twice(app, url, to, again):
    obj = app.load_obj(url)
    first = app.migrate_obj(obj, url, to)
    second = app.migrate_obj(first, url, again)
    return (first, second)

def reload(app, url):
    return (app.load_obj(url), app.load_obj(url))
'''


def more_lab(ck):
    L = app_lab(ck)
    if not getattr(ck, '_more', None):
        src = 'from scenario_app import *\n' + MORE
        L.load('scenario_more', APP + MORE)
        ck._more = True
    return L


def mfn(ck, name):
    L = more_lab(ck)
    m = L.I.import_module('scenario_more')
    return L.base.get(L.base.get(m.id).env).vars[name]


def doc(ver, names=('N', )):
    """a document of this version and everything of it to be loaded"""
    T = text('title')
    if ver == '1.2':
        api = {'swaggerVersion': '1.2', 'resourcePath': '/r', 'apis': [
            {'path': '/p', 'operations': [
                {'method': 'GET', 'nickname': 'n', 'parameters': []}]}],
            'basePath': 'http://h.com/v'}
        ns = ['a', 'b'][:len(names)]
        return D12, dict({D12: {
            'swaggerVersion': '1.2', 'apiVersion': '1',
            'info': {'title': T, 'description': 'd'},
            'apis': [{'path': '/' + n} for n in ns]}}, **{
                D12 + '/' + n: dict(api, resourcePath='/' + n) for n in ns})
    d = root(ver)
    d['info'] = {'title': T, 'version': text('v')}
    for n in names:
        at_home(ver, d, 'Schema', member(n, 'names', 'fresh'),
                {'title': text(n + 't')})
    return U, {U: d}


def vers(app, ck, st):
    L = ck.lab
    return [L.attr(st, app, x) for x in ('original_spec_version',
                                         'current_spec_version')]


def steps(ck, frm, to):
    L = app_lab(ck)
    url, docs = doc(frm)
    st, app, out = start(ck, docs, url, to)
    o = L.sure(out, 'loading')
    if L.clsname(st, o) != TOP[to]:
        raise Broken('upgrading %s to %s gives %s' % (frm, to, L.show(st, o)))
    L.expect(st, frm, L.attr(st, app, 'original_spec_version'),
             'original version')
    L.expect(st, to, L.attr(st, app, 'current_spec_version'),
             'current version')
    L.expect(st, url, L.attr(st, app, 'url'), 'url')
    L.expect(st, VS, L.attr(st, app, 'migratable_spec_versions'), 'versions')
    vs = VS[VS.index(frm):VS.index(to) + 1]
    objs = {v: cached(ck, st, app, url, '#', v) for v in VS}
    for v, x in objs.items():
        if (L.clsname(st, x) != TOP[v]) if v in vs else x != Const(None):
            raise Broken('version %s in the cache is %s' % (
                v, L.show(st, x)))
    if objs[to] != o:
        raise Broken('the result is not the object in the cache')
    L.expect(st, [Tup([objs[v], L.mk(st, url + '#')]) for v in vs],
             L.attr(st, app, 'prepared'), 'objects prepared')
    L.expect(st, 'http' if False else text('title'), L.attr(
        st, L.attr(st, o, 'info'), 'title'), 'title')


def later(ck, frm, mid, to):
    """in two calls"""
    L = more_lab(ck)
    url, docs = doc(frm)
    st = L.S()
    app = L.sure(L.call(st, mfn(ck, 'App'), url, docs), 'creating an app')
    v = L.sure(L.call(st, mfn(ck, 'twice'), app, url, mid, to), 'upgrading')
    a, b = v.items
    if L.clsname(st, a) != TOP[mid] or L.clsname(st, b) != TOP[to]:
        raise Broken('upgrading gives %s and %s' % (L.show(st, a), L.show(
            st, b)))
    L.expect(st, frm, L.attr(st, app, 'original_spec_version'), 'original')
    L.expect(st, to, L.attr(st, app, 'current_spec_version'), 'current')
    if cached(ck, st, app, url, '#', to) != b:
        raise Broken('the result is not the object in the cache')


def swapped(ck, frm):
    L = more_lab(ck)
    url, docs = doc(frm)
    st = L.S()
    app = L.sure(L.call(st, mfn(ck, 'Swapping'), url, docs), 'creating')
    o = L.sure(L.call(st, mfn(ck, 'load'), app, url, '3.0.0'), 'loading')
    L.expect(st, cat(text('title'), ' again') if frm == '3.0.0' else
             'swapped again', L.attr(st, L.attr(st, o, 'info'), 'title'),
             'title of the prepared document')
    if cached(ck, st, app, url, '#', '3.0.0') != o:
        raise Broken('the prepared object is not the cached one')
    if frm != '3.0.0':
        x = cached(ck, st, app, url, '#', '2.0')
        L.expect(st, 'swapped.com', L.attr(st, x, 'host'),
                 'cached object of 2.0')


def refused(ck, frm, to):
    L = app_lab(ck)
    url, docs = doc(frm)
    st, app, out = start(ck, docs, url, to)
    raises(ck, out, ('ValueError', ), 'upgrade to %r' % to)


def once(ck, frm):
    """loading again gives the same object without fetching"""
    L = more_lab(ck)
    url, docs = doc(frm)
    st = L.S()
    app = L.sure(L.call(st, mfn(ck, 'App'), url, docs), 'creating an app')
    v = L.sure(L.call(st, mfn(ck, 'reload'), app, url), 'loading twice')
    if v.items[0] != v.items[1]:
        raise Broken('loading again gives another object')
    L.expect(st, Bag(sorted(docs)), L.attr(st, L.attr(st, app, 'src'), 'log'),
             'documents fetched')


def resolved(ck, frm, to, have, what, full):
    """resolve_obj of something in a document loaded up to version `have`"""
    L = app_lab(ck)
    url, docs = doc(frm, ('M', 'N'))
    N = member('N', 'names', 'fresh')
    st, app, out = start(ck, docs, url, have)
    L.sure(out, 'loading')
    nav = {'schema': {'2.0': ['definitions', N],
                      '3.0.0': ['components', 'schemas', N]},
           'info': {v: ['info'] for v in VS},
           'root': {v: [] for v in VS}}[what]
    cls = {'schema': 'Schema', 'info': 'Info', 'root': TOP[to]}[what]
    before = ptr('#', *nav[frm])
    after = ptr('#', *nav[to])
    kw = {} if to is None else {'to_spec_version': to}
    r = L.sure(L.meth(st, app, 'resolve_obj', cat(url, before) if full else
                      before, frm, **kw), 'resolve_obj')
    if not isinstance(r, Tup) or len(r.items) != 2:
        raise Broken('resolve_obj gives %s' % L.show(st, r))
    o, j = r.items
    L.expect(st, cat(url, after), j, 'where it is')
    want = cached(ck, st, app, url, after, to)
    if L.clsname(st, o) != cls or o != want:
        raise Broken('resolve_obj gives %s, not the %s of version %s' % (
            L.show(st, o), cls, to))
    if what == 'schema':
        L.expect(st, text('Nt'), L.attr(st, o, 'title'), 'its title')


def fragment(ck, frm, have, kind, where, to):
    """a part of some document does not change what the root document is"""
    L = app_lab(ck)
    url, docs = doc(frm)
    cls = L.name('o20' if frm == '2.0' else 'o30', kind)
    spec = {'Schema': {'title': text('ft')}, 'PathItem': {'get': {
        'summary': text('ft'), 'responses': {}}}, 'Parameter': {
            'name': text('ft'), 'in': 'query'}}[kind]
    if kind == 'Parameter':
        spec.update({'type': 'string'} if frm == '2.0' else {'schema': {}})
    docs[O] = {'a': {'b': spec}} if where else spec
    st, app, out = start(ck, docs, url, have)
    o = L.sure(out, 'loading')
    jref = O + where
    r = L.sure(L.meth(st, app, 'resolve_obj', jref, frm, parser=cls,
                      to_spec_version=to), 'resolving a part')
    if L.clsname(st, r.items[0]) != kind:
        raise Broken('resolve_obj gives %s' % L.show(st, r.items[0]))
    L.expect(st, frm, L.attr(st, app, 'original_spec_version'),
             'original version of the root document')
    L.expect(st, have, L.attr(st, app, 'current_spec_version'),
             'current version of the root document')
    if cached(ck, st, app, url, '#', have) != o:
        raise Broken('the root document is not the cached one')


def text_at(ck, ver):
    L = app_lab(ck)
    url, docs = doc(ver)
    st, app, out = start(ck, docs, url, ver)
    L.sure(out, 'loading')
    r = L.sure(L.meth(st, app, 'resolve_obj', url + '#/info/title', ver),
               'resolve_obj')
    L.expect(st, text('title'), r.items[0], 'a text')


def nothing(ck, ref):
    L = app_lab(ck)
    url, docs = doc('2.0')
    st, app, out = start(ck, docs, url, '2.0')
    L.sure(out, 'loading')
    raises(ck, L.meth(st, app, 'resolve_obj', ref, '2.0'), ('ValueError', ),
           'resolving %r' % (ref, ))


def two_hooks(ck):
    L = more_lab(ck)
    st = L.S()
    r = L.sure(L.call(st, L.name('resolve', 'Resolver')), 'a resolver')
    hook = L.sure(L.run(st, lambda s: mfn(ck, 'load')), 'hook')
    raises(ck, L.call(st, mfn(ck, 'Plain'), U, hook, r), ('ValueError', ),
           'a hook besides a resolver')
    a = L.sure(L.call(st, mfn(ck, 'Plain'), U, resolver=r, sep='-'), 'an app')
    L.expect(st, r, L.attr(st, a, 'resolver'), 'the resolver')
    L.expect(st, '-', L.attr(st, a, 'sep'), 'the separator')
    L.expect(st, U, L.attr(st, a, 'url'), 'the url')


def check(ck):
    ck.floor = 40
    for i, f in enumerate(VS):
        for t in VS[i:]:
            ck.ob('%s to %s' % (f, t), 'every version in between is made, '
                  'prepared and kept, in order', lambda: steps(ck, f, t))
        ck.ob('%s loaded twice' % f, 'a document is loaded once',
              lambda: once(ck, f))
        if f != '1.2' or True:
            ck.ob('%s prepared' % f, 'the application may replace what is '
                  'made', lambda: swapped(ck, f))
        for t in ('', '1.1', '2', '2.1', '3.0', '3.0.1', '3.0.0 ', 'v2.0'):
            ck.ob('%s to %r' % (f, t), 'other versions are refused',
                  lambda: refused(ck, f, t))
        for j, m in enumerate(VS[i:]):
            for t in VS[i + j:]:
                ck.ob('%s to %s, then %s' % (f, m, t), 'an upgrade may be '
                      'continued later', lambda: later(ck, f, m, t))
    R = 'resolving a reference gives the object of the version asked for, '\
        'and where it is'
    for f, t, h in (('2.0', '2.0', '2.0'), ('2.0', '2.0', '3.0.0'),
                    ('2.0', '3.0.0', '3.0.0'), ('3.0.0', '3.0.0', '3.0.0'),
                    ('2.0', '3.0.0', '2.0')):
        for w in ('schema', 'info', 'root'):
            if h == '2.0' and t == '3.0.0' and w != 'root':
                continue
            for full in (True, False):
                ck.ob('resolve %s %s as %s of %s%s' % (
                    w, f, t, h, ' by url' if full else ''), R,
                    lambda: resolved(ck, f, t, h, w, full))
    for f, h, t in (('2.0', '3.0.0', '2.0'), ('2.0', '2.0', '2.0'), (
            '2.0', '3.0.0', '3.0.0'), ('2.0', '2.0', '3.0.0'),
            ('3.0.0', '3.0.0', '3.0.0')):
        for k in ('Schema', 'PathItem', 'Parameter'):
            for w in ('#/a/b', '#'):
                ck.ob('%s %s of another document as %s of %s, %s' % (
                    k, w, t, f, h), 'the application reports the versions '
                    'of its root document', lambda: fragment(
                        ck, f, h, k, w, t))
    for v in ('2.0', '3.0.0'):
        ck.ob('resolve text %s' % v, R, lambda: text_at(ck, v))
    for r in (None, ''):
        ck.ob('resolve %r' % r, 'an empty reference is refused',
              lambda: nothing(ck, r))
    ck.ob('hook and resolver', 'an application is made from its arguments',
          lambda: two_hooks(ck))
