"""applications share nothing"""
from .c21 import *  # noqa
from pyabs.values import ClassR, FuncR

ALONE = '''
from pyopenapi.utils import deref, final
from pyopenapi.migration.scan import default_tree_traversal
from pyopenapi.migration.versions.v2_0.objects import PathItem as PathItem2
from pyopenapi.migration.versions.v3_0_0.objects import PathItem as PathItem3

class Real(ApiBase):
    """an application that does not say where documents come from"""
    def prepare_obj(self, obj, jref):
        return obj

def real(url, getter=None):
    app = Real(url)
    return (app, app.load_obj(url, getter=getter))

def real_to(app, obj, url, to):
    return app.migrate_obj(obj, url, to)

def read(getter):
    return next(getter)

def pair(cls, first, second):
    return (cls(*first), cls(*second))

def keep(store, obj, url, jp, ver):
    store.set(obj, url, jp, ver)

def has(store, url, jp, ver):
    return store.get(url, jp, ver)

def find(resolver, ref, getter):
    return resolver.resolve(ref, getter)

METHODS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')

def views(root):
    out = [root.dump()]
    for path, o in default_tree_traversal(root, []):
        if isinstance(o, (PathItem2, PathItem3)):
            f = final(o)
            for m in METHODS:
                op = getattr(f, m)
                if op is not None:
                    out.append([path, m, op.dump()])
            continue
        if getattr(o, 'ref', None):
            out.append([path, o.ref, deref(o).dump()])
    return out

def ask(app, jref, frm, to):
    return app.resolve_obj(jref, frm, to_spec_version=to)[0].dump()
'''


def lab32(ck):
    L = more_lab(ck)
    if not getattr(ck, '_alone', None):
        L.load('scenario_alone', APP + ALONE)
        ck._alone = True
    return L


def afn(ck, name):
    L = lab32(ck)
    m = L.I.import_module('scenario_alone')
    return L.base.get(L.base.get(m.id).env).vars[name]


def docs_of(ver, i, url=None):
    """documents that differ in every value, not in names and urls"""
    n = 'v%d' % i
    if ver == '1.2':
        u, d = doc('1.2')
        d[u]['info'] = {'title': text(n + 't'), 'description': text(n + 'd')}
        d[u + '/a']['models'] = {'M': {'id': 'M', 'description': text(
            n + 'm'), 'properties': {'p': {'type': 'string', 'format': text(
                n + 'f')}}}}
        return u, d
    d = root(ver)
    d['info'] = {'title': text(n + 't'), 'version': text(n + 'v')}
    d['tags'] = [{'name': text(n + 'tag')}]
    S = '#/definitions/' if ver == '2.0' else '#/components/schemas/'
    at_home(ver, d, 'Schema', 'N', {'title': text(n + 'N'), 'properties': {
        'a': {'$ref': S + 'M'}, 'b': {'$ref': 'other.json' + S + 'X'}}})
    at_home(ver, d, 'Schema', 'M', {'description': text(n + 'M')})
    at_home(ver, d, 'PathItem', '/p', {'get': {
        'summary': text(n + 's'), 'responses': {'200': {
            'description': text(n + 'r')}}}})
    at_home(ver, d, 'PathItem', '/q', {'$ref': 'other.json#/paths/~1x'})
    o = root(ver)
    o['info'] = {'title': text(n + 'ot'), 'version': text(n + 'ov')}
    at_home(ver, o, 'Schema', 'X', {'title': text(n + 'X')})
    at_home(ver, o, 'PathItem', '/x', {'put': {
        'summary': text(n + 'os'), 'responses': {'200': {
            'description': text(n + 'or')}}}})
    return U, {U: d, O: o}


def new(ck, st, url, docs):
    L = ck.lab
    return L.sure(L.call(st, fn(ck, 'App'), url, docs), 'creating an app')


def loads(ck, st, app, url, to):
    L = ck.lab
    return L.sure(L.call(st, fn(ck, 'load'), app, url, to), 'loading')


def dump(ck, st, o):
    """content, what references lead to, and merged path items"""
    L = ck.lab
    return L.sure(L.call(st, afn(ck, 'views'), o), 'content')


THROUGH = (DictR, ListR, InstR)


def parts(ck, st, *vs):
    """what is reachable, apart from what exists without any application"""
    out = set()
    for v in vs:
        out |= reach(st, v, None, THROUGH)
    # deref'd objects hang off weak references and boxed dicts
    return {i for i in out if i not in ck.lab.frozen}


def leaks(ck, st, mine, what):
    """nothing that outlives applications leads to this"""
    L = ck.lab
    for i in L.frozen:
        r = st.get(i)
        if r is L.base.get(i):
            continue
        vs = []
        if isinstance(r, DictR):
            vs = [e[0] for e in r.d.values()] + [k for k in r.d]
        elif isinstance(r, ListR):
            vs = [x for x, _ in r.items]
        elif isinstance(r, (InstR, ClassR, FuncR)):
            vs = [x[0] if isinstance(x, tuple) else x
                  for x in r.attrs.values()]
        elif hasattr(r, 'vars'):
            vs = list(r.vars.values())
        for v in vs:
            if reach(st, v, None, THROUGH) & mine:
                raise Broken('%s is kept in %s' % (what, L.show(st, Ref(i))))


def apart(ck, st, a, b):
    x = parts(ck, st, *a) & parts(ck, st, *b)
    if x:
        L = ck.lab
        raise Broken('two applications share %s' % ', '.join(
            L.show(st, Ref(i)) for i in sorted(x)[:3]))


def equal(ck, st, a, b, what):
    ds = same(ck, st, a, b)
    if ds:
        raise Broken('%s: %s' % (what, '; '.join(ds[:3])))


def across(ck, sa, a, sb, b, what):
    """equal content in two states"""
    L = ck.lab
    x, y = L.show(sa, a, 99), L.show(sb, b, 99)
    if x != y:
        raise Broken('%s: %s instead of %s' % (what, y[:300], x[:300]))


def isolated(ck, va, ta, vb, tb, order):
    L = lab32(ck)
    ua, da = docs_of(va, 1)
    ub, db = docs_of(vb, 2)
    if ub != ua and '1.2' in (va, vb):
        # the same url for both
        pass
    # each alone
    sa = L.S()
    xa = dump(ck, sa, loads(ck, sa, new(ck, sa, ua, da), ua, ta))
    sb = L.S()
    xb = dump(ck, sb, loads(ck, sb, new(ck, sb, ub, db), ub, tb))
    # both
    st = L.S()
    a = new(ck, st, ua, da)
    if order == 'one after another':
        oa = loads(ck, st, a, ua, ta)
        d1 = dump(ck, st, oa)
        b = new(ck, st, ub, db)
        ob = loads(ck, st, b, ub, tb)
    else:
        b = new(ck, st, ub, db)
        if order == 'second first':
            ob = loads(ck, st, b, ub, tb)
            oa = loads(ck, st, a, ua, ta)
        else:
            oa = loads(ck, st, a, ua, ta)
            ob = loads(ck, st, b, ub, tb)
        d1 = dump(ck, st, oa)
    across(ck, sa, xa, st, d1, 'the first application')
    across(ck, sb, xb, st, dump(ck, st, ob), 'the second application')
    equal(ck, st, d1, dump(ck, st, oa), 'the first application, afterwards')
    apart(ck, st, (a, oa), (b, ob))
    leaks(ck, st, parts(ck, st, a, oa), 'the application')
    leaks(ck, st, parts(ck, st, b, ob), 'the application')
    for app, u, v in ((a, ua, va), (b, ub, vb)):
        L.expect(st, u, L.attr(st, app, 'url'), 'url')
        L.expect(st, v, L.attr(st, app, 'original_spec_version'), 'version')
    for app, t in ((a, ta), (b, tb)):
        L.expect(st, t, L.attr(st, app, 'current_spec_version'), 'version')


def unasked(ck, ver):
    """applications that were given neither getters nor resolvers"""
    L = lab32(ck)
    _, d1 = docs_of(ver, 1)
    _, d2 = docs_of(ver, 2)
    st = L.S()
    out = []
    js = {}
    for n, d in enumerate((d1, d2)):
        w = L.I.nat.world
        urls = {}
        for i, (u, x) in enumerate(d.items()):
            t = cat('{', text('%s%d.%d' % (u, i, n)))
            urls[u], js[t] = t, x
        L.I.nat.world = {'files': {}, 'urls': urls, 'json': js, 'yaml': {}}
        try:
            v = L.sure(L.call(st, afn(ck, 'real'), U), 'loading',
                       allow=('OSError', ))
            app, o = v.items
            o = L.sure(L.call(st, afn(ck, 'real_to'), app, o, U, '3.0.0'),
                       'upgrading', allow=('OSError', ))
        finally:
            L.I.nat.world = w
        out.append((app, o, d))
    (a, oa, _), (b, ob, _) = out
    for (app, o, d), i in zip(out, (1, 2)):
        L.expect(st, text('v%dt' % i), L.attr(st, L.attr(st, o, 'info'),
                                              'title'), 'title')
        s = L.attr(st, L.attr(st, o, 'components'), 'schemas')
        L.expect(st, text('v%dN' % i), L.attr(st, L.item(st, s, 'N'),
                                              'title'), 'title')
        x = L.item(st, L.attr(st, L.item(st, s, 'N'), 'properties'), 'b')
        x = L.sure(L.call(st, L.name('utils', 'deref'), x), 'deref')
        L.expect(st, text('v%dX' % i), L.attr(st, x, 'title'),
                 'title in the other document')
    apart(ck, st, (a, oa), (b, ob))
    leaks(ck, st, parts(ck, st, a, oa), 'the application')


def after_failure(ck, ver, to):
    """an application whose document cannot be loaded leaves no trace"""
    L = lab32(ck)
    ua, da = docs_of(ver, 1)
    ub, db = docs_of(ver, 2)
    if ver == '1.2':
        del da[ua + '/a']
    else:
        del da[O]
    sb = L.S()
    xb = dump(ck, sb, loads(ck, sb, new(ck, sb, ub, db), ub, to))
    st = L.S()
    a = new(ck, st, ua, da)
    out = L.call(st, fn(ck, 'load'), a, ua, to)
    if out.val is not None or not out.raised:
        raise Broken('a document that is missing goes unnoticed')
    st = out.raised[0][0]
    b = new(ck, st, ub, db)
    ob = loads(ck, st, b, ub, to)
    across(ck, sb, xb, st, dump(ck, st, ob), 'the second application')
    apart(ck, st, (a, ), (b, ob))


def asked(ck, ver, to):
    """resolving later on finds what the application itself has"""
    L = lab32(ck)
    st = L.S()
    apps = []
    for i in (1, 2):
        u, d = docs_of(ver, i)
        a = new(ck, st, u, d)
        apps.append((a, u, i))
    for a, u, i in apps:
        loads(ck, st, a, u, to)
    H = {'2.0': '#/definitions/', '3.0.0': '#/components/schemas/'}[ver]
    for a, u, i in apps + apps:
        for url, k, e in ((u, 'M', {'description': text('v%dM' % i)}),
                          (O, 'X', {'title': text('v%dX' % i)})):
            v = L.sure(L.call(st, afn(ck, 'ask'), a, url + H + k, ver, to),
                       'resolving')
            L.expect(st, e, v, 'what %s%s%s is' % (url, H, k))


def pair(ck, st, mod, cls, a, b):
    L = lab32(ck)
    return L.sure(L.call(st, afn(ck, 'pair'), L.name(mod, cls), a, b),
                  'two of %s' % cls).items


def readers(ck, order):
    """two getters at the same time"""
    L = lab32(ck)
    st = L.S()
    gs = pair(ck, st, 'getter', 'DictGetter', (['a', 'b'], {
        'a': {'n': 1}, 'b': {'n': 2}}), (['a', 'b'], {
            'a': {'n': 3}, 'b': {'n': 4}}))
    want = [[1, 2], [3, 4]]
    for i in order:
        v = L.sure(L.call(st, afn(ck, 'read'), gs[i]), 'reading')
        L.expect(st, {'n': want[i].pop(0)}, v, 'document of getter %d' % i)


def kept(ck, order):
    """two resolvers, two stores at the same time"""
    L = lab32(ck)
    st = L.S()
    rs = pair(ck, st, 'resolve', 'Resolver', (), ())
    ss = pair(ck, st, 'store', 'SpecObjStore', (), ())
    for i in order:
        g = pair(ck, st, 'getter', 'DictGetter', ([O], {O: {'n': i}}), (
            ['x'], {}))[0]
        v = L.sure(L.call(st, afn(ck, 'find'), rs[i], O + '#/n', g), 'resolve')
        L.expect(st, i, v, 'what resolver %d finds' % i)
        o = L.new(st, 'o20', 'Contact', {'name': text('n%d' % i)}, '#/x')
        L.sure(L.call(st, afn(ck, 'keep'), ss[i], o, O, '#/x', '2.0'), 'set')
    for i in order:
        v = L.sure(L.call(st, afn(ck, 'has'), ss[i], O, '#/x', '2.0'), 'get')
        L.expect(st, text('n%d' % i), L.attr(st, v, 'name'),
                 'what store %d has' % i)
    if len(set(order)) == 1:
        j = 1 - order[0]
        v = L.sure(L.call(st, afn(ck, 'has'), ss[j], O, '#/x', '2.0'), 'get')
        L.expect(st, None, v, 'what store %d has' % j)
    apart(ck, st, (rs[0], ss[0]), (rs[1], ss[1]))


def check(ck):
    ck.floor = 15
    for o in ((0, 1, 0, 1), (0, 0, 1, 1), (1, 1, 0, 0)):
        ck.ob('getters %s' % (o, ), 'what one reads is not what another '
              'reads', lambda: readers(ck, o))
    for o in ((0, 1), (1, 0), (0, ), (1, )):
        ck.ob('resolvers and stores %s' % (o, ), 'what one keeps, another '
              'does not', lambda: kept(ck, o))
    R = 'what one application does is not seen by another'
    V = ['1.2', '2.0', '3.0.0']
    for va in V:
        for ta in V[V.index(va):]:
            for order in ('one after another', 'both at once',
                          'second first'):
                ck.ob('%s to %s twice, %s' % (va, ta, order), R,
                      lambda: isolated(ck, va, ta, va, ta, order))
            ck.ob('%s to %s after a failure' % (va, ta), R,
                  lambda: after_failure(ck, va, ta))
            for vb in V:
                for tb in V[V.index(vb):]:
                    if (va, ta) != (vb, tb):
                        ck.ob('%s to %s, then %s to %s' % (va, ta, vb, tb), R,
                              lambda: isolated(ck, va, ta, vb, tb,
                                               'one after another'))
    for ver in ('2.0', '3.0.0'):
        ck.ob('own getters, ' + ver, R, lambda: unasked(ck, ver))
        for to in ('2.0', '3.0.0'):
            if to >= ver:
                ck.ob('resolving %s as %s' % (ver, to), R,
                      lambda: asked(ck, ver, to))
