"""traversals visit every object once and call what is registered for it"""
from .c05 import *  # noqa

SCAN = '''
from pyopenapi.migration.scan import (Dispatcher, scan, Scanner,
    default_tree_traversal)
from pyopenapi.migration.versions.v1_2 import objects as o12
from pyopenapi.migration.versions.v2_0 import objects as o20
from pyopenapi.migration.versions.v3_0_0 import objects as o30

class Log(object):
    def __init__(self, tag='log'):
        self.log = []
        self.tag = tag
        self.results = []

def recorder(classes):
    """records the objects of these classes"""
    class Rec(Log):
        class Disp(Dispatcher):
            pass
        @Disp.register(classes)
        def _record(self, path, obj):
            self.log.append((path, obj))
    return Rec()

def recorder_app(classes):
    class Rec(Log):
        class Disp(Dispatcher):
            pass
        @Disp.register(classes)
        def _record(self, path, obj, app):
            self.log.append((path, obj, app))
    return Rec()

def visit(root, classes, leaves=None):
    r = recorder(classes)
    scan(route=[r], root=root, leaves=leaves)
    return r.log

def visit_app(app, root, classes, leaves=None):
    r = recorder_app(classes)
    Scanner(app).scan(route=[r], root=root, leaves=leaves)
    return r.log

def traverse(root, leaves):
    return [x for x in default_tree_traversal(root, leaves)]

class First(Log):
    class Disp(Dispatcher):
        pass
    @Disp.register([o20.Schema])
    def _one(self, path, obj):
        self.log.append(('one', path))
        return ('r1', path)
    @Disp.register([o20.Schema, o20.Operation])
    def _two(self, path, obj):
        self.log.append(('two', path))
        return ('r2', path)
    @Disp.result
    def _got(self, ret):
        self.results.append(ret)

class Second(Log):
    class Disp(Dispatcher):
        pass
    @Disp.register([o20.Operation])
    def _op(self, path, obj):
        self.log.append(('op', path))
        return ('r3', path)

class Sub(Log):
    """a registry derived from another one is one of its own"""
    class Disp(First.Disp):
        pass
    @Disp.register([o20.XMLObject])
    def _xml(self, path, obj):
        self.log.append(('xml', path))

class Late(Log):
    class Disp(Dispatcher):
        pass
    @Disp.register([o20.Schema])
    def _one(self, path, obj):
        return path
    @Disp.result
    def _first(self, ret):
        self.log.append(ret)
    @Disp.result
    def _second(self, ret):
        self.results.append(ret)

def falsy(root, value):
    class R(Log):
        class Disp(Dispatcher):
            pass
        @Disp.register([o20.Schema])
        def _one(self, path, obj):
            return value
        @Disp.result
        def _got(self, ret):
            self.results.append(ret)
    r = R()
    scan(route=[r], root=root)
    a = r.results
    class RA(Log):
        class Disp(Dispatcher):
            pass
        @Disp.register([o20.Schema])
        def _one(self, path, obj, app):
            return value
        @Disp.result
        def _got(self, ret):
            self.results.append(ret)
    r = RA()
    Scanner('app').scan(route=[r], root=root)
    return (a, r.results)

def routes(root, names):
    rs = [{'First': First, 'Second': Second, 'Sub': Sub,
           'Late': Late}[n](n) for n in names]
    scan(route=rs, root=root)
    return [(r.log, r.results) for r in rs]

def app_routes(root, names):
    class FirstA(Log):
        class Disp(Dispatcher):
            pass
        @Disp.register([o20.Schema])
        def _one(self, path, obj, app):
            self.log.append(('one', path, app))
            return ('r1', path)
        @Disp.register([o20.Schema, o20.Operation])
        def _two(self, path, obj, app):
            self.log.append(('two', path, app))
            return ('r2', path)
        @Disp.result
        def _got(self, ret):
            self.results.append(ret)
    r = FirstA()
    Scanner('app').scan(route=[r], root=root)
    return (r.log, r.results)

def shared(root):
    """two objects of one route class, and one scan after another"""
    a, b = First('a'), First('b')
    scan(route=[a], root=root)
    scan(route=[b], root=root)
    return (a.log, b.log)

def bad_register(cls):
    class X(object):
        class Disp(Dispatcher):
            pass
        @Disp.register([cls])
        def _x(self, path, obj):
            pass
    return X

def given(root, pairs):
    """another order of visiting"""
    seen = []
    def nexter(obj, leaves):
        seen.append(obj)
        seen.append(leaves)
        return pairs
    r = First()
    scan(route=[r], root=root, nexter=nexter, leaves=[o20.Schema])
    return (r.log, seen)

def nothing(how):
    r = First()
    if how == 'scan':
        scan(route=[r], root=None)
    else:
        Scanner(None).scan(route=[r], root=None)
    return r

class Base(o20.Schema):
    pass

def handler(log, n, value, name):
    def h(self, path, obj, app=None):
        log.append((n, path))
        return value
    h.__name__ = name
    return h

def go(route, root, app):
    if app:
        Scanner('app').scan(route=route, root=root)
    else:
        scan(route=route, root=root)

def several(root, names, values, apart, app):
    """handlers of these names, registered for one class"""
    log = []
    class R(Log):
        class Disp(Dispatcher):
            pass
        @Disp.result
        def _got(self, ret):
            self.results.append(ret)
    i = 0
    for n in names:
        h = handler(log, i, values[i], n)
        R.Disp.register([o20.Schema])(h) if apart else \
            R.Disp.register([o20.XMLObject, o20.Schema])(h)
        i += 1
    r = R()
    go([r], root, app)
    return (log, r.results)

def in_steps(root, steps, app):
    """one function, registered for some classes after the other"""
    log = []
    class R(Log):
        class Disp(Dispatcher):
            pass
    h = handler(log, 0, None, 'h')
    for s in steps:
        R.Disp.register(s)(h)
    go([R()], root, app)
    return log

def stacked(root, apart, app):
    """one function with several decorators, and a decorated one called"""
    log = []
    class R(Log):
        class Disp(Dispatcher):
            pass
        class Other(object):
            class Disp(Dispatcher):
                pass
        if apart:
            @Disp.register([o20.XMLObject])
            @Disp.register([])
            @Disp.register([o20.Schema])
            def _one(self, path, obj, app=None):
                log.append(path)
                return path
        else:
            @Disp.register([o20.XMLObject, o20.Schema])
            def _one(self, path, obj, app=None):
                log.append(path)
                return path
        @Disp.result
        @Other.Disp.result
        def _got(self, ret):
            self.results.append(ret)
    r = R()
    go([r], root, app)
    return (log, r.results, r._one('called', None), r._got('got'), r.results)

def several_routes(root, n, app):
    """objects of one class, and of as many classes"""
    log = []
    def cls(i):
        class R(Log):
            class Disp(Dispatcher):
                pass
            @Disp.register([o20.Schema])
            def _one(self, path, obj, app=None):
                log.append((i, path))
        return R
    go([cls(i)() for i in range(n)], root, app)
    return log
'''


def lab14(ck):
    L = ck.lab
    if not getattr(ck, '_scan', None):
        L.load('scenario_scan', SCAN)
        ck._scan = True
    return L


def vfn(ck, name):
    L = lab14(ck)
    m = L.I.import_module('scenario_scan')
    return L.base.get(L.base.get(m.id).env).vars[name]


def below(ck, g, cls, st, sp, o, path='#', leaves=()):
    """[(path, class, object)] of the object and all objects below it"""
    out = [(path, cls, o)]
    if cls in leaves:
        return out
    kids = []

    def down(kind, spec, v, p):
        L = ck.lab
        kind = bare(kind)
        spec = L.mk(st, spec)
        r = L.rec(st, spec)
        if kind in ('v', 's') or not isinstance(spec, Ref):
            return
        if kind[0] == 'b':
            return down(kind[1:], spec, v, p)
        if kind[0] == '?':
            return down('Reference' if Const('$ref') in r.d else kind[1:],
                        spec, v, p)
        if (g.ver, kind) in MAPS and Const('$ref') not in r.d:
            kind = '{%s}' % MAPS[g.ver, kind]
        if kind[0] == '[':
            for i, (x, _) in enumerate(r.items):
                down(kind[1:-1], x, L.item(st, v, i), ptr(p, str(i)))
        elif kind[0] == '{':
            for key, e in r.d.items():
                down(kind[1:-1], e[0], L.item(st, v, key), ptr(p, key))
        else:
            kids.append((p, L.clsname(st, v), spec, v))
    r = ck.lab.rec(st, sp)
    for m, k in g.tab[cls].items():
        e = r.d.get(Const(m))
        if e is not None and not is_value(k):
            down(k, e[0], ck.lab.attr(st, o, m), ptr(path, m))
    for p, c, spec, v in kids:
        if c in g.tab:
            out += below(ck, g, c, st, spec, v, p, leaves)
        else:
            out.append((p, c, v))
    return out


def visits(ck, g, cls, spec, only=None, leaves=None, app=False, how='visit',
           foreign=()):
    L = lab14(ck)
    st = L.S()
    sp = L.mk(st, spec)
    o = L.new(st, g.short, cls, sp, '#/x')
    exp = below(ck, g, cls, st, sp, o, leaves=leaves or ())
    cs = [c for c in g.tab if (only is None or c in only) and not (
        g.ver, c) in MAPS]
    lv = None if leaves is None else [L.name(g.short, c) for c in leaves]
    if foreign:
        lv = (lv or []) + [L.name(*c) for c in foreign]
    if how == 'traverse':
        got = L.sure(L.call(st, vfn(ck, 'traverse'), o, lv or []), 'traverse')
        L.expect(st, Bag([Tup([L.mk(st, p), v]) for p, c, v in exp]), got,
                 'objects traversed')
        return
    if app and 'Header' in cs and g.ver == '3.0.0':
        # a Scanner takes a Header for the Parameter it is derived from, too
        cs.remove('Parameter' if cls == 'Header' else 'Header')
    args = [o, [L.name(g.short, c) for c in cs]]
    a = []
    if app:
        args = ['app'] + args
        a = [L.mk(st, 'app')]
    if lv is not None:
        args.append(lv)
    got = L.sure(L.call(st, vfn(ck, 'visit_app' if app else 'visit'), *args),
                 'scanning')
    L.expect(st, Bag([Tup([L.mk(st, p), v] + a) for p, c, v in exp
                      if c in cs]), got, 'objects visited')


def root14(ck, st):
    k, m = member('k', 'rk'), member('m', 'rk')
    o = ck.lab.new(st, 'o20', 'Swagger', {
        'swagger': '2.0', 'info': {'title': 't', 'version': 'v'},
        'definitions': {k: {'xml': {}, 'items': {}}, m: {}},
        'paths': {'/p': {'get': {'responses': {}}, 'put': {'responses': {}}}}
    }, '#/x')
    S = ['#/definitions/' + 'K', ]
    sch = [ptr('#', 'definitions', k), ptr('#', 'definitions', k, 'items'),
           ptr('#', 'definitions', m)]
    ops = [ptr('#', 'paths', '/p', x) for x in ('get', 'put')]
    xml = [ptr('#', 'definitions', k, 'xml')]
    return o, sch, ops, xml


def routed(ck, names):
    L = lab14(ck)
    st = L.S()
    o, sch, ops, xml = root14(ck, st)
    t = lambda *a: Tup([L.mk(st, x) for x in a])
    E = {
        'First': ([t('one', p) for p in sch] + [t('two', p) for p in
                                                sch + ops],
                  [t('r1', p) for p in sch] + [t('r2', p) for p in
                                               sch + ops]),
        'Second': ([t('op', p) for p in ops], []),
        'Sub': ([t('xml', p) for p in xml], []),
        'Late': ([], sch),
    }
    got = L.sure(L.call(st, vfn(ck, 'routes'), o, names), 'scanning')
    for n, x in zip(names, L.rec(st, got).items):
        log, res = x[0].items
        L.expect(st, Bag(E[n][0]), log, 'calls of ' + n)
        L.expect(st, Bag(E[n][1]), res, 'results of ' + n)
        if n == 'First':
            order(ck, st, log, 'one', 'two')


def order(ck, st, log, a, b):
    """for one object, a is called before b"""
    seen = set()
    for x, _ in ck.lab.rec(st, log).items:
        name, p = x.items[:2]
        if name == Const(a):
            seen.add(p)
            if ('b', p) in seen:
                raise Broken('handlers are called in another order')
        elif name == Const(b):
            seen.add(('b', p))


def app_routed(ck):
    L = lab14(ck)
    st = L.S()
    o, sch, ops, xml = root14(ck, st)
    t = lambda *a: Tup([L.mk(st, x) for x in a])
    got = L.sure(L.call(st, vfn(ck, 'app_routes'), o, []), 'scanning')
    log, res = got.items
    L.expect(st, Bag([t('one', p, 'app') for p in sch] + [
        t('two', p, 'app') for p in sch + ops]), log, 'calls')
    L.expect(st, Bag([t('r1', p) for p in sch] + [
        t('r2', p) for p in sch + ops]), res, 'results')
    order(ck, st, log, 'one', 'two')


def stepwise(ck, steps, app):
    """what is registered later is registered as well"""
    L = lab14(ck)
    st = L.S()
    o, sch, ops, xml = root14(ck, st)
    P = {'Schema': sch, 'Operation': ops, 'XMLObject': xml}
    log = L.sure(L.call(st, vfn(ck, 'in_steps'), o, [[
        L.name('o20', c) for c in s] for s in steps], app), 'scanning')
    got = [x.items[1] for x, _ in L.rec(st, log).items]
    for c, ps in P.items():
        n = sum(s.count(c) for s in steps)
        for p in ps:
            k = got.count(L.mk(st, p))
            # registering a function again may count or not
            if k not in (n, min(n, 1)):
                raise Broken('the function registered %d times for %s is '
                             'called %d times' % (n, c, k))


def twice_scanned(ck):
    L = lab14(ck)
    st = L.S()
    o, sch, ops, xml = root14(ck, st)
    t = lambda *a: Tup([L.mk(st, x) for x in a])
    exp = Bag([t('one', p) for p in sch] + [t('two', p) for p in sch + ops])
    got = L.sure(L.call(st, vfn(ck, 'shared'), o), 'scanning')
    for x in got.items:
        L.expect(st, exp, x, 'calls')


def custom(ck):
    L = lab14(ck)
    st = L.S()
    o, sch, ops, xml = root14(ck, st)
    s = L.new(st, 'o20', 'Schema', {}, '#/y')
    s2 = L.new(st, 'o20', 'Schema', {'items': {}}, '#/z')
    t = lambda *a: Tup([L.mk(st, x) for x in a])
    pairs = [t('p1', s2), t('p2', s), t('p3', s2)]
    got = L.sure(L.call(st, vfn(ck, 'given'), o, pairs), 'scanning')
    log, seen = got.items
    L.expect(st, [t(h, p) for p in ('p1', 'p2', 'p3') for h in (
        'one', 'two')], log, 'calls')
    L.expect(st, [o, [L.name('o20', 'Schema')]], seen, 'traversals')


def derived(ck, app):
    """scan() looks at the class itself, a Scanner at what it derives from"""
    L = lab14(ck)
    st = L.S()
    o = L.sure(L.call(st, vfn(ck, 'Base'), L.mk(st, {}), '#/b'), 'creating')
    args = [o, [L.name('o20', 'Schema')]]
    if app:
        got = L.sure(L.call(st, vfn(ck, 'visit_app'), 'app', *args), 'scan')
        L.expect(st, [Tup([L.mk(st, '#'), o, L.mk(st, 'app')])], got,
                 'visits')
    else:
        got = L.sure(L.call(st, vfn(ck, 'visit'), *args), 'scan')
        L.expect(st, [], got, 'visits')


def results(ck, value):
    L = lab14(ck)
    st = L.S()
    o, sch, ops, xml = root14(ck, st)
    got = L.sure(L.call(st, vfn(ck, 'falsy'), o, L.mk(st, value)), 'scanning')
    for x in got.items:
        L.expect(st, [value] * len(sch), x, 'results')


def no_root(ck, how):
    L = lab14(ck)
    st = L.S()
    raises(ck, L.call(st, vfn(ck, 'nothing'), how), ('ValueError', ),
           'scanning nothing')


def bad(ck):
    L = lab14(ck)
    st = L.S()
    raises(ck, L.call(st, vfn(ck, 'bad_register'), vfn(ck, 'Log')),
           ('ValueError', ), 'registering another class')


def severally(ck, names, apart, app):
    L = lab14(ck)
    st = L.S()
    o = L.new(st, 'o20', 'Schema', {'items': {}}, '#')
    vals = [text('v%d' % i) for i in range(len(names))]
    log, res = L.sure(L.call(st, vfn(ck, 'several'), o, list(names), vals,
                             apart, app), 'scan').items
    exp = [Tup([Const(i), Const(p)]) for p in ('#', '#/items')
           for i in range(len(names))]
    first = Tup([Const(0), Const('#')])
    got = [x for x, _ in L.rec(st, log).items]
    if got and got[0] != first:
        exp = exp[len(names):] + exp[:len(names)]
    # objects in any order, the handlers of one in order of registration
    L.expect(st, exp, log, 'handlers called')
    L.expect(st, vals * 2, res, 'results')


def decorated(ck, apart, app):
    L = lab14(ck)
    st = L.S()
    o = L.new(st, 'o20', 'Schema', {'xml': {}}, '#')
    v = L.sure(L.call(st, vfn(ck, 'stacked'), o, apart, app), 'scan')
    L.expect(st, Bag(['#', '#/xml', 'called']), v.items[0], 'handlers called')
    L.expect(st, 'called', v.items[2], 'what a decorated function returns')
    L.expect(st, Bag(['#', '#/xml', 'got']), v.items[4], 'results')


def many_routes(ck, n, app):
    L = lab14(ck)
    st = L.S()
    o = L.new(st, 'o20', 'Schema', {'items': {}}, '#')
    log = L.sure(L.call(st, vfn(ck, 'several_routes'), o, n, app), 'scan')
    L.expect(st, Bag([Tup([Const(i), Const(p)]) for p in ('#', '#/items')
                      for i in range(n)]), log, 'handlers called')


def check(ck):
    ck.floor = 200
    for n, steps in {
            'apart': (['Schema'], ['Operation']),
            'more': (['Schema'], ['Schema', 'Operation', 'XMLObject']),
            'between': (['Operation'], ['Schema', 'Operation', 'XMLObject']),
            'fewer': (['Schema', 'Operation'], ['Operation'], ['XMLObject']),
            'reversed': (['XMLObject', 'Operation'], ['Operation', 'Schema'])
            }.items():
        for app in (False, True):
            ck.ob('steps %s%s' % (n, ' app' * app), 'each object is handed to '
                  'what is registered for its class', lambda: stepwise(
                      ck, [list(s) for s in steps], app))
    R = 'every object is visited once, with its pointer'
    for ver in VERSIONS:
        g = Gen(ver)
        for cls in classes(ver):
            if (ver, cls) in MAPS:
                continue
            kids = [m for m, k in g.tab[cls].items() if not is_value(k)]
            for m in kids:
                k = g.tab[cls][m]
                for f in g.forms(k):
                    if twice(k):
                        continue
                    s = g.shaped(f, cls, m)
                    ck.ob('%s %s.%s %s' % (ver, cls, m, f), R,
                          lambda: visits(ck, g, cls, s))
                s = g.shaped('ref' if '?' in k else 'two', cls, m)
                if not twice(k):
                    for how in ('traverse', 'app'):
                        ck.ob('%s %s.%s %s' % (ver, cls, m, how), R,
                              lambda: visits(ck, g, cls, s, app=how == 'app',
                                             how=how))
                    kc = bare(k).strip('[]{}?b')
                    if kc in g.tab and kc != cls:
                        s2 = g.obj(cls, 1, [m])
                        ck.ob('%s %s.%s leaf' % (ver, cls, m), 'nothing below '
                              'a leaf is visited', lambda: visits(
                                  ck, g, cls, s2, leaves=[kc]))
                        ck.ob('%s %s.%s only' % (ver, cls, m),
                              'handlers are called for their classes only',
                              lambda: visits(ck, g, cls, s2, only=[kc]))
                    ck.ob('%s %s.%s own leaf' % (ver, cls, m), 'nothing below '
                          'a leaf is visited', lambda: visits(
                              ck, g, cls, s, leaves=[cls]))
    # what other versions call the same
    gs = [Gen(v) for v in VERSIONS]
    for g in gs:
        for cls in classes(g.ver):
            if (g.ver, cls) in MAPS:
                continue
            fs = [(h.short, cls) for h in gs if h is not g and cls in h.tab
                  and (h.ver, cls) not in MAPS]
            kids = [m for m, k in g.tab[cls].items() if not is_value(k)
                    and not twice(k)]
            if fs and kids:
                for how in ('visit', 'traverse', 'app'):
                    if how == 'app' and 'headers' in kids:
                        continue
                    ck.ob('%s %s leaf of another version, %s' % (
                        g.ver, cls, how), 'classes of other versions are '
                        'others', lambda: visits(
                            ck, g, cls, g.obj(cls, 1, kids), app=how == 'app',
                            how=how, foreign=fs))
    g = Gen('3.0.0')
    for cls, m in (('Header', 'schema'), ('Header', 'examples'),
                   ('Response', 'headers'), ('Components', 'headers')):
        for how in ('visit', 'traverse'):
            ck.ob('3.0.0 %s.%s base leaf %s' % (cls, m, how),
                  'objects of a class derived from a leaf are no leaves',
                  lambda: visits(ck, g, cls, g.obj(cls, 1, [m]),
                                 leaves=['Parameter'], how=how))
    T = 'each object is handed to what is registered for its class'
    for names in (['First'], ['Second'], ['Sub'], ['Late'],
                  ['First', 'Second'], ['Second', 'First'],
                  ['First', 'Sub'], ['Sub', 'First'],
                  ['First', 'First'], ['Late', 'First', 'Second', 'Sub']):
        ck.ob('routes ' + ' '.join(names), T, lambda: routed(ck, names))
    ck.ob('routes of a scanner', T, lambda: app_routed(ck))
    ck.ob('scanning twice', T, lambda: twice_scanned(ck))
    ck.ob('another order', T, lambda: custom(ck))
    for app in (False, True):
        ck.ob('derived class %s' % app, T, lambda: derived(ck, app))
    for v in (0, False, '', 'x', 1, [], {}, ['x'], opaque('v')):
        ck.ob('result %r' % (v, ), 'results of handlers are handed on, '
              'whatever they are', lambda: results(ck, v))
    for names in ('a', 'ab', 'aa', 'aba', 'aaa', 'abcd', 'aabb', 'abcde'):
        for apart in (True, False):
            for app in (False, True):
                ck.ob('handlers %s %s%s' % (
                    names, apart, ' of a scanner' if app else ''), T,
                    lambda: severally(ck, names, apart, app))
    for apart in (True, False):
        for app in (False, True):
            ck.ob('decorated %s %s' % (apart, app), 'a registered function '
                  'stays what it is', lambda: decorated(ck, apart, app))
    for n in range(1, 6):
        for app in (False, True):
            ck.ob('%d routes%s' % (n, ' of a scanner' if app else ''), T,
                  lambda: many_routes(ck, n, app))
    for how in ('scan', 'Scanner'):
        ck.ob('no root ' + how, T, lambda: no_root(ck, how))
    ck.ob('not an object class', T, lambda: bad(ck))
