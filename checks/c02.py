"""snake-case aliases are the members they are named after"""
from .objs import *  # noqa

# members the library offers no alias for
NONE = {('2.0', 'Schema', 'xml'), ('2.0', 'SecurityScheme', 'authorizationUrl'),
        ('2.0', 'SecurityScheme', 'tokenUrl')}
# aliases beyond the naming rule
MORE = {('3.0.0', 'Schema', 'enum'): 'enum_',
        ('3.0.0', 'ServerVariable', 'enum'): 'enum_'}
WRITABLE = [(v, c) for v, cs in (('2.0', ('Reference', 'PathItem', 'Schema')),
                                 ('3.0.0', ('Reference', 'PathItem')))
            for c in cs]


def name_of(g, cls, m):
    return MORE.get((g.ver, cls, m)) or snake(m)


def alias(ck, g, cls, m, k, f):
    L = ck.lab
    a = name_of(g, cls, m)
    st = L.S()
    o = L.new(st, g.short, cls, g.shaped(f, cls, m), '#/x')
    want = L.attr(st, o, m)
    got = L.attr(st, o, a)
    if got != want:
        raise Broken('%s.%s reads as %s, but %s is %s' % (
            cls, a, L.show(st, got), m, L.show(st, want)))


def absent(ck, g, cls, m, k):
    L = ck.lab
    st = L.S()
    o = L.new(st, g.short, cls, g.obj(cls, -1, []), '#/x')
    L.expect(st, g.defaults.get((cls, m)), L.attr(
        st, o, name_of(g, cls, m)), '%s.%s when %s is not given' % (
            cls, name_of(g, cls, m), m))


def assign(ck, g, cls, m, k):
    """assigning one name shows under the other"""
    L = ck.lab
    a = name_of(g, cls, m)
    st = L.S()
    o = L.new(st, g.short, cls, g.obj(cls, -1, []), '#/x')
    if is_value(k):
        for there, here in ((a, m), (m, a)):
            x = text('new' + there)
            L.sure(L.run(st, lambda s: L.I.setattr(o, there, x, s) or x),
                   'assigning %s' % there)
            L.expect(st, x, L.attr(st, o, here), '%s.%s after assigning %s' %
                     (cls, here, there))
        return
    x = L.attr(st, L.new(st, g.short, cls, g.obj(cls, 0, [m]), '#/y'), m)
    for there, here in ((a, m), (m, a)):
        o = L.new(st, g.short, cls, g.obj(cls, -1, []), '#/x')
        L.sure(L.run(st, lambda s: L.I.setattr(o, there, x, s) or x),
               'assigning %s' % there)
        if L.attr(st, o, here) != x:
            raise Broken('%s.%s is %s after assigning %s' % (
                cls, here, L.show(st, L.attr(st, o, here)), there))


def check(ck):
    ck.floor = 150
    for ver in VERSIONS:
        g = Gen(ver)
        for cls in classes(ver):
            for m, k in g.tab[cls].items():
                if name_of(g, cls, m) == m or (ver, cls, m) in NONE:
                    continue
                if m == '$ref' and ver == '3.0.0' and cls == 'Schema':
                    continue
                for f in g.forms(k):
                    ck.ob('%s %s.%s %s' % (ver, cls, name_of(g, cls, m), f),
                          'an alias reads the member',
                          lambda: alias(ck, g, cls, m, k, f))
                if not req(k):
                    ck.ob('%s %s.%s absent' % (ver, cls, name_of(g, cls, m)), 'an alias '
                          'of a member not given reads like the member',
                          lambda: absent(ck, g, cls, m, k))
                if is_value(k):
                    if m == '$ref' and (ver, cls) in WRITABLE:
                        ck.ob('%s %s.ref written' % (ver, cls), 'a reference '
                              'can be rewritten under both names',
                              lambda: assign(ck, g, cls, m, k))
                elif not req(k):
                    ck.ob('%s %s.%s written' % (ver, cls, name_of(g, cls, m)),
                          'an object assigned under one name is found under '
                          'the other', lambda: assign(ck, g, cls, m, k))
