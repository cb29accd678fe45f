"""every member defined by a specification is readable under its JSON name"""
from .objs import *  # noqa


def reads(ck, g, cls, spec, only=None):
    L = ck.lab
    st = L.S()
    sp = L.mk(st, spec)
    o = L.new(st, g.short, cls, sp, '#/x')

    def visit(st, kind, spec, v, path, parent, where):
        if kind in ('v', 's'):
            if v != spec:
                raise Broken('%s reads as %s, not as the value given' % (
                    where, L.show(st, v)))
        elif kind == '[]':
            n = L.sure(L.meth(st, v, '__len__'), 'len')
            if n != Const(len(L.rec(st, spec).items)):
                raise Broken('%s has %s elements' % (where, L.show(st, n)))
        elif kind == '{}':
            n = L.sure(L.meth(st, v, '__len__'), 'len')
            if n != Const(len(L.rec(st, spec).d)):
                raise Broken('%s has %s entries' % (where, L.show(st, n)))
        elif L.clsname(st, v) != kind:
            raise Broken('%s is %s, expected a %s' % (where, L.show(st, v),
                                                      kind))
        else:
            r = st.get(v.id)
            if r.cls != L.name(g.short, kind):
                raise Broken('%s is a %s of another version' % (where, kind))
    g.walk(ck, st, cls, sp, o, '#/x', visit, None, cls)


def noref(g, cls, m, k, x):
    """a reference that refers to nothing is a reference still"""
    v = {'$ref': x}
    k = bare(k)
    while k[0] in '[{':
        v = [v] if k[0] == '[' else {'k': v}
        k = k[1:-1]
    return dict(g.obj(cls, -1, []), **{m: v})


def absent(ck, g, cls, m, k):
    L = ck.lab
    st = L.S()
    o = L.new(st, g.short, cls, g.obj(cls, -1, []), '#/x')
    v = L.attr(st, o, m)
    exp = g.defaults.get((cls, m))
    L.expect(st, exp, v, '%s.%s when not given' % (cls, m))


def null(ck, g, cls, m, x):
    """values that look false are values"""
    L = ck.lab
    st = L.S()
    spec = g.obj(cls, -1, [])
    spec[m] = x
    o = L.new(st, g.short, cls, spec, '#/x')
    L.expect(st, x, L.attr(st, o, m), '%s.%s=%r' % (cls, m, x))


def check(ck):
    ck.floor = 600
    R = 'a member reads back as the value or object the document gives'
    for ver in VERSIONS:
        g = Gen(ver)
        for cls in classes(ver):
            for m, k in g.tab[cls].items():
                if m == '$ref' and ver == '3.0.0' and cls == 'Schema':
                    continue
                for f in g.forms(k) + ['more'] * ('?' in k):
                    ck.ob('%s %s.%s %s' % (ver, cls, m, f), R, lambda: reads(
                        ck, g, cls, g.shaped(f, cls, m)))
                if '?' in k:
                    for x in ('', None, 0, {}):
                        ck.ob('%s %s.%s $ref %r' % (ver, cls, m, x), R,
                              lambda: reads(ck, g, cls, noref(
                                  g, cls, m, k, x)))
                if not req(k):
                    ck.ob('%s %s.%s absent' % (ver, cls, m),
                          'a member not given reads as None, or its default',
                          lambda: absent(ck, g, cls, m, k))
                if is_value(k):
                    for x in (0, False, ''):
                        ck.ob('%s %s.%s=%r' % (ver, cls, m, x),
                              'zero, false and empty are values',
                              lambda: null(ck, g, cls, m, x))
                if bare(k)[0] == 'b':
                    for x in (True, False):
                        ck.ob('%s %s.%s=%r' % (ver, cls, m, x), R,
                              lambda: reads(ck, g, cls, {m: x}))
            ms = [m for m in g.tab[cls] if m != '$ref']
            for i, a in enumerate(ms):
                for b in ms[:i]:
                    ck.ob('%s %s.%s and %s' % (ver, cls, a, b), R,
                          lambda: reads(ck, g, cls, g.obj(cls, 0, [a, b])))
            ck.ob('%s %s all members' % (ver, cls), R, lambda: reads(
                ck, g, cls, g.obj(cls, 2 if ver != '3.0.0' else 1)))
