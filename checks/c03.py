"""dumping an object gives back the document it was loaded from"""
from .objs import *  # noqa


def dumps(ck, g, cls, spec):
    L = ck.lab
    st = L.S()
    sp = L.mk(st, spec)
    before = freeze(st, reach(st, sp))
    o = L.new(st, g.short, cls, sp, '#/x')
    d = L.sure(L.meth(st, o, 'dump'), 'dump of ' + cls)
    ds = same(ck, st, sp, d)
    if ds:
        raise Broken('%s does not dump what it was loaded from: %s' % (
            cls, '; '.join(ds[:3])))
    unchanged(ck, st, before, 'dump')
    # once more, now that children are cached
    d2 = L.sure(L.meth(st, o, 'dump'), 'dump of ' + cls)
    ds = same(ck, st, sp, d2)
    if ds:
        raise Broken('%s dumps something else the second time: %s' % (
            cls, '; '.join(ds[:3])))


def check(ck):
    ck.floor = 500
    R = 'what is dumped is what was loaded'
    for ver in VERSIONS:
        g = Gen(ver)
        for cls in classes(ver):
            for m, k in g.tab[cls].items():
                if m == '$ref' and ver == '3.0.0' and cls == 'Schema':
                    continue

                def one_(x=None, set_=False, f='two'):
                    s = g.shaped(f, cls, m)
                    if set_:
                        s[m] = x
                    elif is_value(k):
                        s[m] = opaque(g.fresh(m), ('nottype', 'NoneType'))
                    dumps(ck, g, cls, s)
                for f in g.forms(k):
                    ck.ob('%s %s.%s %s' % (ver, cls, m, f), R,
                          lambda: one_(f=f))
                if is_value(k):
                    for x in (0, False, ''):
                        ck.ob('%s %s.%s=%r' % (ver, cls, m, x), R,
                              lambda: one_(x, True))
                    for x, n in (([text('e')], 'list'), (
                            {text('k'): opaque('v')}, 'mapping')):
                        ck.ob('%s %s.%s %s' % (ver, cls, m, n), R,
                              lambda: one_(x, True))
                if bare(k)[0] == 'b':
                    for x in (True, False):
                        ck.ob('%s %s.%s=%r' % (ver, cls, m, x), R,
                              lambda: one_(x, True))

            ms = [m for m in g.tab[cls] if m != '$ref']
            for i, a in enumerate(ms):
                for b in ms[:i]:
                    def two():
                        s = g.obj(cls, 0, [a, b])
                        nonull(s)
                        dumps(ck, g, cls, s)
                    ck.ob('%s %s.%s and %s' % (ver, cls, a, b), R, two)

            def all_():
                g2 = Gen(ver)
                s = g2.obj(cls, 2 if ver != '3.0.0' else 1)
                nonull(s)
                dumps(ck, g2, cls, s)
            ck.ob('%s %s all members' % (ver, cls), R, all_)


def nonull(s):
    """values that are not null"""
    it = s.items() if isinstance(s, dict) else enumerate(s)
    for k, v in list(it):
        if isinstance(v, (dict, list)):
            nonull(v)
        elif isinstance(v, Sym) and v.kind == 'any':
            s[k] = Sym(v.term, 'any', v.props | {('nottype', 'NoneType')})
