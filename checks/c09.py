"""parts of a document are found by the tokens of their pointers"""
from .objs import *  # noqa


def leads(ck, g, cls, spec):
    """every part, by its tokens"""
    L = ck.lab
    st = L.S()
    sp = L.mk(st, spec)
    o = L.new(st, g.short, cls, sp, '#/x')
    parts = []

    def down(kind, spec, v, toks):
        kind = bare(kind)
        spec = L.mk(st, spec)
        if not isinstance(spec, Ref):
            return
        r = L.rec(st, spec)
        if kind == 'v':
            return
        if kind[0] == 'b':
            return down(kind[1:], spec, v, toks)
        if kind[0] == '?':
            return down('Reference' if Const('$ref') in r.d else kind[1:],
                        spec, v, toks)
        if (g.ver, kind) in MAPS and Const('$ref') not in r.d:
            kind = '{%s}' % MAPS[g.ver, kind]
        sub = kind[1:-1] if kind[0] in '[{' else None
        if kind[0] == '[':
            for i, (x, _) in enumerate(r.items):
                if isinstance(x, Ref):
                    at(sub, x, L.item(st, v, i), toks + [str(i)])
        elif kind[0] == '{':
            for key, e in r.d.items():
                if isinstance(e[0], Ref):
                    at(sub, e[0], L.item(st, v, key), toks + [key])
        else:
            for m, k in g.tab[kind].items():
                e = r.d.get(Const(m))
                if e is not None:
                    at(k, e[0], L.attr(st, v, m), toks + [m])

    def at(kind, spec, v, toks):
        parts.append((toks, v))
        down(kind, spec, v, toks)
    down(cls, sp, o, [])
    for toks, v in parts + [([], o)]:
        x = L.sure(L.meth(st, o, 'resolve', list(toks)), 'resolve')
        if x != v and not (isinstance(v, Ref) and isinstance(x, Ref) and
                           v.id == x.id):
            raise Broken('resolve(%s) of %s gives %s' % (
                [L.show(st, L.mk(st, t)) for t in toks], cls,
                L.show(st, x)))
        if len(toks) == 1:
            x = L.sure(L.meth(st, o, 'resolve', toks[0]), 'resolve')
            if x != v:
                raise Broken('resolve(%s) of %s gives %s' % (
                    toks[0], cls, L.show(st, x)))
    if len(parts) > 1:
        # from half way
        toks, v = max(parts, key=lambda p: len(p[0]))
        for i in range(1, len(toks)):
            mid = [x for t, x in parts if t == toks[:i]][0]
            x = L.sure(L.meth(st, mid, 'resolve', toks[i:]), 'resolve')
            if x != v:
                raise Broken('resolve(%s) half way in %s gives %s' % (
                    toks[i:], cls, L.show(st, x)))


def nowhere(ck, ver, cls, spec, toks):
    L = ck.lab
    st = L.S()
    g = Gen(ver)
    o = L.new(st, g.short, cls, spec, '#/x')
    out = L.meth(st, o, 'resolve', toks)
    if out.val is not None:
        raise Broken('resolve(%r) of %s gives %s' % (toks, cls, L.show(
            out.st, out.val)))
    if not out.raised:
        raise Undecided('no outcome')


NEAR = (('{Abc}', 'Abc'), ('Abc', '{Abc}'), ('Abc', 'abc'), ('abc', 'Abc'),
        ('Abc', 'Abcd'), ('Abcd', 'Abc'), ('Abc', 'bc'), ('Abc', ' Abc'),
        ('/abc', 'abc'), ('abc', '/abc'), ('/abc', '/abc/'), ('200', '2XX'),
        ('2XX', '200'), ('default', '200'), ('a-b', 'a_b'), ('a_b', 'a-b'),
        ('a~b', 'a~0b'), ('a~0b', 'a~b'), ('a/b', 'a~1b'), ('a~1b', 'a/b'),
        ('a b', 'a%20b'), ('a%20b', 'a b'), ('0', '00'), ('abc', '0'),
        ('abc', ''), ('', 'abc'), ('/a/{x}', '/a/{y}'), ('/a/{x}', '/a/x'))


def check(ck):
    ck.floor = 300
    R = 'the tokens of a pointer lead to the part it names'
    for ver in VERSIONS:
        g = Gen(ver)
        for cls in classes(ver):
            if (ver, cls) in MAPS:
                continue
            for m, k in g.tab[cls].items():
                if m == '$ref' and ver == '3.0.0' and cls == 'Schema':
                    continue
                for f in g.forms(k):
                    ck.ob('%s %s.%s %s' % (ver, cls, m, f), R,
                          lambda: leads(ck, g, cls, g.shaped(f, cls, m)))

            def all_():
                g2 = Gen(ver)
                leads(ck, g2, cls, g2.obj(cls, 1))
            ck.ob('%s %s all members' % (ver, cls), R, all_)
    R = 'tokens that lead nowhere are refused'
    K = member('K', 'k')
    for ver, cls, m, k in (
            ('1.2', 'Model', 'properties', '{'), ('1.2', 'Operation',
                                                  'parameters', '['),
            ('2.0', 'Swagger', 'definitions', '{'), ('2.0', 'Operation',
                                                     'parameters', '['),
            ('3.0.0', 'Components', 'schemas', '{'),
            ('3.0.0', 'Operation', 'parameters', '[')):
        g = Gen(ver)
        g.keygroup = 'k'
        spec = g.obj(cls, 0, [m])
        toks = [[m, '7'] if k == '[' else [m, K], ['nosuchmember']]
        if k == '[':
            toks += [[m, 'x']]
        for t in toks:
            ck.ob('%s %s %r' % (ver, cls, t), R, lambda: nowhere(
                ck, ver, cls, spec, t))
    # names that resemble one that is there
    for ver, cls, m in (
            ('1.2', 'Model', 'properties'), ('2.0', 'Swagger', 'definitions'),
            ('2.0', 'Swagger', 'paths'), ('2.0', 'Operation', 'responses'),
            ('2.0', 'Response', 'headers'), ('2.0', 'Schema', 'properties'),
            ('3.0.0', 'Components', 'schemas'),
            ('3.0.0', 'Components', 'callbacks'),
            ('3.0.0', 'OpenApi', 'paths'),
            ('3.0.0', 'Operation', 'callbacks'),
            ('3.0.0', 'Operation', 'responses'),
            ('3.0.0', 'Schema', 'properties')):
        for there, missing in NEAR:
            g = Gen(ver)
            e = g.obj(cls, 0, [m])[m]
            ck.ob('%s %s.%s %r for %r' % (ver, cls, m, missing, there), R,
                  lambda: nowhere(ck, ver, cls, dict(
                      g.obj(cls, -1, []), **{m: {there: list(
                          e.values())[0]}}), [m, missing]))
    for there, missing in NEAR:
        g = Gen('3.0.0')
        e = g.obj('PathItem', -1, [])
        ck.ob('3.0.0 Callback %r for %r' % (missing, there), R,
              lambda: nowhere(ck, '3.0.0', 'Operation', dict(
                  g.obj('Operation', -1, []),
                  callbacks={'c': {there: e}}), ['callbacks', 'c', missing]))
