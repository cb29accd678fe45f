"""parts loaded before their document are used in it"""
from .c15 import *  # noqa

PARTS = '''
class Keep(App):
    """hands out what it loads"""

def part_first(app, ref, parser, url, remove):
    part = app.load_obj(ref, parser=parser)
    whole = app.load_obj(url, remove_dummy=remove)
    return (part, whole)

def two_parts(app, ref1, ref2, parser, url):
    a = app.load_obj(ref1, parser=parser)
    b = app.load_obj(ref2, parser=parser)
    whole = app.load_obj(url)
    return (a, b, whole)

def other_first(app, other, url, ver):
    o = app.migrate_obj(app.load_obj(other), other, ver)
    w = app.load_obj(url)
    return (o, w)
'''


def pfn(ck, name):
    L = app_lab(ck)
    if not getattr(ck, '_parts', None):
        L.load('scenario_parts', APP + PARTS)
        ck._parts = True
    m = L.I.import_module('scenario_parts')
    return L.base.get(L.base.get(m.id).env).vars[name]


def plain(ver):
    g = Gen(ver)
    g.keyprops = ('plain', 'fresh')
    return g


def places(ck, g, cls, spec):
    """[(tokens, class, part of the document)] of objects below"""
    L = ck.lab
    out = []

    def down(kind, spec, toks):
        kind = bare(kind)
        if not isinstance(spec, (dict, list)):
            return
        if kind[0] == 'b':
            return down(kind[1:], spec, toks)
        if kind[0] == '?':
            if '$ref' in spec:
                return
            return down(kind[1:], spec, toks)
        if kind in 'vs':
            return
        if (g.ver, kind) in MAPS:
            return
        if kind[0] == '[':
            for i, x in enumerate(spec):
                down(kind[1:-1], x, toks + [str(i)])
        elif kind[0] == '{':
            for k, x in spec.items():
                down(kind[1:-1], x, toks + [k])
        else:
            if toks:
                out.append((toks, kind, spec))
            for m, k in g.tab[kind].items():
                if m in spec:
                    down(k, spec[m], toks + [m])
    down(cls, spec, [])
    return out


def nav(ck, st, o, toks):
    L = ck.lab
    for t in toks:
        if is_map(ck, st, o):
            o = L.item(st, o, int(t) if isinstance(t, str) and t.isdigit()
                       else t)
        else:
            o = L.attr(st, o, t)
    return o


def put(spec, toks, new):
    """the document with another part there"""
    if not toks:
        return new
    out = spec.copy()
    k = int(toks[0]) if isinstance(spec, list) else toks[0]
    out[k] = put(spec[k], toks[1:], new)
    return out


def inserted(ck, g, cls, spec, which):
    """objects handed to the constructor; which: [(tokens, class)]"""
    L = ck.lab
    st = L.S()
    donors, ovr = [], {}
    exp = spec
    for i, (toks, c) in enumerate(which):
        d = g.obj(c, 0, [m for m, k in g.tab[c].items() if is_value(k) and
                         m != '$ref'][:1])
        o = L.new(st, g.short, c, d, ptr('#/donor', str(i)))
        donors.append((toks, o))
        ovr[ptr(*toks)] = o
        exp = put(exp, toks, d)
    o = L.new(st, g.short, cls, spec, '#/x', override=ovr)
    for toks, d in donors:
        x = nav(ck, st, o, toks)
        if x != d:
            raise Broken('the part at %s of %s is %s, not the one given' % (
                [L.show(st, L.mk(st, t)) for t in toks], cls, L.show(st, x)))
        p = L.sure(L.meth(st, d, 'get_parent'), 'get_parent')
        h = nav(ck, st, o, toks[:-1])
        if p != h:
            raise Broken('the part at %s of %s has parent %s' % (
                [L.show(st, L.mk(st, t)) for t in toks], cls, L.show(st, p)))
    ds = same(ck, st, L.mk(st, exp), L.sure(L.meth(st, o, 'dump'), 'dump'))
    if ds:
        raise Broken('parts given to %s change others: %s' % (cls, ds[:3]))


def early(ck, ver, leaf, remove, deep):
    """a part is loaded, then the document"""
    L = app_lab(ck)
    st = L.S()
    K = member('K', 'ks', 'fresh', 'plain')
    M = member('M', 'ks', 'fresh', 'plain')
    d = root(ver)
    g = Gen(ver)
    a, b = thing(g, leaf), thing(g, leaf)
    if deep:
        a = {'properties': {K: a, M: {}}}
    at_home(ver, d, leaf, K, a)
    at_home(ver, d, leaf, M, b)
    ref = cat(U, home(ver, leaf, K))
    toks = list(HOME[ver][leaf]) + [K]
    if deep:
        ref = ptr(ref, 'properties', K)
        toks += ['properties', K]
    app = L.sure(L.call(st, fn(ck, 'App'), U, {U: d}), 'creating an app')
    short = VERSIONS[ver][0]
    out = L.call(st, pfn(ck, 'part_first'), app, ref, L.name(short, leaf), U,
                 remove)
    part, whole = L.sure(out, 'loading').items
    x = p_at(ck, st, whole, toks)
    if x != part:
        raise Broken('the document has another %s' % leaf)
    ds = same(ck, st, L.mk(st, d), L.sure(L.meth(st, whole, 'dump'), 'dump'))
    if ds:
        raise Broken('the document is changed: %s' % ds[:3])
    # found again by its reference
    c = cached(ck, st, app, U, L.mk(st, cat('#', ptr('', *toks))), ver)
    if c != part:
        raise Broken('the store has another %s' % leaf)


def p_at(ck, st, o, toks):
    L = ck.lab
    for t in toks:
        o = L.item(st, o, t) if is_map(ck, st, o) else L.attr(st, o, t)
    return o


def several(ck, ver, leaf):
    L = app_lab(ck)
    st = L.S()
    K = member('K', 'ks', 'fresh', 'plain')
    M = member('M', 'ks', 'fresh', 'plain')
    d = root(ver)
    g = Gen(ver)
    at_home(ver, d, leaf, K, thing(g, leaf))
    at_home(ver, d, leaf, M, thing(g, leaf))
    app = L.sure(L.call(st, fn(ck, 'App'), U, {U: d}), 'creating an app')
    out = L.call(st, pfn(ck, 'two_parts'), app, cat(U, home(ver, leaf, M)),
                 cat(U, home(ver, leaf, K)), L.name(VERSIONS[ver][0], leaf),
                 U)
    b, a, whole = L.sure(out, 'loading').items
    h = list(HOME[ver][leaf])
    for k, x in ((K, a), (M, b)):
        if p_at(ck, st, whole, h + [k]) != x:
            raise Broken('the document has another %s' % leaf)


def referred(ck, ver, leaf):
    """another document refers to a part, then the document is loaded"""
    L = app_lab(ck)
    st = L.S()
    K = member('K', 'ks', 'fresh', 'plain')
    d, o = root(ver), root(ver)
    g = Gen(ver)
    at_home(ver, d, leaf, K, thing(g, leaf))
    k = '/there' if leaf == 'PathItem' else 'there'
    at_home(ver, o, leaf, k, {'$ref': cat('swagger.json', home(
        ver, leaf, K))})
    app = L.sure(L.call(st, fn(ck, 'App'), O, {U: d, O: o}), 'creating')
    out = L.call(st, pfn(ck, 'other_first'), app, O, U, ver)
    other, whole = L.sure(out, 'loading').items
    x = p_at(ck, st, other, list(HOME[ver][leaf]) + [k])
    n, r = info(ck, st, x, 'the reference')
    y = p_at(ck, st, whole, list(HOME[ver][leaf]) + [K])
    if r != y:
        raise Broken('the reference leads to %s, which is not in the '
                     'document' % L.show(st, r))


def check(ck):
    ck.floor = 100
    R = 'the part given is used at its place, and the rest is kept'
    for ver in ('2.0', '3.0.0'):
        for cls in classes(ver):
            if (ver, cls) in MAPS:
                continue
            g0 = plain(ver)
            for m, k in g0.tab[cls].items():
                if is_value(k):
                    continue

                def spec(only=None):
                    g = plain(ver)
                    s = g.shaped('two', cls, m)
                    return g, s, [p for p in places(ck, g, cls, s) if
                                  p[0][0] == m]
                g, s, ps = spec()
                for toks, c, x in ps:
                    n = '%s %s %s' % (ver, cls, '/'.join(
                        t if isinstance(t, str) else '*' for t in toks))
                    ck.ob(n, R, lambda: inserted(ck, g, cls, s, [(toks, c)]))
                if len(ps) > 1:
                    top = [p for p in ps if not any(
                        q[0] != p[0] and q[0] == p[0][:len(q[0])]
                        for q in ps)]
                    ck.ob('%s %s.%s all' % (ver, cls, m), R, lambda: inserted(
                        ck, g, cls, s, [p[:2] for p in top]))
        T = 'a part loaded before its document is the one in the document'
        for leaf in HOME[ver]:
            if leaf == 'PathItem' or (ver, leaf) in MAPS:
                continue
            for remove in (False, True):
                ck.ob('%s %s first%s' % (ver, leaf, ', removed' * remove), T,
                      lambda: early(ck, ver, leaf, remove, False))
            ck.ob('%s two %s first' % (ver, leaf), T, lambda: several(
                ck, ver, leaf))
            if ver == '3.0.0' or leaf == 'Schema':
                ck.ob('%s %s referred to first' % (ver, leaf), T,
                      lambda: referred(ck, ver, leaf))
        ck.ob('%s Schema in a schema first' % ver, T, lambda: early(
            ck, ver, 'Schema', False, True))
