"""the children of a part are listed completely, under their pointers"""
from .objs import *  # noqa


def tops(ck, g, st, kind, spec, v, path, out):
    """the objects found first, with their pointers"""
    L = ck.lab
    kind = bare(kind)
    spec = L.mk(st, spec)
    r = L.rec(st, spec)
    if kind in ('v', 's') or not isinstance(spec, Ref):
        return
    if kind[0] in 'b?':
        return tops(ck, g, st, kind[1:], spec, v, path, out)
    if (g.ver, kind) in MAPS and Const('$ref') not in r.d:
        kind = '{%s}' % MAPS[g.ver, kind]
    if kind[0] == '[':
        for i, (x, _) in enumerate(r.items):
            tops(ck, g, st, kind[1:-1], x, L.item(st, v, i),
                 ptr(path, str(i)), out)
    elif kind[0] == '{':
        for key, e in r.d.items():
            tops(ck, g, st, kind[1:-1], e[0], L.item(st, v, key),
                 ptr(path, key), out)
    else:
        out[path] = v


def expected(ck, g, st, cls, sp, o):
    """pointer (relative) -> object, for the objects directly below"""
    out = {}
    r = ck.lab.rec(st, sp)
    for m, k in g.tab[cls].items():
        e = r.d.get(Const(m))
        if e is not None and not is_value(k):
            tops(ck, g, st, k, e[0], ck.lab.attr(st, o, m), enc(Const(m)), out)
    return out


def twice(k):
    """mappings of mappings or of lists"""
    k = bare(k)
    return k[0] in '[{' and k[1] in '[{' or 'Callback' in k


def listing(ck, st, o, exp, what):
    L = ck.lab
    got = L.sure(L.meth(st, o, 'get_children'), 'get_children')
    L.expect(st, exp, got, what)


def lists(ck, g, cls, spec):
    L = ck.lab
    st = L.S()
    sp = L.mk(st, spec)
    o = L.new(st, g.short, cls, sp, '#/x')
    exp = expected(ck, g, st, cls, sp, o)
    for i in ('first', 'second'):
        listing(ck, st, o, exp, 'children of %s (%s listing)' % (cls, i))


def attach(ck, g, cls, m, how, first):
    """children added later are listed"""
    L = ck.lab
    st = L.S()
    full = L.mk(st, {m: g.val(g.tab[cls][m], m, 0)})
    donor = L.new(st, g.short, cls, dict(
        g.obj(cls, -1, []), **{m: L.item(st, full, m)}), '#/y')
    exp = expected(ck, g, st, cls, full, donor)
    x = L.attr(st, donor, m)
    kids = [n for n, k in g.tab[cls].items() if n != m and not is_value(k) and
            not twice(k)]
    own = L.mk(st, g.obj(cls, 0, kids[:2]))
    o = L.new(st, g.short, cls, own, '#/x')
    exp.update(expected(ck, g, st, cls, own, o))
    if first:
        L.sure(L.meth(st, o, 'get_children'), 'get_children')
        # an object lists nothing, or what it has
    if how == 'attach':
        L.sure(L.meth(st, o, 'attach_child', m, x), 'attach_child')
    else:
        L.sure(L.run(st, lambda s: L.I.setattr(o, m, x, s) or x), 'assigning')
    listing(ck, st, o, exp, 'children of %s after %s of %s' % (cls, how, m))


def grow(ck, first, how):
    """elements added to a container"""
    L = ck.lab
    st = L.S()
    k, k2 = member('k', 'g'), member('k2', 'g')
    if how == 'map':
        o = L.new(st, 'o20', 'Swagger', {'definitions': {k: {}}}, '#')
        c = L.attr(st, o, 'definitions')
        x = L.new(st, 'o20', 'Schema', {}, '#/y')
        exp = {ptr('definitions', k): L.item(st, c, k),
               ptr('definitions', k2): x}
    else:
        o = L.new(st, 'o20', 'Swagger', {'tags': [{}]}, '#')
        c = L.attr(st, o, 'tags')
        x = L.new(st, 'o20', 'Tag', {}, '#/y')
        exp = {'tags/0': L.item(st, c, 0), 'tags/1': x}
    if first:
        L.sure(L.meth(st, o, 'get_children'), 'get_children')
    if how == 'map':
        L.sure(L.meth(st, c, '__setitem__', k2, x), 'adding')
    elif how == 'append':
        L.sure(L.meth(st, c, 'append', x), 'adding')
    else:
        L.sure(L.meth(st, c, 'extend', [x]), 'adding')
    listing(ck, st, o, exp, 'children after adding to a container')


def alone(ck, g, cls, sub, keys):
    L = ck.lab
    st = L.S()
    o = L.new(st, g.short, cls, {k: g.obj(sub, 0, [
        'parameters', 'description']) for k in keys}, '#/x')
    exp = {enc(Const(k)): L.item(st, o, k) for k in keys}
    listing(ck, st, o, exp, 'children of %s' % cls)


def check(ck):
    ck.floor = 300
    for ver in VERSIONS:
        g = Gen(ver)
        for cls in classes(ver):
            kids = [m for m, k in g.tab[cls].items() if not is_value(k)]
            for m in kids:
                k = g.tab[cls][m]
                R = 'every object below is listed once, under its pointer'
                ck.ob('%s %s.%s' % (ver, cls, m), R, lambda: lists(
                    ck, g, cls, g.obj(cls, 0, [m])))
                for f in g.forms(k)[1:]:
                    if not twice(k):
                        ck.ob('%s %s.%s %s' % (ver, cls, m, f), R,
                              lambda: lists(ck, g, cls, g.shaped(f, cls, m)))
                for m2 in kids[:kids.index(m)]:
                    if not twice(k) and not twice(g.tab[cls][m2]):
                        ck.ob('%s %s.%s and %s' % (ver, cls, m, m2), R,
                              lambda: lists(ck, g, cls, g.obj(
                                  cls, 0, [m, m2])))
                if 's' in bare(k).strip('[]{}?b') and len(
                        bare(k).strip('[]{}?b')) == 1 or req(k):
                    continue
                for how in ('attach', 'assign'):
                    for first in (False, True):
                        if how == 'assign' and first:
                            continue
                        if twice(k):
                            continue
                        ck.ob('%s %s.%s %s%s' % (
                            ver, cls, m, how, ' after listing' * first),
                            'the listing follows later additions',
                            lambda: attach(ck, g, cls, m, how, first))
            ck.ob('%s %s all members' % (ver, cls),
                  'every object below is listed once, under its pointer',
                  lambda: lists(ck, g, cls, g.obj(
                      cls, 1, skip=[m for m in kids if twice(g.tab[cls][m])])))
    for (ver, cls), sub in MAPS.items():
        g = Gen(ver)
        for i, keys in enumerate(NAMES + EXPRS):
            # names with / are findings of members, see known_findings.txt
            keys = [k for k in keys if not set('/~') & set(k)]
            ck.ob('%s %s alone %d' % (ver, cls, i), 'every object below is '
                  'listed once, under its pointer', lambda: alone(
                      ck, g, cls, sub, keys))
    R = 'the listing follows later additions'
    for how in ('map', 'append', 'extend'):
        for first in (False, True):
            ck.ob('%s%s' % (how, ' after listing' * first), R,
                  lambda: grow(ck, first, how))
    g = Gen('2.0')
    ck.ob('assign after listing', R, lambda: attach(
        ck, g, 'Schema', 'externalDocs', 'assign', 'items'))
