"""path items that refer to others are merged"""
from .c15 import *  # noqa

# which of the path item, the one it refers to, and the next one have a member
PATTERNS = [(1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (0, 0, 0), (0, 1, 1),
            (1, 0, 1), (1, 1, 1)]


def members(ver):
    return [m for m, k in VERSIONS[ver][1]['PathItem'].items()
            if not is_value(k)]


def value(ver, m, mark):
    if m == 'parameters':
        return [{'name': mark, 'in': 'query', 'type': 'string'}
                if ver == '2.0' else {'name': mark, 'in': 'query'}]
    if m == 'servers':
        return [{'url': mark}]
    return {'operationId': mark, 'responses': {}}


def merged(ck, ver, to, turn, place):
    L = app_lab(ck)
    docs = {U: root(ver), O: root(ver)}
    ms = members(ver)
    has = {m: PATTERNS[(i + turn) % len(PATTERNS)] for i, m in enumerate(ms)}
    items = []
    for i in range(3):
        items.append({m: value(ver, m, text('%s.%d' % (m, i)))
                      for m in ms if has[m][i]})
    if place == 'same document':
        items[0]['$ref'] = home(ver, 'PathItem', '/b')
        items[1]['$ref'] = home(ver, 'PathItem', '/c')
        where = [(U, '/a'), (U, '/b'), (U, '/c')]
    elif place == 'other document':
        items[0]['$ref'] = cat('other.json', home(ver, 'PathItem', '/b'))
        items[1]['$ref'] = home(ver, 'PathItem', '/c')
        where = [(U, '/a'), (O, '/b'), (O, '/c')]
    else:
        items[0]['$ref'] = cat('other.json', home(ver, 'PathItem', '/b'))
        items[1]['$ref'] = cat('swagger.json', home(ver, 'PathItem', '/c'))
        where = [(U, '/a'), (O, '/b'), (U, '/c')]
    for (u, k), x in zip(where, items):
        at_home(ver, docs[u], 'PathItem', k, x)
    st, app, out = start(ck, docs, U, to)
    o = L.sure(out, 'loading')
    objs = [L.item(st, L.attr(st, o, 'paths'), '/a')]
    for i in range(2):
        objs.append(info(ck, st, objs[-1], 'the path item')[1])
    at = L.sure(L.meth(st, objs[0], 'get_attrs', 'migration'), 'get_attrs')
    fin = L.attr(st, at, 'final_obj')
    if L.clsname(st, fin) != 'PathItem' or fin in objs:
        raise Broken('the merged path item is %s' % L.show(st, fin))
    v = L.sure(L.call(st, L.name('utils', 'final'), objs[0]), 'final')
    if v != fin:
        raise Broken('final() gives %s' % L.show(st, v))
    for m in members(to):
        own = [i for i in range(3) if m in has and has[m][i]]
        got = L.attr(st, fin, m)
        for i in range(3):
            x = L.attr(st, objs[i], m)
            if (x == Const(None)) != (i not in own):
                raise Broken('path item %d %s %s after merging' % (
                    i, 'has' if i not in own else 'lost', m))
        if not own:
            L.expect(st, None, got, 'merged %s' % m)
        elif got != L.attr(st, objs[own[0]], m):
            raise Broken('merged %s is %s, not that of path item %d of the '
                         'chain' % (m, L.show(st, got), own[0]))
        if own and L.I.truth(got, st) is not True:
            raise Broken('merged %s is empty' % m)
    # what is listed is what is there
    got = L.sure(L.meth(st, fin, 'get_children'), 'get_children')
    n = sum(1 for m in ms if any(has[m]))
    if len(L.rec(st, got).d) != n:
        raise Broken('the merged path item lists %s' % L.show(st, got))


def alone(ck, ver, to):
    """path items without reference stay as they are"""
    L = app_lab(ck)
    docs = {U: root(ver)}
    at_home(ver, docs[U], 'PathItem', '/a', {
        'get': value(ver, 'get', text('x'))})
    st, app, out = start(ck, docs, U, to)
    o = L.item(st, L.attr(st, L.sure(out, 'loading'), 'paths'), '/a')
    v = L.sure(L.call(st, L.name('utils', 'final'), o), 'final')
    if v != o:
        raise Broken('final() of a path item without reference gives %s' %
                     L.show(st, v))


def check(ck):
    ck.floor = 60
    R = ('a path item has its own operations, parameters and servers, and '
         'those of the path items it refers to, the nearest first')
    for ver, to in (('2.0', '2.0'), ('3.0.0', '3.0.0'), ('2.0', '3.0.0')):
        for place in ('same document', 'other document', 'back and forth'):
            for turn in range(len(PATTERNS)):
                ck.ob('%s->%s %s %d' % (ver, to, place, turn), R,
                      lambda: merged(ck, ver, to, turn, place))
        ck.ob('%s->%s no reference' % (ver, to), R,
              lambda: alone(ck, ver, to))
