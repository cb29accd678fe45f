"""loops of references load, and following one is reported"""
from .c15 import *  # noqa
from pyabs.interp import Unsupported


def ends(fn, deep=True):
    """there are only a few objects: hundreds of steps do not end"""
    try:
        return fn()
    except (Undecided, Unsupported) as e:
        s = str(e)
        if 'loop bound' in s or deep and 'call depth' in s:
            i = s.find(' at ')
            raise Broken('it does not end', s[i + 4:] if i >= 0 else None)
        raise


def loop_error(ck, st, o, what):
    L = ck.lab
    out = L.call(st, L.name('utils', 'deref'), o)
    if out.val is not None:
        raise Broken('deref() of %s gives %s' % (what, L.show(st, out.val)))
    if out.exc_types() != ['CycleDetectionError']:
        raise Broken('deref() of %s raises %s' % (what, out.excs()))


def loops(ck, ver, to, leaf, places):
    """references a -> b -> ... -> a, one after another in these documents"""
    L = app_lab(ck)
    names = ['k%d' % i for i in range(len(places))]
    pre = '/' if leaf == 'PathItem' else ''
    urls = {'': U, 'other': O}
    files = {'': 'swagger.json', 'other': 'other.json'}
    docs = {U: root(ver), O: root(ver)}
    for i, (n, w) in enumerate(zip(names, places)):
        j = (i + 1) % len(names)
        ref = home(ver, leaf, pre + names[j])
        if places[j] != w:
            ref = cat(files[places[j]], ref)
        at_home(ver, docs[urls[w]], leaf, pre + n, {'$ref': ref})
    st, app, out = start(ck, docs, U, to)
    r = L.sure(out, 'loading')
    o = r
    for x in list(HOME[to][leaf]) + [pre + names[0]]:
        o = step(ck, st, o, x)
    loop_error(ck, st, o, 'a loop of references')
    for i in range(len(names)):
        n, o = info(ck, st, o, 'reference %d of the loop' % i)
        if i + 1 < len(names):
            loop_error(ck, st, o, 'reference %d of the loop' % (i + 1))
    if leaf == 'PathItem':
        at = L.sure(L.meth(st, o, 'get_attrs', 'migration'), 'get_attrs')
        if L.clsname(st, L.attr(st, at, 'final_obj')) != 'PathItem':
            raise Broken('path items in a loop were not merged')


def step(ck, st, o, x):
    return ck.lab.item(st, o, x) if is_map(ck, st, o) else ck.lab.attr(
        st, o, x)


def recursive(ck, ver, to, m, far):
    """a model that contains itself is no loop of references"""
    L = app_lab(ck)
    k = VERSIONS[ver][1]['Schema'][m]
    cont = parse(k)[0]
    ref = home(ver, 'Schema', 'A')
    docs = {U: root(ver), O: root(ver)}
    x = {'$ref': cat('other.json', ref) if far else ref}
    at_home(ver, docs[U], 'Schema', 'A', {'type': 'object', m: [x] if cont == '[' else {
        'p': x} if cont == '{' else x})
    y = {'$ref': cat('swagger.json', ref)}
    at_home(ver, docs[O], 'Schema', 'A', {'type': 'array', 'items': y})
    st, app, out = start(ck, docs, U, to)
    o = L.sure(out, 'loading')
    for n in list(HOME[to]['Schema']) + ['A']:
        o = step(ck, st, o, n)
    a = o
    o = L.attr(st, o, m)
    if cont:
        o = L.item(st, o, 0 if cont == '[' else 'p')
    for i in range(2 if far else 1):
        o = L.sure(L.call(st, L.name('utils', 'deref'), o), 'deref')
        if far and not i:
            o = L.attr(st, o, 'items')
    if o != a:
        raise Broken('the model does not contain itself, but %s' %
                     L.show(st, o))


def entered(ck, ver, to):
    """a loop behind a chain of references"""
    L = app_lab(ck)
    docs = {U: root(ver)}
    for n, t in (('A', 'B'), ('B', 'C'), ('C', 'B')):
        at_home(ver, docs[U], 'Schema', n, {'$ref': home(ver, 'Schema', t)})
    st, app, out = start(ck, docs, U, to)
    o = L.sure(out, 'loading')
    for n in list(HOME[to]['Schema']) + ['A']:
        o = step(ck, st, o, n)
    loop_error(ck, st, o, 'a chain that ends in a loop')


def ending(ck, ver, n):
    """a long chain of references that ends"""
    L = app_lab(ck)
    docs = {U: root(ver)}
    for i in range(n):
        at_home(ver, docs[U], 'Schema', 'k%d' % i, {
            '$ref': home(ver, 'Schema', 'k%d' % (i + 1))})
    at_home(ver, docs[U], 'Schema', 'k%d' % n, {'title': text('t')})
    st, app, out = start(ck, docs, U, ver)
    o = L.sure(out, 'loading')
    for x in HOME[ver]['Schema']:
        o = step(ck, st, o, x)
    last = step(ck, st, o, 'k%d' % n)
    for i in range(n + 1):
        v = L.sure(L.call(st, L.name('utils', 'deref'),
                          step(ck, st, o, 'k%d' % i)), 'deref')
        if v != last:
            raise Broken('deref() of a chain of %d gives %s' % (
                n - i, L.show(st, v)))


def guarded(ck, objs, err):
    """guards are shared or separate, as asked for"""
    L = app_lab(ck)
    st = L.S()
    g = L.sure(L.call(st, L.name('utils', 'CycleGuard')), 'guard')
    made = {}
    for i, n in enumerate(objs):
        if n not in made:
            made[n] = L.new(st, 'o20', 'Schema', {}, '#/' + n)
        out = L.meth(st, g, 'update', made[n])
        if i == err:
            if out.exc_types() != ['CycleDetectionError'] or \
                    out.val is not None:
                raise Broken('a repeated object is not reported: %s' %
                             out.excs())
            return
        L.sure(out, 'update')


def shared(ck):
    """deref with a guard given counts what was visited before"""
    L = app_lab(ck)
    docs = {U: root('2.0')}
    at_home('2.0', docs[U], 'Schema', 'A', {'$ref': '#/definitions/B'})
    at_home('2.0', docs[U], 'Schema', 'B', {'type': 'string'})
    st, app, out = start(ck, docs, U, '2.0')
    o = L.sure(out, 'loading')
    a = step(ck, st, step(ck, st, o, 'definitions'), 'A')
    b = step(ck, st, step(ck, st, o, 'definitions'), 'B')
    g = L.sure(L.call(st, L.name('utils', 'CycleGuard')), 'guard')
    v = L.sure(L.call(st, L.name('utils', 'deref'), a, g), 'deref')
    if v != b:
        raise Broken('deref() gives %s' % L.show(st, v))
    out = L.call(st, L.name('utils', 'deref'), b, g)
    if out.val is not None or out.exc_types() != ['CycleDetectionError']:
        raise Broken('an object visited before is not reported')
    for i in range(2):
        v = L.sure(L.call(st, L.name('utils', 'deref'), a), 'deref')
        if v != b:
            raise Broken('deref() gives %s' % L.show(st, v))


def plain(ck):
    L = app_lab(ck)
    st = L.S()
    o = L.new(st, 'o20', 'Schema', {}, '#/x')
    for x in (o, Const(None), Const('text')):
        v = L.sure(L.call(st, L.name('utils', 'deref'), x), 'deref')
        if v != x:
            raise Broken('deref() of no reference gives %s' % L.show(st, v))


def check(ck):
    ck.floor = 60
    R = 'loading ends, following the loop raises CycleDetectionError'
    for ver, to in (('2.0', '2.0'), ('3.0.0', '3.0.0'), ('2.0', '3.0.0')):
        leaves = ['Schema', 'PathItem']
        if ver == '3.0.0':
            leaves += [x for x in HOME[ver] if x not in leaves]
        for leaf in leaves:
            for places in ([''], ['', ''], ['', '', ''], ['', 'other'],
                           ['', 'other', 'other'], ['', '', 'other'],
                           ['', '', '', ''], [''] * 5,
                           ['', 'other', '', 'other']):
                ck.ob('%s->%s %s %s' % (ver, to, leaf, ','.join(
                    p or 'here' for p in places)), R, lambda: ends(
                        lambda: loops(ck, ver, to, leaf, places)))
        for n in (7, 9, 10, 12, 16, 20):
            ck.ob('%s->%s loop of %d' % (ver, to, n), R, lambda: ends(
                lambda: loops(ck, ver, to, 'Schema', [''] * n), False))
        ck.ob('%s->%s entered' % (ver, to), R, lambda: ends(
            lambda: entered(ck, ver, to)))
        for m, k in VERSIONS[ver][1]['Schema'].items():
            if parse(k)[2] == 'Schema':
                for far in (False, True):
                    ck.ob('%s->%s recursive %s%s' % (
                        ver, to, m, ' far' * far), 'models that contain '
                        'themselves load', lambda: ends(lambda: recursive(
                            ck, ver, to, m, far)))
    R = 'an object seen twice is reported, not before'
    for ver in ('2.0', '3.0.0'):
        for n in (1, 2, 3, 5, 9, 17):
            ck.ob('%s chain of %d' % (ver, n), 'a chain that ends is followed '
                  'to its end', lambda: ending(ck, ver, n))
    ab = 'abcdefghijklmnopqrstuvwxyz'
    for n in range(6, 27):
        for i in sorted({0, 1, n // 2, n - 1}):
            ck.ob('guard %d of %d' % (i, n), R, lambda: guarded(
                ck, ab[:n] + ab[i], n))
        ck.ob('guard all %d' % n, R, lambda: guarded(ck, ab[:n], None))
    for objs, err in (('ab', None), ('aa', 1), ('aba', 2), ('abcb', 3),
                      ('abc', None),
                      ('abcda', 4), ('abcdea', 5), ('abcdeb', 5),
                      ('abcdefghc', 8), ('abcdee', 5), ('abcdefgh', None)):
        ck.ob('guard ' + objs, R, lambda: guarded(ck, objs, err))
    ck.ob('guard given', R, lambda: shared(ck))
    ck.ob('no reference', 'what is no reference is given back',
          lambda: plain(ck))
