"""every reference of a document is resolved when the document is loaded"""
from .slots import *  # noqa

U = 'http://h.com/a/swagger.json'
O = 'http://h.com/a/other.json'
PART = 'http://h.com/a/sub/part.yml'
FAR = 'https://far.org/x.json'


def thing(g, leaf, empty=False):
    if empty:
        return g.obj(leaf, -1, []) if leaf in g.tab else {}
    if leaf not in g.tab:
        return {'{expr}': g.obj(MAPS[g.ver, leaf], -1, [])}
    m = 'description' if 'description' in g.tab[leaf] else None
    if leaf == 'PathItem' and g.ver == '2.0':
        m = 'get'
    return g.obj(leaf, 0, [m])


def at_home(ver, doc, leaf, key, v):
    d = doc
    for h in HOME[ver][leaf]:
        d = d.setdefault(h, {})
    d[key] = v


def root(ver):
    g = Gen(ver)
    return dict(g.obj(ROOT[ver], -1, []), **{TAG[ver]: ver})


def home(ver, leaf, key):
    return ptr('#/' + '/'.join(HOME[ver][leaf]), key)


def info(ck, st, o, what):
    L = ck.lab
    at = L.sure(L.meth(st, o, 'get_attrs', 'migration'), 'get_attrs')
    if at == Const(None):
        raise Broken('%s was left unresolved' % what)
    return (L.attr(st, at, 'normalized_ref'), L.attr(st, at, 'ref_obj'))


def cached(ck, st, app, url, jp, ver):
    L = ck.lab
    s = L.attr(st, app, 'spec_obj_store')
    return L.sure(L.meth(st, s, 'get', url, jp, ver), 'store.get')


def linked(ck, st, o, ver, leaf, norm, target, spec, what):
    """o is a reference that was resolved to the target"""
    L = ck.lab
    want = leaf if leaf == 'PathItem' or (ver, leaf) == ('2.0', 'Schema') \
        else 'Reference'
    if L.clsname(st, o) != want:
        raise Broken('%s is %s, expected a %s' % (what, L.show(st, o), want))
    n, r = info(ck, st, o, what)
    L.expect(st, norm, n, 'absolute reference of ' + what)
    if L.clsname(st, r) != leaf:
        raise Broken('%s is resolved to %s, expected a %s' % (
            what, L.show(st, r), leaf))
    if target is not None and r != target:
        raise Broken('%s is resolved to another %s' % (what, leaf))
    if spec is not None and L.rec(st, spec).d:
        ds = same(ck, st, spec, L.sure(L.meth(st, r, 'dump'), 'dump'))
        if ds:
            raise Broken('%s is resolved to something else: %s' % (what, ds))
    d = L.sure(L.call(st, L.name('utils', 'deref'), o), 'deref')
    if d != r:
        raise Broken('deref() of %s gives %s' % (what, L.show(st, d)))


def slot(ck, ver, steps, leaf, how, empty=False):
    L = app_lab(ck)
    st0 = L.S()
    g = Gen(ver)
    K = cat('/', member('T', 'keys', 'fresh')) if leaf == 'PathItem' else \
        member('T', 'keys', 'fresh', *('plain', ) * (leaf == 'Callback'))
    g.n = 1000
    spec = thing(g, leaf, empty)
    docs = {}
    if how == 'same document':
        ref = home(ver, leaf, K)
        norm = cat(U, ref)
    elif how in ('other document', 'absolute'):
        url = O if how == 'other document' else FAR
        docs[url] = root(ver)
        at_home(ver, docs[url], leaf, K, spec)
        jp = home(ver, leaf, K)
        ref = cat('other.json' if url == O else url, jp)
        norm = cat(url, jp)
    elif how == 'whole document':
        docs[PART] = dict(spec)
        ref, url, jp = 'sub/part.yml', PART, '#'
        norm = OneOf(PART, PART + '#')
    else:
        docs[PART] = {'x/y': [0, {K: spec}]}
        jp = ptr('#', 'x/y', '1', K)
        url = PART
        ref, norm = cat('./sub/part.yml', jp), cat(PART, jp)
    p = Place(ver, steps, {'$ref': ref})
    if how == 'same document':
        at_home(ver, p.doc, leaf, K, spec)
    docs[U] = p.doc
    st, app, out = start(ck, docs, U, ver)
    o = L.sure(out, 'loading')
    what = 'the reference at %s' % '/'.join(
        x if isinstance(x, str) else L.show(st, L.mk(st, x)) for x in p.nav)
    if how == 'same document':
        target = p.at(ck, st, o, list(HOME[ver][leaf]) + [K])
        sp = None
    else:
        target = cached(ck, st, app, url, jp, ver)
        sp = L.mk(st, spec)
    linked(ck, st, p.at(ck, st, o), ver, leaf, norm, target, sp, what)


def chained(ck, ver, steps, leaf):
    """a reference to a reference in another document"""
    L = app_lab(ck)
    g = Gen(ver)
    g.n = 1000
    spec = thing(g, leaf)
    K = member('T', 'keys', 'fresh')
    docs = {O: root(ver)}
    k1 = cat('/', K) if leaf == 'PathItem' else K
    k2 = '/second' if leaf == 'PathItem' else 'second'
    at_home(ver, docs[O], leaf, k1, {'$ref': home(ver, leaf, k2)})
    at_home(ver, docs[O], leaf, k2, spec)
    p = Place(ver, steps, {'$ref': cat('other.json', home(ver, leaf, k1))})
    docs[U] = p.doc
    st, app, out = start(ck, docs, U, ver)
    r = L.sure(out, 'loading')
    o = p.at(ck, st, r)
    n, mid = info(ck, st, o, 'the reference')
    L.expect(st, cat(O, home(ver, leaf, k1)), n, 'absolute reference')
    n2, last = info(ck, st, mid, 'the reference in between')
    L.expect(st, cat(O, home(ver, leaf, k2)), n2, 'absolute reference '
             'in between')
    ds = same(ck, st, L.mk(st, spec), L.sure(L.meth(st, last, 'dump'),
                                             'dump')) if spec else []
    if L.clsname(st, last) != leaf or ds:
        raise Broken('the chain of references ends at %s %s' % (
            L.show(st, last), ds))
    d = L.sure(L.call(st, L.name('utils', 'deref'), o), 'deref')
    if d != last:
        raise Broken('deref() of a chain of references gives %s' %
                     L.show(st, d))


def inward(ck, ver, steps, leaf, far):
    """a reference to something in the middle of a document"""
    L = app_lab(ck)
    g = Gen(ver)
    g.n = 1000
    p = Place(ver, steps, thing(g, leaf))
    url = O if far else U
    docs = {url: p.doc}
    d = docs.setdefault(U, root(ver))
    jp = ptr('#', *[str(x) if isinstance(x, int) else x for x in p.nav])
    x = {'$ref': cat('other.json', jp) if far else jp}
    if ver == '2.0' and leaf in ('Parameter', 'Response'):
        m, k, v = ('parameters', 0, [x]) if leaf == 'Parameter' else (
            'responses', 'r', {'r': x})
        d.setdefault('paths', {})['/ref'] = {'get': {m: v}}
        nav = ['paths', '/ref', 'get', m, k]
    else:
        nav = list(HOME[ver][leaf]) + ['/ref' if leaf == 'PathItem' else
                                       'ref']
        at_home(ver, d, leaf, nav[-1], x)
    st, app, out = start(ck, docs, U, ver)
    o = L.sure(out, 'loading')
    target = None if far else p.at(ck, st, o)
    linked(ck, st, p.at(ck, st, o, nav), ver, leaf, cat(url, jp), target,
           None, 'a reference to %s' % '/'.join(
               y if isinstance(y, str) else L.show(st, L.mk(st, y))
               for y in p.nav))


def within(ck, ver, how):
    """a reference to the object that the reference is a part of"""
    L = app_lab(ck)
    ref = {'hash': '#', 'name': 'part.yml', 'name and hash': 'part.yml#',
           'absolute': PART, 'absolute and hash': PART + '#',
           'inner': '#/properties/s', 'outer': '#/definitions/T'}[how]
    K = 'K'
    far = how != 'outer'
    spec = {'properties': {'s': {'type': 'string'}, 'r': {'$ref': ref}}}
    p = Place(ver, [(ROOT[ver], 'info', 'Info')], Gen(ver).obj(
        'Info', -1, []))
    docs = {U: p.doc}
    if far:
        docs[PART] = spec
    else:
        ref = home(ver, 'Schema', 'T')
        spec['properties']['r']['$ref'] = ref
        at_home(ver, p.doc, 'Schema', 'T', spec)
    at_home(ver, p.doc, 'Schema', K, {
        '$ref': 'sub/part.yml' if far else ref})
    st, app, out = start(ck, docs, U, ver)
    o = p.at(ck, st, L.sure(out, 'loading'))
    p.nav = []
    k = p.at(ck, st, L.sure(out, 'loading'), list(HOME[ver]['Schema']) + [K])
    _, whole = info(ck, st, k, 'the reference to it')
    if L.clsname(st, whole) != 'Schema':
        raise Broken('it is resolved to %s' % L.show(st, whole))
    r = p.at(ck, st, whole, ['properties', 'r'])
    s = p.at(ck, st, whole, ['properties', 's'])
    if how == 'inner':
        norm = PART + ref
    elif far:
        norm = OneOf(PART, PART + '#')
    else:
        norm = cat(U, ref)
    linked(ck, st, r, ver, 'Schema', norm, None, None, 'the reference to '
           'what it is in')
    _, t = info(ck, st, r, 'it')
    if how == 'inner':
        ds = same(ck, st, L.mk(st, {'type': 'string'}), L.sure(
            L.meth(st, t, 'dump'), 'dump'))
        if ds:
            raise Broken('the reference is resolved to %s' % ds)
    elif t != whole:
        raise Broken('the reference is resolved to %s, expected the object '
                     'it is a part of' % L.show(st, t))


def many(ck, ver, c, m, leaf, cont, n):
    """a long list, or a mapping of many, with references and others"""
    L = app_lab(ck)
    g = Gen(ver)
    pre = '/' * (leaf == 'PathItem')
    x = thing(g, leaf)
    vs = [{'$ref': ('other.json' if i % 5 == 2 else '') + '#/' + '/'.join(
        list(HOME[ver][leaf]) + [pre and '~1T%d' % i or 'T%d' % i])}
          if i % 3 != 1 else thing(g, leaf) for i in range(n)]
    d = g.obj(c, -1, []) if c in g.tab else {}
    v = vs if cont == '[' else {pre + 'k%d' % i: y for i, y in enumerate(vs)}
    if m is None:
        d.update(v)
    else:
        d[m] = v
    st = routes(ver)[c]
    if st:
        p = Place(ver, st, d)
    else:
        p = Place(ver, [(c, y, k) for y, k in table(ver)[c].items()
                        if y == 'info'], g.obj('Info', -1, []))
        p.doc.update(d)
        p.nav = []
    docs = {U: p.doc, O: root(ver)}
    for i in range(n):
        at_home(ver, docs[O if i % 5 == 2 else U], leaf, '%sT%d' % (pre, i),
                x)
    st, app, out = start(ck, docs, U, ver)
    o = p.at(ck, st, L.sure(out, 'loading'))
    for i in range(n):
        if i % 3 != 1:
            y = p.at(ck, st, o, ([m] if m else []) + [
                i if cont == '[' else pre + 'k%d' % i])
            linked(ck, st, y, ver, leaf, (O if i % 5 == 2 else U) + vs[i][
                '$ref'][vs[i]['$ref'].index('#'):], None, None,
                'reference %d of many' % i)


def kept(ck, ver, steps, leaf):
    """the reference reads as it is written"""
    L = app_lab(ck)
    K = '/T' if leaf == 'PathItem' else 'T'
    g = Gen(ver)
    ref = home(ver, leaf, K)
    p = Place(ver, steps, {'$ref': ref})
    at_home(ver, p.doc, leaf, K, thing(g, leaf))
    st, app, out = start(ck, {U: p.doc}, U, ver)
    o = p.at(ck, st, L.sure(out, 'loading'))
    L.expect(st, ref, L.attr(st, o, 'ref'), 'the reference')


def crowded(ck, ver, steps, leaf, full, far):
    """everything around the reference and its target is set as well"""
    L = app_lab(ck)
    K = '/T' if leaf == 'PathItem' else 'T'
    g = Gen(ver)
    spec = thing(g, leaf)
    if leaf in g.tab:
        spec = dict(spec, **others(ver, leaf, None, full))
    ref = home(ver, leaf, K)
    p = Place(ver, steps, {'$ref': cat('other.json', ref) if far else ref},
              rich=full)
    docs = {U: p.doc}
    if far:
        docs[O] = root(ver)
    at_home(ver, docs[O if far else U], leaf, K, spec)
    st, app, out = start(ck, docs, U, ver)
    o = L.sure(out, 'loading')
    linked(ck, st, p.at(ck, st, o), ver, leaf, cat(O if far else U, ref),
           None if far else p.at(ck, st, o, list(HOME[ver][leaf]) + [K]),
           None, 'the reference')


def wrapped(cont, v, n):
    """v inside of its containers, and the steps that lead to it"""
    steps = []
    for c in reversed(cont):
        if c == '[':
            v = [v]
            steps.insert(0, 0)
        else:
            k = '/' + n if n.startswith('p') else n
            v = {k: v}
            steps.insert(0, k)
    return v, steps


def beside(ck, ver, c, members, own, alike=False):
    """several references in one object"""
    L = app_lab(ck)
    g = Gen(ver)
    g.n = 1000
    t = table(ver)
    d = g.obj(c, -1, []) if c in g.tab else {}
    docs = {O: root(ver)}
    todo = []
    if own:
        ref = home(ver, c, '/own')
        at_home(ver, docs[O], c, '/own', thing(g, c))
        d['$ref'] = cat('other.json', ref)
        todo.append(([], c, cat(O, ref)))
    local = []
    for i, m in enumerate(members):
        cont, flags, leaf = parse(t[c][m])
        key = '%sT%d' % ('/' * (leaf == 'PathItem'), i)
        ref = home(ver, leaf, key)
        if i % 2:
            local.append((leaf, key, thing(g, leaf)))
            v = {'$ref': ref}
            norm = cat(U, ref)
        else:
            at_home(ver, docs[O], leaf, key, thing(g, leaf))
            v = {'$ref': cat('other.json', ref)}
            norm = cat(O, ref)
        d[m], steps = wrapped(cont, v, ('p%d' if leaf == 'PathItem' else
                                        'k%d') % (0 if alike else i))
        todo.append(([m] + steps, leaf, norm))
    st = routes(ver)[c]
    if st:
        p = Place(ver, st, d)
    else:
        p = Place(ver, [(c, x, k) for x, k in t[c].items()
                        if x == 'info'], g.obj('Info', -1, []))
        p.doc.update(d)
        p.nav = []
    for leaf, key, x in local:
        at_home(ver, p.doc, leaf, key, x)
    docs[U] = p.doc
    st, app, out = start(ck, docs, U, ver)
    o = L.sure(out, 'loading')
    for nav, leaf, norm in todo:
        x = p.at(ck, st, p.at(ck, st, o), nav)
        linked(ck, st, x, ver, leaf, norm, None, None,
               'the reference at .../%s' % '/'.join(map(str, nav)))


HOW = ('same document', 'other document', 'absolute', 'whole document',
       'part of a document')


def check(ck):
    ck.floor = 200
    for ver in ('2.0', '3.0.0'):
        R = routes(ver)
        ts = slots(ver)
        for how in ('hash', 'name', 'name and hash', 'absolute',
                    'absolute and hash', 'inner', 'outer'):
            ck.ob('%s within %s' % (ver, how), 'a reference may point to '
                  'what it is a part of', lambda: within(ck, ver, how))
        for c, m, k, leaf in ts:
            steps = R[c] + [(c, m, k)]
            n = '%s %s.%s' % (ver, c, m or '*')
            for how in HOW:
                ck.ob('%s %s' % (n, how), 'a reference is resolved to the '
                      'object it points to', lambda: slot(
                          ck, ver, steps, leaf, how))
                if how != 'whole document' and how != 'absolute':
                    ck.ob('%s %s to nothing but the required' % (n, how),
                          'a reference is resolved to the object it points '
                          'to', lambda: slot(ck, ver, steps, leaf, how, True))
            if ver == '3.0.0' or leaf in ('Schema', 'PathItem'):
                ck.ob('%s chain' % n, 'a chain of references is followed',
                      lambda: chained(ck, ver, steps, leaf))
            cont = parse(k)[0]
            if c in R and len(cont) == 1 and m is not None:
                ck.ob('%s many' % n, 'references next to each other are all '
                      'resolved', lambda: many(ck, ver, c, m, leaf, cont, 14))
            if c in R and m is not None:
                for c2, m2, k2, leaf2 in ts:
                    if c2 == c and m2 is not None and m2 > m:
                        ck.ob('%s and %s' % (n, m2), 'references next to '
                              'each other are all resolved', lambda: beside(
                                  ck, ver, c, [m, m2], False))
                        ck.ob('%s and %s, same names' % (n, m2),
                              'references next to each other are all '
                              'resolved', lambda: beside(
                                  ck, ver, c, [m, m2], False, True))
                if c == 'PathItem':
                    ck.ob('%s and $ref' % n, 'references next to '
                          'each other are all resolved', lambda: beside(
                              ck, ver, c, [m], True))
            for far in (False, True):
                # what is added on the way to a place has no optional parts
                rs = [steps]
                if c in R and leaf == 'Schema':
                    rs += [steps + [('Schema', m2, k2)] for m2, k2 in table(
                        ver)['Schema'].items() if parse(k2)[2] == 'Schema']
                for s in rs:
                    ck.ob('to %s%s%s' % (n, ' far' * far, ' '.join(
                        x[1] for x in s[len(steps):])), 'a reference may '
                        'point anywhere', lambda: inward(
                            ck, ver, s, leaf, far))
            for full in (1, 0):
                for far in (False, True):
                    ck.ob('%s among others%s%s' % (
                        n, '' if full else ' that are false',
                        ' far' * far), 'a reference is resolved whatever '
                        'else its object has', lambda: crowded(
                            ck, ver, steps, leaf, full, far))
            ck.ob('%s kept' % n, 'a local reference stays as it is',
                  lambda: kept(ck, ver, steps, leaf))
