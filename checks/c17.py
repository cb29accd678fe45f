"""a reference that cannot be resolved makes loading fail"""
from .c15 import *  # noqa

HOW = {
    'missing here': lambda ver, leaf: home(ver, leaf, '/no'),
    'missing there': lambda ver, leaf: cat('other.json', home(ver, leaf, '/no')),
    'other case there': lambda ver, leaf: cat('other.json', home(
        ver, leaf, '/YES')),
    'longer there': lambda ver, leaf: cat('other.json', home(
        ver, leaf, '/yes1')),
    'space there': lambda ver, leaf: cat('other.json', home(
        ver, leaf, '/yes ')),
    'index there': lambda ver, leaf: cat('other.json', home(
        ver, leaf, '/0')),
    'other case': lambda ver, leaf: home(ver, leaf, '/YES'),
    'longer': lambda ver, leaf: home(ver, leaf, '/yes/'),
    'shorter': lambda ver, leaf: home(ver, leaf, '/ye'),
    'missing section': lambda ver, leaf: '#/nothing/here',
    'missing section there': lambda ver, leaf: 'other.json#/nothing/here',
    'no document': lambda ver, leaf: cat('nowhere.json', home(ver, leaf, '/no')),
    'no whole document': lambda ver, leaf: 'nowhere.json',
    'empty document': lambda ver, leaf: 'empty.json',
    'below a text': lambda ver, leaf: 'other.json#/x/0/deep',
    'outside a list': lambda ver, leaf: 'other.json#/l/3',
    'name in a list': lambda ver, leaf: 'other.json#/l/name',
    'reference to nowhere': lambda ver, leaf: 'other.json#/r',
}


def fails(ck, ver, to, steps, leaf, how):
    L = app_lab(ck)
    p = Place(ver, steps, {'$ref': HOW[how](ver, leaf)})
    if how in ('other case', 'longer', 'shorter'):
        at_home(ver, p.doc, leaf, '/yes', thing(Gen(ver), leaf))
    o = root(ver)
    o.update({'x': ['text'], 'l': [{}], 'r': {'$ref': '#/no'}})
    at_home(ver, o, leaf, '/yes', thing(Gen(ver), leaf))
    st, app, out = start(ck, {U: p.doc, O: o, 'http://h.com/a/empty.json': {}},
                         U, to)
    if out.val is not None:
        if out.tops:
            raise Undecided(out.tops[0])
        at = p.at(ck, st, out.val) if ver == to else None
        what = L.show(st, info(ck, st, at, 'it')[1]) if at else 'something'
        raise Broken('loading succeeds, the reference leads to %s' % what)
    if not out.raised:
        raise Undecided('loading never ends')


def rejected(ck, doc, to, err):
    """documents that are no API description"""
    app_lab(ck)
    st, app, out = start(ck, {U: doc}, U, to)
    if out.val is not None or set(out.exc_types()) != {err}:
        raise Broken('%r is loaded as %s %s' % (doc, ck.lab.show(
            st, out.val) if out.val is not None else '-', out.excs()))


def check(ck):
    ck.floor = 300
    R = 'loading fails instead of leaving a reference unresolved'
    for ver in ('2.0', '3.0.0'):
        r = routes(ver)
        for c, m, k, leaf in slots(ver):
            for how in HOW:
                ck.ob('%s %s.%s %s' % (ver, c, m or '*', how), R,
                      lambda: fails(ck, ver, ver, r[c] + [(c, m, k)], leaf,
                                    how))
    for doc, err in (({'swagger': '3.1', 'paths': {}}, 'NotImplementedError'),
                     ({'openapi': '3.1.0'}, 'NotImplementedError'),
                     ({'swaggerVersion': '1.1'}, 'NotImplementedError'),
                     ({'info': {}}, 'NotImplementedError'),
                     ({}, 'Exception')):
        ck.ob('document %r' % doc, 'a document of another version is refused',
              lambda: rejected(ck, doc, '3.0.0', err))
    for to in ('1.0', '2.1', '3.0.1', ''):
        ck.ob('to %r' % to, 'another target version is refused', lambda:
              rejected(ck, root('2.0'), to, 'ValueError'))
