"""JSON pointers: composing and splitting are inverse"""
from .common import *  # noqa

NASTY = ['a', '~', '/', '~1', '~0', '~01', 'a/b~c', '', '~~//', '0', '$ref',
         '{id}', 'a b', '#', 'é', 'a.json', '%2F', '~2', '/~']


def composed(ck, args, exp, kw=None):
    L = ck.lab
    st = L.S()
    v = L.sure(L.call(st, L.name('utils', 'jp_compose'), *args, **(kw or {})),
               'jp_compose')
    L.expect(st, exp, v, 'composing %r' % (args, ))


def split(ck, args, exp, kw=None):
    L = ck.lab
    st = L.S()
    v = L.sure(L.call(st, L.name('utils', 'jp_split'), *args, **(kw or {})),
               'jp_split')
    L.expect(st, exp, v, 'splitting %r' % (args, ))


def trip(ck, toks, base):
    L = ck.lab
    st = L.S()
    p = L.sure(L.call(st, L.name('utils', 'jp_compose'), toks, base=base),
               'jp_compose')
    v = L.sure(L.call(st, L.name('utils', 'jp_split'), p), 'jp_split')
    L.expect(st, ([base] if base else []) + toks, v, 'round trip of %r' % toks)


def check(ck):
    ck.floor = 60
    t, u, w = rawtext('t'), rawtext('u'), rawtext('w')
    R = 'tokens are encoded once, and joined by /'
    for b, bn in ((None, 'no base'), ('#', '#'), ('#/a~1b', 'pointer'),
                  (cat('http://h/', word('x'), '#/', enc(text('y'))), 'url')):
        pre = (lambda *x: cat(b, '/', *x)) if b else cat
        ck.ob('compose one, %s' % bn, R, lambda: composed(
            ck, (t, ), pre(enc(t)), {'base': b}))
        ck.ob('compose many, %s' % bn, R, lambda: composed(
            ck, ([t, u, w], ), pre(enc(t), '/', enc(u), '/', enc(w)),
            {'base': b}))
        ck.ob('compose nothing, %s' % bn, 'nothing to append', lambda:
              composed(ck, (None, ), b, {'base': b}))
        for n in NASTY:
            ck.ob('compose %r, %s' % (n, bn), R, lambda: composed(
                ck, (n, ), pre(enc(n)), {'base': b}))
    for b in ('#/', '#/a/', '/', 'a/', '#//', '#/a//', '#', 'http://h/x/', ' ',
              'http://h/x.json#', '#/~1/', '#/A'):
        ck.ob('nothing at %r' % b, 'nothing to append', lambda: composed(
            ck, (None, ), b, {'base': b}))
        ck.ob('empty list at %r' % b, 'nothing to append', lambda: composed(
            ck, ([], ), b, {'base': b}))
        for ts in (['a'], ['a', 'b'], [''], ['a', ''], ['', 'a'], ['/', '~'],
                   ['a', 'b', 'c', 'd'], ['', '', ''], ['a', 'a', 'a']):
            e = '/'.join([b] + [t.replace('~', '~0').replace('/', '~1')
                                for t in ts])
            ck.ob('%r at %r' % (ts, b), R, lambda: composed(
                ck, (ts, ), e, {'base': b}))
            if len(ts) == 1:
                ck.ob('one %r at %r' % (ts, b), R, lambda: composed(
                    ck, (ts[0], ), e, {'base': b}))
    R = 'splitting gives back the tokens that were composed'
    for b in (None, '#'):
        ck.ob('round trip one, %s' % b, R, lambda: trip(ck, [text('t')], b))
        ck.ob('round trip many, %s' % b, R, lambda: trip(
            ck, [text('t'), text('u'), text('w')], b))
        for n in NASTY:
            if n or b:
                ck.ob('round trip %r, %s' % (n, b), R,
                      lambda: trip(ck, [n], b))
                ck.ob('round trip %r and more, %s' % (n, b), R,
                      lambda: trip(ck, [n, 'x', n], b))
    ck.ob('split empty', R, lambda: split(ck, ('', ), []))
    ck.ob('split None', R, lambda: split(ck, (None, ), []))
    ck.ob('split some', 'the remainder is the last token', lambda: split(
        ck, ('#/a/b~1c/d', 2), ['#', 'a', 'b/c/d']))
    for p in ('#', '#/', '#/a', '#/a/', '#//', '#//a', '#/a//b', 'a/b/', '/a',
              'a', '#/a/b/c/', '#/~0/~1', '#/~01', '#/~10', '#/ /a ', '/'):
        ts = [t.replace('~1', '/').replace('~0', '~') for t in p.split('/')]
        ck.ob('split %r' % p, R, lambda: split(ck, (p, ), ts))
        for n in (1, 2, 3, 9):
            ts = [t.replace('~1', '/').replace('~0', '~')
                  for t in p.split('/', n)]
            ck.ob('split %r, %d times' % (p, n), 'the remainder is the last '
                  'token', lambda: split(ck, (p, n), ts))

    def jr(ref, url, jp):
        L = ck.lab
        st = L.S()
        v = L.sure(L.call(st, L.name('utils', 'jr_split'), ref), 'jr_split')
        L.expect(st, Tup([L.mk(st, url), L.mk(st, jp)]), v, 'jr_split')
    R = 'a reference splits into its url and its pointer'
    U = 'http://h.com/a/b.json'
    p = enc(text('t'))
    for n, a in {
            'both': (U + '#/a/b', U, '#/a/b'), 'url': (U, U, '#'),
            'url#': (U + '#', U, '#'), 'pointer': ('#/a', '', '#/a'),
            'only #': ('#', '', '#'), 'query': (U + '?x=y#/z', U + '?x=y',
                                                '#/z'),
            'file': ('file:///a/b.json#/q', 'file:///a/b.json', '#/q'),
            'path': ('/a/b.json#/q', 'file:///a/b.json', '#/q'),
            'percent': (U + '#/a%20b/%7Bid%7D', U, '#/a%20b/%7Bid%7D'),
        'percent pointer': ('#/paths/%2Fa%7E1', '', '#/paths/%2Fa%7E1'),
        'percent url': ('http://h/a%20b.json#/x', 'http://h/a%20b.json',
                        '#/x'),
        'plus': (U + '#/a+b', U, '#/a+b'),
        'question': (U + '#/a?b', U, '#/a?b'),
        'second #': (U + '#/a#b', U, '#/a#b'),
        'slash': (U + '#/', U, '#/'), 'slashes': (U + '#//', U, '#//'),
        'last slash': (U + '#/a/', U, '#/a/'),
        'spaces': (U + '#/a b', U, '#/a b'), 'params': (
            'http://h/a.json;v=1#/x', 'http://h/a.json;v=1', '#/x'),
        'host': ('http://h:80#/x', 'http://h:80', '#/x'),
        'encoded': (U + '#/paths/~1a~1{b}', U, '#/paths/~1a~1{b}'),
    }.items():
        ck.ob('reference ' + n, R, lambda: jr(*a))
