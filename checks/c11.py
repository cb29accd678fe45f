"""references are made absolute against the document they are found in"""
from .common import *  # noqa
from urllib.parse import urljoin

BASES = ['http://h.com/a/b/swagger.json', 'https://h.com:8080/swagger.yaml',
         'file:///a/b/c/swagger.json', 'http://h.com/a/swagger.json',
         'http://h.com/a/api-docs']
FILES = ['other.json', 'x/other.json', '../other.json', './other.json',
         '../../x/../other.yml', '/root.json', '/r/../x/./root.json',
         'x/y/z.json', 'noext', 'a.b.json', '../x.json', 'x/', '../', './',
         '/x/', '/', 'a b.json', 'a%20b.json', 'a%2Fb.json', 'x.json?y=z',
         'A.JSON', '.x/y.json', '..x.json', 'x..json', '~x.json', '{x}.json',
         '../../../../../../z.json', '/../../z.json', 'x/./../y/z', '..',
         '/x/..', '//o.com/x.json', '//o.com/x/../y.json']
POINTERS = ['', '#', '#/', '#/a', '#/a~1b/c~0d', '#/paths/~1x~1{id}/get',
            '#/a#b']
ABS = ['http://o.com/x.json', 'https://o.com:1/x/y.yml', 'file:///x/y.json']


def joined(b, f, p):
    u = urljoin(b, f)
    # a folder may be written without the last '/'
    return OneOf(u + p, u[:-1] + p) if f.endswith('..') else u + p


def norm(ck, ref, base, exp):
    L = ck.lab
    st = L.S()
    v = L.sure(L.call(st, L.name('utils', 'normalize_jr'), ref, base),
               'normalize_jr')
    L.expect(st, exp, v, 'normalizing %r found in %r' % (ref, base))


def fold(p):
    return '' if p in ('', '#') else p


def util(ck, f, args, exp):
    L = ck.lab
    st = L.S()
    v = L.sure(L.call(st, L.name('utils', f), *args), f)
    L.expect(st, exp, v, '%s%r' % (f, args))


def check(ck):
    ck.floor = 250
    for b in BASES:
        for p in POINTERS:
            ck.ob('local %s in %s' % (p, b), 'a pointer alone stays in its '
                  'document', lambda: norm(ck, p, b, b + fold(p)) if p else
                  None)
            ck.ob('empty folders %s in %s' % (p, b), 'empty names of folders '
                  'are kept', lambda: norm(
                      ck, 'x//y.json' + p, b,
                      urljoin(b, 'x/z/y.json').replace('/z/', '//') +
                      fold(p)))
            for f in FILES:
                ck.ob('relative %s%s in %s' % (f, p, b), 'a relative name is '
                      'looked up next to the document, the pointer is kept',
                      lambda: norm(ck, f + p, b, joined(b, f, fold(p))))
            for f in ABS:
                ck.ob('absolute %s%s in %s' % (f, p, b), 'an absolute url is '
                      'kept', lambda: norm(ck, f + p, b, f + fold(p)))
    d, f, g = word('d'), word('f'), word('g')
    tail = cat('#/', enc(text('k')), '/', enc(text('m')))
    base = cat('http://h.com/', d, '/', f, '.json')
    R = 'whatever the names are, the pointer is kept as it is written'
    ck.ob('generic local', R, lambda: norm(ck, tail, base, cat(base, tail)))
    ck.ob('generic relative', R, lambda: norm(
        ck, cat(g, '.json', tail), base, cat('http://h.com/', d, '/', g,
                                             '.json', tail)))
    ck.ob('generic absolute', R, lambda: norm(
        ck, cat('http://o.com/', g, '.json', tail), base,
        cat('http://o.com/', g, '.json', tail)))
    ck.ob('nothing', 'no reference, no result', lambda: norm(
        ck, None, BASES[0], None))
    ck.ob('without document', 'a pointer without document stays a pointer',
          lambda: norm(ck, '#/a', None, '#/a'))
    R = 'the folder of a document and names in it'
    for u, e in {'http://h.com/a/b.json': 'http://h.com/a',
                 'http://h.com/a/b.yaml': 'http://h.com/a',
                 'http://h.com/a/b.yml': 'http://h.com/a',
                 'http://h.com/a/docs': 'http://h.com/a/docs',
                 'file:///a/b.json': 'file:///a',
                 'http://h.com/b.json?x=y': 'http://h.com/?x=y'}.items():
        ck.ob('folder of ' + u, R, lambda: util(ck, 'url_dirname', (u, ), e))
    hosts = ('http://h.com', 'https://h.com:8080', 'file://')
    for h in hosts:
        for d in ('', '/a', '/a/b', '/a.json', '/x.json.d/y', '/json', '/a b',
                  '/.json.d', '/A.B/c'):
            for f in ('b.json', 'b.yaml', 'b.yml', 'b.c.json', 'B.json',
                      'json.json', 'b.json.yml', '.b.json'):
                u = h + d + '/' + f
                ck.ob('folder of ' + u, R, lambda: util(
                    ck, 'url_dirname', (u, ), h + (d or '/')))
                for q in ('?a=b', '?x=/y', '#/z'):
                    ck.ob('folder of ' + u + q, R, lambda: util(
                        ck, 'url_dirname', (u + q, ), h + (d or '/') + q))
            for f in ('docs', 'b.json.d', 'b.jsonp', 'b.json/', 'b.json/c',
                      'b.yamlx', 'b.yml.bak', 'json/b', 'b.json.txt', 'b.xml',
                      'b.yml2', '', 'bjson', 'byml',
                      'yaml'):
                u = h + d + '/' + f
                ck.ob('folder of ' + u, R, lambda: util(
                    ck, 'url_dirname', (u, ), u))
            for u in (h + d, h + d + '/'):
                if u.startswith('file://') and d == '':
                    continue
                for n in ('b', 'b.json', '/b', 'b/c', '/b/', 'B', 'a b',
                          '..', '{x}', 'b.c', '/b.json'):
                    e = u.rstrip('/') + '/' + n.lstrip('/')
                    for q in ('?a=b', '?x=/y.json', '#/z'):
                        ck.ob('%s in %s%s' % (n, u, q), R, lambda: util(
                            ck, 'url_join', (u + q, n), e + q))
                    ck.ob('%s in %s' % (n, u), R, lambda: util(
                        ck, 'url_join', (u, n), e))
    for u, e in (('http://h/a/b.json', 'http://h/a/b.json'),
                 ('https://h/A/../B', 'https://h/A/../B'),
                 ('file:///A/b c', 'file:///A/b c'),
                 ('http://h/a#/b', 'http://h/a#/b'),
                 ('http://h/?a=b', 'http://h/?a=b'),
                 ('ftp://h/a/', 'ftp://h/a/'), ('HTTP://h/a', 'HTTP://h/a'),
                 ('/A/B.json', 'file:///A/B.json'), ('/a/', 'file:///a'),
                 ('/a b/c', 'file:///a%20b/c'), ('/', 'file:///'),
                 ('/a/./b', 'file:///a/b'), ('/a?b/c', 'file:///a%3Fb/c'),
                 ('http://h/a?b=/c/../d', 'http://h/a?b=/c/../d'),
                 ('file:///a?b', 'file:///a?b'), ('/a%b', 'file:///a%25b')):
        ck.ob('url of %r' % u, 'paths become file urls, urls are kept',
              lambda: util(ck, 'normalize_url', (u, ), e))
    for u, n, e in (('http://h.com/a', 'b', 'http://h.com/a/b'),
                    ('http://h.com/a/', 'b', 'http://h.com/a/b'),
                    ('http://h.com/a', '/b', 'http://h.com/a/b'),
                    ('http://h.com/a/', '/b', 'http://h.com/a/b'),
                    ('http://h.com', 'b', 'http://h.com/b'),
                    ('file:///a', 'b/c', 'file:///a/b/c'),
                    ('http://h.com/a?q=1', 'b', 'http://h.com/a/b?q=1')):
        ck.ob('%s in %s' % (n, u), R, lambda: util(ck, 'url_join', (u, n), e))
    for u, e in (('/a/b.json', 'file:///a/b.json'),
                 ('http://h/a', 'http://h/a'), ('file:///a', 'file:///a'),
                 ('', ''), ('/a/../b.json', 'file:///b.json')):
        ck.ob('url of %r' % u, 'paths become file urls, urls are kept',
              lambda: util(ck, 'normalize_url', (u, ), e))
