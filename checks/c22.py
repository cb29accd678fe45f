"""each document is fetched once, from the place its url leads to"""
from .c15 import *  # noqa
from .c21 import doc, D12
from .c18 import NEAR

MORE = '''
class Fetch(Source):
    pass

def hook(url):
    return 'http://mirror.com/' + url.split('/')[-1]

def make(docs, hooked=False):
    class Src(Source):
        pass
    Src.docs = docs
    Src.log = []
    return (Resolver(hook if hooked else None, Src), Src)

def all_of(resolver, refs):
    return [resolver.resolve(r) for r in refs]

def with_getter(resolver, ref, getter):
    return resolver.resolve(ref, getter)

def twice_with(resolver, a, b, first, second):
    return [resolver.resolve(a, first), resolver.resolve(b, second)]

def load_with(url, docs, own):
    app = App(url, own)
    g = make(docs)[1]
    obj = app.load_obj(url, getter=g)
    return (obj, app.src.log, g.log)

class Counting(Getter):
    def __init__(self, path, docs):
        super(Counting, self).__init__(path)
        self.urls = [path]
        self.docs = docs
        self.loaded = []
    def load(self, path):
        self.loaded.append(path)
        return self.docs[path]
'''


def lab22(ck):
    L = app_lab(ck)
    if not getattr(ck, '_fetch', None):
        L.load('scenario_fetch', APP + MORE)
        ck._fetch = True
    return L


def ffn(ck, name):
    L = lab22(ck)
    m = L.I.import_module('scenario_fetch')
    return L.base.get(L.base.get(m.id).env).vars[name]


def content():
    K = member('K', 'names', 'fresh')
    return K, {'a/b': {K: {'x': [text('t0'), {'y~z': integer('n')}]}},
               'l': [[0], [1, 2]], 'n': {'': 1, '0': 2, 'null': None}}


def pointers():
    K, d = content()
    return {
        'root': ('#', d), 'nothing': ('', d),
        'name': ('#/a~1b', d['a/b']), 'unknown name': (
            cat('#/a~1b/', enc(K)), d['a/b'][K]),
        'index': (cat('#/a~1b/', enc(K), '/x/0'), text('t0')),
        'encoded': (cat('#/a~1b/', enc(K), '/x/1/y~0z'), integer('n')),
        'lists': ('#/l/1/0', 1), 'list': ('#/l/0', [0]),
        'number as a name': ('#/n/0', 2), 'null': ('#/n/null', None),
        'section': ('#/n', d['n']),
    }


def fetched(ck, how, ref, exp):
    L = lab22(ck)
    st = L.S()
    K, d = content()
    hooked = how == 'hook'
    at = 'http://mirror.com/other.json' if hooked else O
    r, src = L.sure(L.call(st, ffn(ck, 'make'), {at: d, U: {'b': 1}}, hooked),
                    'a resolver').items
    if how == 'again':
        L.sure(L.call(st, ffn(ck, 'all_of'), r, [O, O + '#/l']), 'fetching')
    v = L.sure(L.call(st, ffn(ck, 'all_of'), r, [cat(O, ref)]), 'fetching')
    L.expect(st, [exp], v, 'what is at %r' % (ref, ))
    L.expect(st, [at], L.attr(st, src, 'log'), 'what was fetched')


def missing(ck, ref, d=None):
    L = lab22(ck)
    st = L.S()
    if d is None:
        K, d = content()
    r, src = L.sure(L.call(st, ffn(ck, 'make'), {O: d}), 'a resolver').items
    out = L.call(st, ffn(ck, 'all_of'), r, [cat(O, ref)])
    if out.val is not None:
        raise Broken('%r leads to %s' % (ref, L.show(st, out.val)))


def many(ck, order, hooked):
    L = lab22(ck)
    st = L.S()
    us = ['http://h.com/d%d.json' % i for i in range(3)]
    at = ['http://mirror.com/d%d.json' % i for i in range(3)] if hooked \
        else us
    docs = {u: {'i': i, 'x': [i]} for i, u in enumerate(at)}
    r, src = L.sure(L.call(st, ffn(ck, 'make'), docs, hooked),
                    'a resolver').items
    refs = [us[i] + t for i in order for t in ('#/i', '#/x/0')]
    v = L.sure(L.call(st, ffn(ck, 'all_of'), r, refs), 'fetching')
    L.expect(st, [i for i in order for t in (0, 1)], v, 'what is found')
    seen = []
    for i in order:
        if at[i] not in seen:
            seen.append(at[i])
    L.expect(st, seen, L.attr(st, src, 'log'), 'what was fetched')


def alike(ck, hooked, n):
    """urls that are alike are still other documents"""
    L = lab22(ck)
    st = L.S()
    us = [u for u in NEAR[n:] + NEAR[:n] if u.startswith('http')]
    docs = {u: {'i': i, 'x': [i]} for i, u in enumerate(us)}
    if hooked:
        us = us[:1]
        docs = {'http://mirror.com/' + us[0].split('/')[-1]: {'i': 0, 'x': [0]}}
    r, src = L.sure(L.call(st, ffn(ck, 'make'), docs, hooked),
                    'a resolver').items
    v = L.sure(L.call(st, ffn(ck, 'all_of'), r, [
        u + t for u in us + us[::-1] for t in ('#/i', '#/x/0')]), 'fetching')
    ns = list(range(len(us)))
    L.expect(st, [i for i in ns + ns[::-1] for t in (0, 1)], v,
             'what is found')
    L.expect(st, list(docs), L.attr(st, src, 'log'), 'what was fetched')


def own_getter(ck, kind, hooked=False):
    """a getter given along with the reference"""
    L = lab22(ck)
    st = L.S()
    at = 'http://mirror.com/other.json' if hooked else O
    r, src = L.sure(L.call(st, ffn(ck, 'make'), {at: {'i': 1}}, hooked),
                    'a resolver').items
    if kind == 'object':
        g = L.sure(L.call(st, ffn(ck, 'Counting'), 'there', {
            'there': {'i': 2}}), 'a getter')
        log = lambda: L.attr(st, g, 'loaded')
        want = ['there']
    else:
        g, s2 = None, None
        x = L.sure(L.call(st, ffn(ck, 'make'), {at: {'i': 2}}), 'other')
        g = x.items[1]
        log = lambda: L.attr(st, g, 'log')
        want = [at]
    v = L.sure(L.call(st, ffn(ck, 'with_getter'), r, O + '#/i', g), 'resolve')
    L.expect(st, 2, v, 'what the getter gives')
    L.expect(st, want, log(), 'what was fetched with it')
    L.expect(st, [], L.attr(st, src, 'log'), 'fetched otherwise')
    v = L.sure(L.call(st, ffn(ck, 'all_of'), r, [O + '#/i']), 'resolve')
    L.expect(st, [2], v, 'found afterwards')


def getter_again(ck, first, second):
    """what is known is not fetched again, whatever getter is given"""
    L = lab22(ck)
    st = L.S()
    r, src = L.sure(L.call(st, ffn(ck, 'make'), {O: {'i': 1, 'j': 2}}),
                    'a resolver').items
    x, other = L.sure(L.call(st, ffn(ck, 'make'), {O: {'i': 1, 'j': 2}}),
                      'another').items
    g = {'class': other, 'none': None}
    v = L.sure(L.call(st, ffn(ck, 'twice_with'), r, O + '#/i', O + '#/j',
                      g[first], g[second]), 'resolve')
    L.expect(st, [1, 2], v, 'what is found')
    for a, w in ((src, 'none'), (other, 'class')):
        L.expect(st, [O] if first == w else [], L.attr(st, a, 'log'),
                 'fetched with the %s getter' % (
                     'given' if w == 'class' else 'usual'))


def loaded_with(ck, ver, own):
    """a getter given for loading is used for all that is loaded"""
    L = lab22(ck)
    st = L.S()
    url, docs = doc(ver, ('a', 'b'))
    x = {}
    if own:
        x = {u: dict(d, apiVersion='own') for u, d in docs.items()}
    obj, usual, given = L.sure(L.call(
        st, ffn(ck, 'load_with'), url, docs, x), 'loading').items
    L.expect(st, Bag(sorted(docs)), given, 'fetched with the getter given')
    L.expect(st, [], usual, 'fetched with the usual getter')


def whole(ck, ver, to, n):
    """loading documents that refer to each other n times"""
    L = app_lab(ck)
    if ver == '1.2':
        url, docs = doc('1.2', ('a', 'b'))
    else:
        url = U
        d = root(ver)
        docs = {U: d, O: root(ver), PART: {}}
        h = '#/' + '/'.join(HOME[ver]['Schema']) + '/'
        for i in range(n):
            at_home(ver, d, 'Schema', 'a%d' % i, {
                '$ref': cat('other.json', h, 'b%d' % i)})
            at_home(ver, docs[O], 'Schema', 'b%d' % i, {
                '$ref': ('swagger.json' if i == 1 else '') + h + 'c%d' % i}
                if i < 2 else {'title': text('t')})
            at_home(ver, docs[O], 'Schema', 'c%d' % i, {
                'properties': {'p': {'$ref': 'sub/part.yml#/q/%d' % i}}})
            at_home(ver, d, 'Schema', 'c%d' % i, {'$ref': O + h + 'b2'})
        docs[PART] = {'q': [{'title': text('q%d' % i)} for i in range(n)]}
    st, app, out = start(ck, docs, url, to)
    L.sure(out, 'loading')
    log = L.attr(st, L.attr(st, app, 'src'), 'log')
    L.expect(st, Bag(sorted(docs)), log, 'documents fetched')


def check(ck):
    ck.floor = 50
    for how in ('once', 'again', 'hook'):
        for n, (ref, exp) in pointers().items():
            ck.ob('%s %s' % (how, n), 'the part of the document the pointer '
                  'names, token by token', lambda: fetched(ck, how, ref, exp))
    for n, ref in {'name': '#/no', 'longer': '#/a~1bc', 'not decoded': '#/a/b',
                   'index': '#/l/2', 'below a number': '#/n/0/0',
                   'below a text': cat('#/a~1b/', enc(member(
                       'K', 'names', 'fresh')), '/x/0/q'),
                   'word in a list': '#/l/one', 'other case': '#/A~1B',
                   'upper index': '#/n/NULL', 'space': '#/a~1b ',
                   'longer index': '#/l/01x', 'slash': '#/n/0/',
                   'half': '#/l/0.5', 'another': cat(
                       '#/a~1b/', enc(member('M', 'names', 'fresh')))
                   }.items():
        ck.ob('missing %s' % n, 'what is not there is not found',
              lambda: missing(ck, ref))
    for ref in ('#/l/', '#/l//0', '#/l/0/', '#/l/ ', '#/l/x', '#/l/2', '#/l/9',
                '#/l/0/1', '#/l/1/2', '#/n/0/', '#/n//', '#//', '#//n',
                '#/N', '#/n/1', '#/n/nul', '#/n/nulls', '#/l/a', '#/l/0.0',
                '#/l/$ref', '#/l/l', '#/n/n'):
        ck.ob('not there %s' % ref, 'what is not there is not found',
              lambda: missing(ck, ref))
    ck.ob('empty name', 'the part of the document the pointer names, token '
          'by token', lambda: fetched(ck, 'once', '#/n/', 1))
    for ref in ('', '#', '#/a'):
        ck.ob('empty %s' % ref, 'an empty document has nothing to find',
              lambda: missing(ck, ref, {}))
    for order in ((0, 1, 2), (0, 1, 0, 2, 1), (2, 2, 2)):
        for h in (False, True):
            ck.ob('documents %s%s' % (order, ' hook' if h else ''),
                  'each document is fetched once, where the hook says',
                  lambda: many(ck, order, h))
    for n in range(len(NEAR) - 1):
        ck.ob('alike, from %d' % n, 'other urls are other documents',
              lambda: alike(ck, False, n))
        ck.ob('alike, hook, %d' % n, 'other urls are other documents',
              lambda: alike(ck, True, n))
    for k in ('object', 'class'):
        ck.ob('getter %s' % k, 'the getter given is used, the document is '
              'kept', lambda: own_getter(ck, k))
        ck.ob('getter %s and hook' % k, 'the getter given is used, the '
              'document is kept', lambda: own_getter(ck, k, True))
    for a in ('class', 'none'):
        for b in ('class', 'none'):
            ck.ob('getter %s, then %s' % (a, b), 'each document is fetched '
                  'once', lambda: getter_again(ck, a, b))
    for v in ('1.2', '2.0', '3.0.0'):
        for own in (False, True):
            ck.ob('loading %s with a getter%s' % (v, ', another is there'
                  if own else ''), 'the getter given is used for everything',
                  lambda: loaded_with(ck, v, own))
    for v, to in (('1.2', '1.2'), ('1.2', '2.0'), ('1.2', '3.0.0'),
                  ('2.0', '2.0'), ('2.0', '3.0.0'), ('3.0.0', '3.0.0')):
        for n in (3, ) if v != '1.2' else (0, ):
            ck.ob('loading %s as %s' % (v, to), 'each document is fetched '
                  'once, however often it is referred to',
                  lambda: whole(ck, v, to, n))
