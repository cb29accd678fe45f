"""generic documents made from the specification tables"""
from .common import *  # noqa
from .tables import *  # noqa


def req(kind):
    return kind.endswith('!')


def bare(kind):
    return kind.rstrip('!')


# names an author may choose, among them names that mean something elsewhere
NAMES = (('x-a', '', 'get', 'a b'), ('default', '2XX', '0', '200'),
         ('a~b/c', '~1', 'b{c}', '%7B#'),
         ('items', 'parameters', 'dump', '$refs'))
EXPRS = (('http://h.com/cb?u={$request.body#/u}', '{$url}', 'x-a'),
         ('', 'get', '/a/{b}', 'parameters'))


class Gen(object):
    """documents in which every text/number is an unknown"""

    def __init__(self, ver, deep=1):
        self.ver = ver
        self.short, self.tab, self.defaults = VERSIONS[ver]
        self.n = 0
        self.deep = deep
        self.form = 'two'
        self.keyprops = ()  # what is known about keys
        self.keygroup = None  # keys of one group are known to differ

    def forms(self, kind):
        """how many entries members of this kind are analysed with, and which
        of them are references"""
        b = bare(kind)
        more = (self.ver, b) in MAPS
        return ['two'] + ['one', 'three'] * (b[0] in '[{' or more) + \
            ['ref'] * ('?' in b) + \
            ['names%d' % i for i in range(len(NAMES)) if '{' in b] + \
            ['exprs%d' % i for i in range(len(EXPRS))
             if more or (self.ver, b.strip('[]{}?b')) in MAPS]

    def shaped(self, form, cls, m):
        """a document with member m only (and the required ones)"""
        self.form = form
        try:
            return self.obj(cls, 0, [m])
        finally:
            self.form = 'two'

    def fresh(self, hint):
        self.n += 1
        return '%s.%d' % (hint, self.n)

    def val(self, kind, hint, depth=0, ref=False):
        """a generic value of this kind"""
        kind = bare(kind)
        if kind == 'v':
            return opaque(self.fresh(hint))
        if kind == 's':
            return text(self.fresh(hint))
        if kind[0] in '[{':
            # which entries are references, where these are allowed
            rs = {'two': (0, 1), 'one': (0, ), 'three': (1, 0, 0),
                  'ref': (1, ), 'more': (1, )}.get(self.form, (0, ))
            if kind[0] == '{' and self.form[:5] == 'names':
                return {k: self.val(kind[1:-1], hint, depth)
                        for k in NAMES[int(self.form[5:])]}
            es = [self.val(kind[1:-1], hint, depth, bool(r)) for r in rs]
            if kind[0] == '[':
                return es
            g = self.fresh('keys')
            return {member('%sk%d' % (g, i), self.keygroup or g,
                           *self.keyprops): e
                    for i, e in enumerate(es)}
        if kind[0] == 'b':
            return self.val(kind[1:], hint, depth, ref)
        if kind[0] == '?':
            if ref or self.form in ('ref', 'more'):
                more = {} if self.form != 'more' else {
                    'description': text('more'), 'type': 'object',
                    'x-a': 0}
                return dict({'$ref': text(self.fresh('ref'))}, **more)
            return self.val(kind[1:], hint, depth)
        if (self.ver, kind) in MAPS:
            # keys are expressions, never '$ref'
            if self.form[:5] == 'exprs':
                return {k: self.val(MAPS[self.ver, kind], hint, depth)
                        for k in EXPRS[int(self.form[5:])]}
            return {cat('{', k, '}'): v for k, v in self.val(
                '{%s}' % MAPS[self.ver, kind], hint, depth).items()}
        return self.obj(kind, depth - 1)

    def obj(self, cls, depth=0, only=None, skip=()):
        """document of one class: required members and, while depth lasts,
        all the others"""
        out = {}
        for m, k in self.tab[cls].items():
            if m in skip or m == '$ref' and cls not in (
                    'Reference', ) and only != [m]:
                continue
            if req(k) or (m in only if only is not None else
                          depth >= 0 and (depth > 0 or k == 'v')):
                d = max(depth, 0)
                out[m] = self.val(k, '%s.%s' % (cls, m), d)
        return out

    # ------------------------------------------------------------ walking
    def walk(self, ck, st, kind, spec, v, path, visit, parent=None, where=''):
        """visit every object the document describes"""
        L = ck.lab
        kind = bare(kind)
        spec = L.mk(st, spec)
        if kind in ('v', 's'):
            visit(st, kind, spec, v, path, parent, where)
            return
        if kind[0] == 'b':
            if isinstance(spec, Const) and isinstance(spec.v, bool):
                return visit(st, 'v', spec, v, path, parent, where)
            return self.walk(ck, st, kind[1:], spec, v, path, visit, parent,
                             where)
        if kind[0] == '?':
            r = L.rec(st, spec)
            if Const('$ref') in r.d:
                return self.walk(ck, st, 'Reference', spec, v, path, visit,
                                 parent, where)
            return self.walk(ck, st, kind[1:], spec, v, path, visit, parent,
                             where)
        if (self.ver, kind) in MAPS:
            if L.clsname(st, v) != kind:
                raise Broken('%s: expected a %s, found %s' % (
                    where, kind, L.show(st, v)))
            kind = '{%s}' % MAPS[self.ver, kind]
        if kind[0] == '[':
            visit(st, '[]', spec, v, path, parent, where)
            r = L.rec(st, spec)
            for i, (x, _) in enumerate(r.items):
                c = L.item(st, v, i)
                self.walk(ck, st, kind[1:-1], x, c, ptr(path, str(i)),
                          visit, v, '%s[%d]' % (where, i))
            return
        if kind[0] == '{':
            visit(st, '{}', spec, v, path, parent, where)
            r = L.rec(st, spec)
            for key, e in r.d.items():
                c = L.item(st, v, key)
                self.walk(ck, st, kind[1:-1], e[0], c, ptr(path, key), visit,
                          v, '%s{%s}' % (where, L.show(st, key)))
            return
        visit(st, kind, spec, v, path, parent, where)
        r = L.rec(st, spec)
        for m, k in self.tab[kind].items():
            e = r.d.get(Const(m))
            if e is None:
                continue
            c = L.attr(st, v, m)
            self.walk(ck, st, k, e[0], c, ptr(path, m), visit, v,
                      '%s.%s' % (where or kind, m))


def classes(ver):
    return sorted(VERSIONS[ver][1])


def is_value(k):
    return bare(k) == 'v'
