"""two objects compare equal exactly when their documents agree"""
from .objs import *  # noqa
import copy


class Lit(Gen):
    """documents with literal values"""

    def val(self, kind, hint, depth=0, ref=False):
        k = bare(kind)
        if k in ('v', 's'):
            return 'text ' + self.fresh(hint)
        if k[0] == '?' and ref:
            return {'$ref': '#/x'}
        if k[0] == '[':
            return [self.val(k[1:-1], hint, depth) for i in range(2)]
        if k[0] == '{':
            return {'k%d' % i: self.val(k[1:-1], hint, depth)
                    for i in range(2)}
        if (self.ver, k) in MAPS:
            return {'{k%d}' % i: self.val(MAPS[self.ver, k], hint, depth)
                    for i in range(2)}
        if k[0] in 'b?':
            return self.val(k[1:], hint, depth, ref)
        return self.obj(k, depth - 1)


def verdict(ck, g, cls, a, b, want, what):
    L = ck.lab
    st = L.S()
    x = L.new(st, g.short, cls, a, '#/x')
    y = L.new(st, g.short, cls, b, '#/y')
    r = L.sure(L.meth(st, x, 'compare', y), 'compare')
    got = L.item(st, r, 0)
    L.expect(st, want, got, what)
    if want:
        L.expect(st, '', L.item(st, r, 1), what)


def leaves(x, path=()):
    """(path, kind) of everything that can differ"""
    if isinstance(x, dict):
        for k, v in x.items():
            for p in leaves(v, path + (k, )):
                yield p
        yield path, 'key'
    elif isinstance(x, list):
        for k, v in enumerate(x):
            for p in leaves(v, path + (k, )):
                yield p
        yield path, 'length'
    else:
        yield path, 'value'


def alter(spec, path, how):
    s = copy.deepcopy(spec)
    t, p = None, s
    for k in path:
        t, p = p, p[k]
    if how == 'value':
        t[path[-1]] = p + ' changed'
    elif how == 'key':
        k = [z for z in p][-1]
        del p[k]
    else:
        p.pop()
    return s


# texts that resemble each other
NEAR = (('a.json#/x/y', 'b.json#/x/y'), ('#/x/y', '#/z/y'), ('#/x', '#/x/y'),
        ('http://a/b#/c', 'https://a/b#/c'), ('#/x/y', 'y'), ('/x', 'x'),
        ('abc', 'Abc'), ('abc', 'ab'), ('abc', 'bc'), ('abc', 'abc '),
        ('a/', 'a'), ('a/b', 'a~1b'), ('a b', 'a%20b'), ('a', ''), ('0', '1'),
        ('{a}', 'a'), ('a.b', 'a.c'), ('a-b', 'a_b'), ('200', '2XX'))


def alike(ck, g, cls, s, m):
    for i, (a, b) in enumerate(NEAR):
        if m == '$ref' or i % 3 == 0:
            verdict(ck, g, cls, dict(s, **{m: a}), dict(s, **{m: b}), False,
                    '%s %r/%r' % (m, a, b))
        if m == '$ref':
            verdict(ck, g, cls, dict(s, **{m: b}), dict(s, **{m: a}), False,
                    '%s %r/%r' % (m, b, a))


def alike_keys(ck, g, cls, s, m):
    e = list(s[m].values())[0]
    for a, b in NEAR:
        verdict(ck, g, cls, dict(s, **{m: {a: e}}), dict(
            s, **{m: {b: e}}), False, '%s %r/%r' % (m, a, b))


def check(ck):
    ck.floor = 900
    RS = 'objects loaded from equal documents are equal'
    RD = 'a difference anywhere makes objects different'
    for ver in VERSIONS:
        group = []
        for cls in classes(ver):
            g = Lit(ver)
            kids = g.tab[cls]
            for m, k in kids.items():
                if m == '$ref' and ver == '3.0.0' and cls == 'Schema':
                    continue
                s = g.obj(cls, 0, [m])
                ck.ob('same %s %s.%s' % (ver, cls, m), RS, lambda: verdict(
                    ck, g, cls, s, copy.deepcopy(s), True, m))
                for p, how in leaves(s[m], (m, )):
                    if how == 'key' and len(p) == 1 and bare(k)[0] != '{':
                        continue
                    if how == 'key' and len(p) > 1 and not isinstance(
                            s, dict):
                        continue
                    try:
                        t = alter(s, p, how)
                    except IndexError:
                        continue
                    if how == 'key' and not removable(g, cls, p, s):
                        continue
                    args = (ck, g, cls, s, t, False, '/'.join(map(str, p)))
                    if how == 'value' and later(g, cls, p):
                        group.append(args)
                        continue
                    ck.ob('differ %s %s.%s %s' % (
                        ver, cls, '.'.join(map(str, p)), how), RD,
                        lambda: verdict(*args))
                if not req(k):
                    t = {z: v for z, v in s.items() if z != m}
                    for a, b, n in ((s, t, 'removed'), (t, s, 'added')):
                        ck.ob('differ %s %s.%s %s' % (ver, cls, m, n), RD,
                              lambda: verdict(ck, g, cls, a, b, False, m))
                if is_value(k):
                    ck.ob('%s %s.%s texts' % (ver, cls, m), RD,
                          lambda: alike(ck, g, cls, s, m))
                elif bare(k)[0] == '{' or (ver, bare(k)) in MAPS:
                    ck.ob('%s %s.%s names' % (ver, cls, m), RD,
                          lambda: alike_keys(ck, g, cls, s, m))
                if is_value(k) and m in ('enum', 'example', 'description'):
                    for a, b in ((0, 1), (True, False), ([1, 2], [1, 3]),
                                 ({'a': 1}, {'a': 2}), ({'a': 1}, {'b': 1}),
                                 ({'a': 1}, {'a': 1, 'b': 2}),
                                 ([{'a': 1}], [{'a': 2}])):
                        ck.ob('differ %s %s.%s %r/%r' % (ver, cls, m, a, b),
                              RD, lambda: verdict(
                                  ck, g, cls, dict(s, **{m: a}), dict(
                                      s, **{m: b}), False, m))
                        ck.ob('same %s %s.%s %r' % (ver, cls, m, a),
                              RS, lambda: verdict(
                                  ck, g, cls, dict(s, **{m: a}), dict(
                                      s, **{m: copy.deepcopy(a)}), True, m))

        def all_():
            bad = []
            for args in group:
                try:
                    verdict(*args)
                except Broken as e:
                    bad.append('%s.%s' % (args[2], args[-1]))
            if bad:
                raise Broken('differences not noticed: %s' % ', '.join(bad))
        if group:
            ck.ob('differ %s later strings' % ver, RD, all_)
        m, cls = 'enum', 'Schema' if ver != '1.2' else 'Parameter'
        s = g.obj(cls, -1, [])
        for a, b in (([1, 2], [1]), ([1], [1, 2])):
            ck.ob('differ %s list lengths %r/%r' % (ver, a, b), RD,
                  lambda: verdict(ck, g, cls, dict(s, **{m: a}), dict(
                      s, **{m: b}), False, m))


def strip(kind):
    kind = bare(kind)
    while kind[0] in '?b':
        kind = kind[1:]
    return kind


def kind_at(g, cls, path):
    """kinds on the way to a place"""
    kind = strip(g.tab[cls][path[0]])
    out = [kind]
    for k in path[1:]:
        if (g.ver, kind) in MAPS:
            kind = '{%s}' % MAPS[g.ver, kind]
        kind = strip(kind[1:-1] if kind[0] in '[{' else g.tab[kind][k])
        out.append(kind)
    return out


def later(g, cls, path):
    """a string of a list or mapping, behind the first one"""
    return kind_at(g, cls, path)[-1] == 's' and path[-1] not in (0, 'k0')


def removable(g, cls, path, s):
    """removing the last key of the object there leaves a valid document"""
    x = s
    for k in path:
        x = x[k]
    if not x or isinstance(x, list):
        return False
    kind = kind_at(g, cls, path)[-1]
    if kind[0] in '[{' or (g.ver, kind) in MAPS:
        return True
    return not req(g.tab[kind if '$ref' not in x else 'Reference'][list(x)[-1]])
