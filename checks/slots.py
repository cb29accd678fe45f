"""places of a document that may hold a reference, found in the tables"""
from .app import *  # noqa

ROOT = {'2.0': 'Swagger', '3.0.0': 'OpenApi'}
TAG = {'2.0': 'swagger', '3.0.0': 'openapi'}
# where shared objects live
HOME = {
    '2.0': {'Schema': ('definitions', ), 'Parameter': ('parameters', ),
            'Response': ('responses', ), 'PathItem': ('paths', )},
    '3.0.0': dict({c: ('components', m) for c, m in (
        ('Schema', 'schemas'), ('Response', 'responses'),
        ('Parameter', 'parameters'), ('Example', 'examples'),
        ('RequestBody', 'requestBodies'), ('Header', 'headers'),
        ('SecurityScheme', 'securitySchemes'), ('Link', 'links'),
        ('Callback', 'callbacks'))}, PathItem=('paths', )),
}


def parse(kind):
    """kind -> (containers outermost first, may be a reference, leaf)"""
    kind = bare(kind)
    cont = ''
    while kind[0] in '[{':
        cont += kind[0]
        kind = kind[1:-1]
    flags = ''
    while kind[0] in 'b?':
        flags += kind[0]
        kind = kind[1:]
    return cont, flags, kind


def table(ver):
    t = dict(VERSIONS[ver][1])
    for (v, c), x in MAPS.items():
        if v == ver:
            t[c] = {None: '{%s}' % x}
    return t


def routes(ver):
    """class -> steps [(class, member, kind)] leading to it from the root"""
    t = table(ver)
    out = {ROOT[ver]: []}
    todo = [ROOT[ver]]
    while todo:
        c = todo.pop(0)
        for m, k in t[c].items():
            leaf = parse(k)[2]
            if leaf in t and leaf not in out:
                out[leaf] = out[c] + [(c, m, k)]
                todo.append(leaf)
    return out


BOOLS = set('deprecated allowEmptyValue explode allowReserved nullable '
            'readOnly writeOnly uniqueItems exclusiveMaximum '
            'exclusiveMinimum attribute wrapped'.split())
NUMS = set('maximum minimum maxLength minLength maxItems minItems multipleOf '
           'maxProperties minProperties'.split())


def plain(cls, m, full):
    """a value of a plain member, or one that is false in python"""
    if m in BOOLS or m == 'required' and cls != 'Schema':
        return bool(full)
    if m in NUMS:
        return 2 * full
    if m in ('enum', 'required', 'tags', 'schemes'):
        return ['x'] * full
    return 'xyz'[:3 * full]


def others(ver, cls, but, full, deep=True):
    """all members of an object but one, these without references"""
    t = table(ver)
    g = Gen(ver)
    out = {}
    for m, k in t[cls].items():
        if m in (but, '$ref') or (cls, m) in (
                ('OpenApi', 'openapi'), ('Swagger', 'swagger')):
            continue
        if bare(k) == 'v':
            out[m] = plain(cls, m, full)
            continue
        if not deep:
            continue
        cont, flags, leaf = parse(k)
        v = 'x' if leaf == 's' else others(ver, leaf, None, full, False) \
            if leaf in g.tab else {}
        if leaf in g.tab:
            v = dict(g.obj(leaf, -1, []), **v)
        for c in reversed(cont):
            v = [v] if c == '[' else {'/o' if m == 'paths' else 'o': v}
        out[m] = v
    return out


class Place(object):
    """a document with something at the end of the steps"""

    def __init__(self, ver, steps, leaf, siblings=True, rich=None):
        g = Gen(ver)
        self.ver = ver
        self.rich = rich  # the value of all other members, 0 or 1
        self.nav = []
        self.siblings = siblings
        self.doc = self.build(g, steps, leaf)
        self.doc[TAG[ver]] = ver

    def build(self, g, steps, leaf):
        cls, m, k = steps[0]
        d = g.obj(cls, -1, []) if cls in g.tab else {}
        cont, flags, sub = parse(k)
        here = []
        if m is not None:
            here.append(m)

        def sib():
            return g.obj(sub, -1, []) if sub in g.tab else {}

        keys = []
        for c in cont:
            if c == '[':
                keys.append(1 if self.siblings else 0)
            else:
                n = g.fresh('key')
                more = ('plain', ) if sub == 'Callback' else ()
                keys.append(member(n, 'keys', 'fresh', *more) if m is not None else
                            cat('{', member(n, 'keys', 'fresh', *more), '}'))
                if sub == 'PathItem' and m == 'paths':
                    keys[-1] = cat('/', keys[-1])
        self.nav += here + keys
        v = leaf if len(steps) == 1 else self.build(g, steps[1:], leaf)
        for c, key in zip(reversed(cont), reversed(keys)):
            if c == '[':
                v = [sib(), v] if self.siblings else [v]
            else:
                v = {key: v}
                if self.siblings:
                    o = '{0}' if m is None else (
                        '/0' if m == 'paths' else '0')
                    v[o] = sib()
        if m is None:
            return v
        if self.rich is not None:
            d.update(others(self.ver, cls, m, self.rich))
        d[m] = v
        return d

    def at(self, ck, st, root, nav=None):
        L = ck.lab
        o = root
        for x in self.nav if nav is None else nav:
            if isinstance(x, str) and L.clsname(st, o) not in (
                    None, '_Map', 'Map', 'Callback') and not is_map(ck, st, o):
                o = L.attr(st, o, x)
            else:
                o = L.item(st, o, x)
        return o


def is_map(ck, st, o):
    L = ck.lab
    r = st.get(o.id) if isinstance(o, Ref) else None
    if not isinstance(r, InstR):
        return True
    return any(L.I.cls_name(c, st) in ('_Map', '_List')
               for c in L.I.mro_of(r.cls, st))


def slots(ver):
    """[(class, member, kind, leaf)] of the places that may be references"""
    out = []
    for c, ms in table(ver).items():
        for m, k in ms.items():
            cont, flags, leaf = parse(k)
            if '?' in flags or leaf == 'PathItem' or (
                    ver == '2.0' and leaf == 'Schema'):
                out.append((c, m, k, leaf))
    return out
