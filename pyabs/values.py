"""Abstract values and abstract heap of the analyser.

Everything here is immutable except the heap records, which are copied on
write (see State.mut).  No code of the analysed project is ever imported.
"""

SPECIAL = '~/01#%?:.'


class V(object):
    __slots__ = ()


class Const(V):
    __slots__ = ('v', )

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(o.v) is type(self.v) and o.v == self.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class Tup(V):
    __slots__ = ('items', 'names')

    def __init__(self, items, names=None):
        self.items = tuple(items)
        self.names = names

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('tup', self.items))

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.items)) + ')'


class Ref(V):
    """reference to a heap record"""
    __slots__ = ('id', )

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return '&%d' % self.id


class Sym(V):
    """opaque value.  kind: str|int|num|bool|any ; props: frozenset of static facts
    ('truthy', 'plain', ('group', x)) """
    __slots__ = ('term', 'kind', 'props')

    def __init__(self, term, kind='any', props=frozenset()):
        self.term = term
        self.kind = kind
        self.props = props

    def __eq__(self, o):
        return isinstance(o, Sym) and o.term == self.term

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('sym', self.term))

    def __repr__(self):
        return show_term(self.term)


def show_term(t):
    if isinstance(t, tuple) and t:
        if t[0] == 'atom':
            return '<%s>' % (t[1], )
        if t[0] == 'c':
            return repr(t[1])
        if t[0] == 'hom':
            return 'hom[%s](%s)' % (','.join(
                '%s>%s' % p for p in t[2]), show_term(t[1]))
        return '%s(%s)' % (t[0], ', '.join(show_term(x) for x in t[1:]))
    return str(t)


class Cat(V):
    """string concatenation: parts are python str or Sym(kind=str)"""
    __slots__ = ('parts', )

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, Cat) and o.parts == self.parts

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('cat', self.parts))

    def __repr__(self):
        return ' + '.join(repr(p) for p in self.parts)


class Alt(V):
    __slots__ = ('opts', )

    def __init__(self, opts):
        self.opts = frozenset(opts)

    def __eq__(self, o):
        return isinstance(o, Alt) and o.opts == self.opts

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('alt', self.opts))

    def __repr__(self):
        return 'one of{' + ', '.join(sorted(map(repr, self.opts))) + '}'


class TopV(V):
    __slots__ = ('why', )

    def __init__(self, why=''):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, TopV)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash('top')

    def __repr__(self):
        return '?(%s)' % self.why


class Unbound(V):
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, Unbound)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash('unbound')

    def __repr__(self):
        return 'unbound'


UNBOUND = Unbound()


class Native(V):
    """a modelled builtin function; self_ is a bound receiver or None"""
    __slots__ = ('name', 'fn', 'self_')

    def __init__(self, name, fn, self_=None):
        self.name = name
        self.fn = fn
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, Native) and o.name == self.name and o.self_ == self.self_

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('native', self.name))

    def __repr__(self):
        return '<builtin %s>' % self.name


class NType(V):
    """builtin type"""
    __slots__ = ('name', 'host')

    def __init__(self, host, name=None):
        self.host = host
        self.name = name or host.__name__

    def __eq__(self, o):
        return isinstance(o, NType) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('ntype', self.name))

    def __repr__(self):
        return '<type %s>' % self.name


class NMod(V):
    """external module"""
    __slots__ = ('name', )

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, NMod) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('nmod', self.name))

    def __repr__(self):
        return '<module %s>' % self.name


class NObj(V):
    """opaque builtin object with immutable payload"""
    __slots__ = ('kind', 'data')

    def __init__(self, kind, data=None):
        self.kind = kind
        self.data = data

    def __eq__(self, o):
        return isinstance(o, NObj) and o.kind == self.kind and o.data == self.data

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('nobj', self.kind, self.data))

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.data)


class Bound(V):
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func == self.func and o.self_ == self.self_

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('bound', self.func, self.self_))

    def __repr__(self):
        return '<bound %r %r>' % (self.func, self.self_)


class PropV(V):
    __slots__ = ('fget', 'fset', 'fdel')

    def __init__(self, fget=NONE, fset=NONE, fdel=NONE):
        self.fget = fget
        self.fset = fset
        self.fdel = fdel

    def __eq__(self, o):
        return isinstance(o, PropV) and (o.fget, o.fset) == (self.fget, self.fset)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('prop', self.fget, self.fset))

    def __repr__(self):
        return '<property>'


class Wrap(V):
    """classmethod / staticmethod object"""
    __slots__ = ('kind', 'func')

    def __init__(self, kind, func):
        self.kind = kind
        self.func = func

    def __eq__(self, o):
        return isinstance(o, Wrap) and (o.kind, o.func) == (self.kind, self.func)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('wrap', self.kind, self.func))


class SuperV(V):
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, SuperV) and (o.cls, o.self_) == (self.cls, self.self_)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('super', self.cls, self.self_))


class WithMeta(V):
    __slots__ = ('meta', 'bases')

    def __init__(self, meta, bases):
        self.meta = meta
        self.bases = tuple(bases)

    def __eq__(self, o):
        return isinstance(o, WithMeta) and (o.meta, o.bases) == (self.meta, self.bases)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('wm', self.meta, self.bases))


# ---------------------------------------------------------------- heap records
class Rec(object):
    __slots__ = ()


class ListR(Rec):
    """items: list of (V, must); opaque: unknown further content"""
    __slots__ = ('items', 'opaque', 'kind')

    def __init__(self, items=(), opaque=None, kind='list'):
        self.items = list(items)
        self.opaque = opaque  # None or joined element value
        self.kind = kind  # list | set | deque | iter

    def clone(self):
        return ListR(self.items, self.opaque, self.kind)

    def same(self, o):
        return (isinstance(o, ListR) and self.items == o.items
                and self.opaque == o.opaque and self.kind == o.kind)


class DictR(Rec):
    """entries: ordered {key V: (value V, must, loc)}"""
    __slots__ = ('d', 'opaque', 'default')

    def __init__(self, d=None, opaque=None, default=None):
        self.d = dict(d or {})
        self.opaque = opaque
        self.default = default

    def clone(self):
        return DictR(self.d, self.opaque, self.default)

    def same(self, o):
        if not isinstance(o, DictR) or self.opaque != o.opaque or len(
                self.d) != len(o.d):
            return False
        for k, e in self.d.items():
            e2 = o.d.get(k)
            if e2 is None or e2[0] != e[0] or e2[1] != e[1]:
                return False
        return True


class InstR(Rec):
    __slots__ = ('cls', 'attrs', 'payload', 'loc')

    def __init__(self, cls, attrs=None, payload=None, loc=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.payload = payload
        self.loc = loc

    def clone(self):
        return InstR(self.cls, self.attrs, self.payload, self.loc)

    def same(self, o):
        return (isinstance(o, InstR) and o.cls == self.cls
                and o.attrs == self.attrs and o.payload == self.payload)


class ClassR(Rec):
    __slots__ = ('name', 'bases', 'mro', 'attrs', 'meta', 'mod', 'line')

    def __init__(self, name, bases, mro, attrs, meta, mod, line=0):
        self.name = name
        self.bases = tuple(bases)
        self.mro = tuple(mro)
        self.attrs = dict(attrs)
        self.meta = meta
        self.mod = mod
        self.line = line

    def clone(self):
        return ClassR(self.name, self.bases, self.mro, self.attrs, self.meta,
                      self.mod, self.line)

    def same(self, o):
        return (isinstance(o, ClassR) and o.name == self.name
                and o.attrs == self.attrs and o.mro == self.mro)


class FuncR(Rec):
    __slots__ = ('node', 'defaults', 'kwdefaults', 'env', 'mod', 'qual', 'cls',
                 'attrs')

    def __init__(self, node, defaults, kwdefaults, env, mod, qual, cls,
                 attrs=None):
        self.node = node
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.env = env
        self.mod = mod
        self.qual = qual
        self.cls = cls
        self.attrs = dict(attrs or {})

    def clone(self):
        return FuncR(self.node, self.defaults, self.kwdefaults, self.env,
                     self.mod, self.qual, self.cls, self.attrs)

    def same(self, o):
        return (isinstance(o, FuncR) and o.node is self.node
                and o.env == self.env and o.attrs == self.attrs)


class EnvR(Rec):
    __slots__ = ('vars', 'parent', 'kind')

    def __init__(self, vars_=None, parent=None, kind='func'):
        self.vars = dict(vars_ or {})
        self.parent = parent
        self.kind = kind

    def clone(self):
        return EnvR(self.vars, self.parent, self.kind)

    def same(self, o):
        return isinstance(o, EnvR) and o.vars == self.vars


class ModR(Rec):
    __slots__ = ('name', 'env', 'file')

    def __init__(self, name, env, file_):
        self.name = name
        self.env = env
        self.file = file_

    def clone(self):
        return ModR(self.name, self.env, self.file)

    def same(self, o):
        return isinstance(o, ModR) and o.name == self.name


class GenR(Rec):
    """suspended generator: host closure run(st, cb)->State|None"""
    __slots__ = ('run', 'used')

    def __init__(self, run, used=False):
        self.run = run
        self.used = used

    def clone(self):
        return GenR(self.run, self.used)

    def same(self, o):
        return isinstance(o, GenR) and o.run is self.run and o.used == self.used


# ---------------------------------------------------------------- value joins
MAXALT = 10


def alts(v):
    return v.opts if isinstance(v, Alt) else (v, )


def jv(a, b):
    if a is b or a == b:
        return a
    if isinstance(a, TopV):
        return a
    if isinstance(b, TopV):
        return b
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([jv(x, y) for x, y in zip(a.items, b.items)], a.names)
    o = set(alts(a)) | set(alts(b))
    if len(o) > MAXALT:
        return TopV('too many alternatives')
    return Alt(o)


def jopt(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return jv(a, b)


def join_rec(a, b):
    """join two different versions of one heap record"""
    if a is b or a.same(b):
        return a
    if isinstance(a, GenR) != isinstance(b, GenR):
        # started on one path only
        return ListR([], TopV('generator'), 'iter')
    if isinstance(a, EnvR):
        r = EnvR(None, a.parent, a.kind)
        for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
            r.vars[k] = jv(a.vars.get(k, UNBOUND), b.vars.get(k, UNBOUND))
        return r
    if isinstance(a, DictR):
        r = DictR(None, jopt(a.opaque, b.opaque), a.default)
        # keep a merged order
        for k in list(a.d) + [k for k in b.d if k not in a.d]:
            x, y = a.d.get(k), b.d.get(k)
            if x is None:
                r.d[k] = (y[0], False, y[2])
            elif y is None:
                r.d[k] = (x[0], False, x[2])
            else:
                r.d[k] = (jv(x[0], y[0]), x[1] and y[1],
                          x[2] if x[2] == y[2] or y[0] == x[0] else y[2])
        return r
    if isinstance(a, ListR):
        op = jopt(a.opaque, b.opaque)
        if a.opaque is None and b.opaque is None:
            if len(a.items) == len(b.items):
                return ListR([(jv(x[0], y[0]), x[1] and y[1])
                              for x, y in zip(a.items, b.items)], None, a.kind)
            s, l = (a, b) if len(a.items) < len(b.items) else (b, a)
            n = len(s.items)
            if s.items == l.items[:n]:
                return ListR(s.items + [(v, False) for v, _ in l.items[n:]],
                             None, a.kind)
            # s is a subsequence of l ?
            out, i = [], 0
            for v, m in l.items:
                if i < n and s.items[i][0] == v:
                    out.append((v, m and s.items[i][1]))
                    i += 1
                else:
                    out.append((v, False))
            if i == n:
                return ListR(out, None, a.kind)
        e = op
        for v, _ in a.items + b.items:
            e = jopt(e, v)
        return ListR([], e if e is not None else TopV('empty'), a.kind)
    if isinstance(a, InstR):
        r = InstR(a.cls, None, a.payload, a.loc)
        for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
            r.attrs[k] = jv(a.attrs.get(k, UNBOUND), b.attrs.get(k, UNBOUND))
        return r
    if isinstance(a, ClassR):
        r = a.clone()
        for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
            r.attrs[k] = jv(a.attrs.get(k, UNBOUND), b.attrs.get(k, UNBOUND))
        return r
    if isinstance(a, FuncR):
        r = a.clone()
        for k in set(a.attrs) | set(b.attrs):
            r.attrs[k] = jv(a.attrs.get(k, UNBOUND), b.attrs.get(k, UNBOUND))
        return r
    if isinstance(a, GenR):
        return GenR(a.run, a.used or b.used)
    return a


class State(object):
    __slots__ = ('heap', 'base', 'facts', 'events', 'owned')

    def __init__(self, base=None):
        self.heap = {}
        self.base = base or {}
        self.facts = {}
        self.events = ()
        self.owned = set()

    def get(self, i):
        r = self.heap.get(i)
        return r if r is not None else self.base[i]

    def mut(self, i):
        if i in self.owned:
            return self.heap[i]
        r = self.get(i).clone()
        self.heap[i] = r
        self.owned.add(i)
        return r

    def put(self, i, r):
        self.heap[i] = r
        self.owned.add(i)

    def fork(self):
        s = State(self.base)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.events = self.events
        self.owned = set()
        return s

    def become(self, o):
        self.heap = o.heap
        self.base = o.base
        self.facts = o.facts
        self.events = o.events
        self.owned = set()
        o.owned = set()


def join_events(a, b):
    if a is b or a == b:
        return a
    n = 0
    m = min(len(a), len(b))
    while n < m and a[n] == b[n]:
        n += 1
    return a[:n] + (('fork', a[n:], b[n:]), )


def join_states(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    s = State(a.base)
    ha, hb = a.heap, b.heap
    h = dict(ha)
    for i, rb in hb.items():
        ra = ha.get(i)
        if ra is rb:
            continue
        if ra is None:
            ra = a.base.get(i)
            if ra is None:
                h[i] = rb
                continue
        h[i] = join_rec(ra, rb)
    for i, ra in ha.items():
        if i not in hb:
            rb = b.base.get(i)
            if rb is not None and rb is not ra:
                h[i] = join_rec(ra, rb)
    s.heap = h
    fa, fb = a.facts, b.facts
    s.facts = {k: v for k, v in fa.items() if fb.get(k) == v}
    s.events = join_events(a.events, b.events)
    return s


def states_equal(a, b):
    if a is b:
        return True
    for i in set(a.heap) | set(b.heap):
        ra = a.heap.get(i) or a.base.get(i)
        rb = b.heap.get(i) or b.base.get(i)
        if ra is rb:
            continue
        if ra is None or rb is None:
            return False
        if not ra.same(rb):
            return False
    return True


# ---------------------------------------------------------------- terms
def term_of(v):
    if isinstance(v, Const):
        return ('c', v.v)
    if isinstance(v, Sym):
        return v.term
    if isinstance(v, Cat):
        return ('cat', ) + tuple(
            ('c', p) if isinstance(p, str) else p.term for p in v.parts)
    if isinstance(v, Tup):
        return ('tup', ) + tuple(term_of(x) for x in v.items)
    if isinstance(v, Ref):
        return ('ref', v.id)
    if isinstance(v, NType):
        return ('type', v.name)
    if isinstance(v, Alt):
        return ('alt', ) + tuple(sorted((term_of(x) for x in v.opts), key=repr))
    if isinstance(v, NObj):
        return ('nobj', v.kind, repr(v.data))
    return ('other', repr(v))


# ---------------------------------------------------------------- strings
def is_str(v):
    return (isinstance(v, Const) and isinstance(v.v, str)) or isinstance(
        v, Cat) or (isinstance(v, Sym) and v.kind == 'str')


def parts_of(v):
    if isinstance(v, Const):
        return (v.v, )
    if isinstance(v, Cat):
        return v.parts
    return (v, )


def mkcat(parts):
    out = []
    for p in parts:
        if isinstance(p, V) and not isinstance(p, Sym):
            out2 = parts_of(p)
        else:
            out2 = (p, )
        for q in out2:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return Const('')
    if len(out) == 1:
        return Const(out[0]) if isinstance(out[0], str) else out[0]
    return Cat(out)


def hom_of(sym):
    """(base term, table) of a string symbol"""
    t = sym.term
    if isinstance(t, tuple) and t[0] == 'hom':
        return t[1], dict(t[2])
    return t, {}


def mkhom(sym, base, table):
    table = {k: v for k, v in table.items() if k != v}
    props = frozenset(p for p in sym.props
                      if p == 'truthy' and all(table.values()))
    if not table:
        # identity: the original symbol
        return Sym(base, 'str', sym.props if isinstance(sym.term, tuple) and
                   sym.term[0] == 'hom' else sym.props)
    return Sym(('hom', base, tuple(sorted(table.items()))), 'str',
               sym.props | props)


def can_contain(sym, ch):
    """may the string symbol contain character ch"""
    if not isinstance(sym, Sym):
        return True
    if 'plain' in sym.props:
        return ch.isalnum()
    base, table = hom_of(sym)
    if ch not in table:
        return True
    for c, img in table.items():
        if ch in img:
            return True
    return False


def sym_replace(sym, old, new):
    """exact transfer function of str.replace on a character homomorphism, or
    None when the result is not a homomorphic image (the rewriting could match
    across two characters' images)"""
    if 'plain' in sym.props and any(not c.isalnum() for c in old):
        return sym
    base, table = hom_of(sym)
    table = dict(table)
    for ch in old + new:
        table.setdefault(ch, ch)
    if len(old) == 1:
        for c in table:
            table[c] = table[c].replace(old, new)
        return mkhom(sym, base, table)
    if not old:
        return None
    if any(img == '' for img in table.values()):
        return None
    # a match may not straddle two images
    images = set(table.values())
    anyother = True  # characters outside the table are their own image
    for img in images:
        for n in range(1, len(old)):
            if n <= len(img) and img.endswith(old[:n]):
                # something following could start with old[n]
                nxt = old[n:]
                for img2 in images:
                    if img2.startswith(nxt[:len(img2)]) or nxt.startswith(img2):
                        return None
    for c in table:
        table[c] = table[c].replace(old, new)
    return mkhom(sym, base, table)
