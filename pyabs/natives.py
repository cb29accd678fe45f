"""Models of the builtins and library functions the project uses."""
import builtins as _b
import collections
import collections.abc
import os
import posixpath
import re
import types
import urllib.parse

from .values import *  # noqa
from .interp import *  # noqa
from . import interp as II

MISSING = NObj('missing')


def re_first(seq):
    """characters a match has to start with, None when not known"""
    for op, arg in seq:
        op = str(op)
        if op == 'AT':
            continue
        if op == 'LITERAL':
            return {chr(arg)}
        if op == 'IN':
            r = set()
            for o, x in arg:
                if str(o) != 'LITERAL':
                    return None
                r.add(chr(x))
            return r
        if op in ('MAX_REPEAT', 'MIN_REPEAT') and arg[0] > 0:
            return re_first(list(arg[2]))
        if op == 'SUBPATTERN':
            return re_first(list(arg[3]))
        return None
    return None


def re_needs(seq):
    """characters every match contains"""
    r = set()
    for op, arg in seq:
        op = str(op)
        if op == 'LITERAL':
            r.add(chr(arg))
        elif op in ('MAX_REPEAT', 'MIN_REPEAT') and arg[0] > 0:
            r |= re_needs(list(arg[2]))
        elif op == 'SUBPATTERN' and not arg[1] and not arg[2]:
            r |= re_needs(list(arg[3]))
    return r


def re_local(seq):
    """whether a match looks at no more than what it covers"""
    for op, arg in seq:
        op = str(op)
        if op == 'AT' and str(arg) not in ('AT_BEGINNING',
                                           'AT_BEGINNING_STRING'):
            return False
        if op in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY', 'AT'):
            continue
        if op in ('MAX_REPEAT', 'MIN_REPEAT'):
            subs = [arg[2]]
        elif op == 'SUBPATTERN':
            subs = [arg[3]]
        elif op == 'BRANCH':
            subs = arg[1]
        else:
            return False
        if not all(re_local(list(x)) for x in subs):
            return False
    return True


class Natives(object):
    def __init__(self, I):
        self.I = I
        self.FUNC = NType(types.FunctionType)
        self.MODULE = NType(types.ModuleType)
        self.GEN = NType(types.GeneratorType)
        self.METHOD = NType(types.MethodType)
        self.BUILTIN = NType(types.BuiltinFunctionType)
        b = {}
        for n in ('object', 'type', 'dict', 'list', 'tuple', 'set', 'str',
                  'int', 'float', 'bool', 'bytes', 'frozenset', 'property',
                  'classmethod', 'staticmethod', 'enumerate', 'zip', 'map',
                  'filter', 'range', 'reversed', 'super', 'bytearray',
                  'complex'):
            b[n] = NType(getattr(_b, n))
        for n in dir(_b):
            x = getattr(_b, n)
            if isinstance(x, type) and issubclass(x, BaseException):
                b[n] = NType(x)
        for n in dir(self):
            if n.startswith('f_'):
                b[n[2:]] = Native(n[2:], self._w(getattr(self, n)))
        b['NotImplemented'] = NObj('NotImplemented')
        b['Ellipsis'] = Const(Ellipsis)
        b['__name__'] = Const('builtins')
        b['True'], b['False'], b['None'] = TRUE, FALSE, NONE
        self.builtins = b
        self.extra_attrs = {}
        self.world = None

    def _w(self, m):
        return lambda I, st, a, k: m(st, a, k)

    # ------------------------------------------------------------ helpers
    def host(self, v):
        """host value of a fully constant abstract value, else raise"""
        if isinstance(v, Const):
            return v.v
        if isinstance(v, Tup):
            return tuple(self.host(x) for x in v.items)
        raise ValueError

    def hosts(self, st, v):
        if isinstance(v, Ref):
            r = st.get(v.id)
            if isinstance(r, ListR) and r.opaque is None and all(
                    m for _, m in r.items):
                l = [self.hosts(st, x) for x, _ in r.items]
                return set(l) if r.kind == 'set' else l
            if isinstance(r, DictR) and r.opaque is None and all(
                    e[1] for e in r.d.values()):
                return {self.hosts(st, k): self.hosts(st, e[0])
                        for k, e in r.d.items()}
            raise ValueError
        return self.host(v)

    def lift(self, st, x):
        if isinstance(x, V):
            return x
        if isinstance(x, list):
            return self.I.new_list(st, [self.lift(st, y) for y in x])
        if isinstance(x, set):
            return self.I.new_list(st, [self.lift(st, y) for y in sorted(x)],
                                   'set')
        if isinstance(x, dict):
            return self.I.new_dict(st, [(self.lift(st, k), self.lift(st, y))
                                        for k, y in x.items()])
        if isinstance(x, tuple):
            names = getattr(x, '_fields', None)
            return Tup([self.lift(st, y) for y in x], names)
        return Const(x)

    def is_const(self, *vs):
        return all(isinstance(v, Const) for v in vs)

    # ------------------------------------------------------------ strings
    def str_(self, v, st):
        I = self.I
        if is_str(v):
            return v
        if isinstance(v, Const):
            return Const(str(v.v))
        if isinstance(v, NType):
            return Const("<class '%s'>" % v.name)
        if isinstance(v, Ref):
            r = st.get(v.id)
            if isinstance(r, ClassR):
                return Const("<class '%s.%s'>" % (r.mod, r.name))
            if isinstance(r, InstR):
                for nm in ('__str__', '__repr__'):
                    m = I.lookup_class(r.cls, nm, st)
                    if m is not None and not isinstance(m, Native):
                        return I.call(m, [v], {}, st)
                if 'args' in r.attrs and isinstance(r.attrs['args'], Tup):
                    it = r.attrs['args'].items
                    if len(it) == 1:
                        return self.str_(it[0], st)
        if isinstance(v, NObj) and v.kind == 'ver':
            return Const(v.data[1])
        if isinstance(v, Alt):
            os_ = {self.str_(o, st) for o in v.opts}
            return os_.pop() if len(os_) == 1 else Alt(os_)
        return Sym(('str', term_of(v)), 'str', frozenset(['truthy']))

    def repr_(self, v, st):
        if isinstance(v, Const):
            return Const(repr(v.v))
        return Sym(('repr', term_of(v)), 'str', frozenset(['truthy']))

    def format_spec(self, v, spec, st):
        if isinstance(v, Const) and isinstance(spec, Const):
            return Const(format(v.v, spec.v))
        return Sym(('format', term_of(v), term_of(spec)), 'str')

    def cat(self, vals, st):
        """concatenate str-valued abstract values (Alt aware)"""
        for i, v in enumerate(vals):
            if isinstance(v, Alt):
                outs = [self.cat(vals[:i] + [o] + vals[i + 1:], st)
                        for o in sorted(v.opts, key=repr)]
                r = outs[0]
                for o in outs[1:]:
                    r = jv(r, o)
                return r
        if any(isinstance(v, TopV) for v in vals):
            return next(v for v in vals if isinstance(v, TopV))
        ps = []
        for v in vals:
            if isinstance(v, V) and not is_str(v):
                v = Sym(('str', term_of(v)), 'str')
            ps.append(v)
        return mkcat(ps)

    def len_str(self, v):
        c = 0
        terms = []
        for p in parts_of(v):
            if isinstance(p, str):
                c += len(p)
            else:
                terms.append(p.term)
        return self.lin(c, terms)

    def lin(self, c, terms):
        if not terms:
            return Const(c)
        return Sym(('lin', c, tuple(sorted(terms, key=repr))), 'int')

    def unlin(self, v):
        if isinstance(v, Const) and isinstance(v.v, int):
            return v.v, ()
        if isinstance(v, Sym) and v.term[0] == 'lin':
            return v.term[1], v.term[2]
        return None

    def app(self, op, vals, kind='any', props=()):
        if any(isinstance(v, TopV) for v in vals):
            return next(v for v in vals if isinstance(v, TopV))
        return Sym((op, ) + tuple(term_of(v) for v in vals), kind,
                   frozenset(props))

    STRM = ('startswith endswith split rsplit replace format join lower upper '
            'strip lstrip rstrip find rfind index rindex encode partition '
            'rpartition count isdigit splitlines title capitalize isalpha '
            'isalnum zfill islower isupper swapcase casefold isspace '
            'removeprefix removesuffix translate rjust ljust center '
            'isidentifier isnumeric isdecimal expandtabs format_map').split()

    def str_method(self, name, st, self_, a, k):
        I = self.I
        allv = [self_] + list(a)
        for i, v in enumerate(allv):
            if isinstance(v, Alt):
                return I.join_eval([
                    (lambda s, o=o: self.str_method(
                        name, s, *(lambda l: (l[0], l[1:]))(
                            allv[:i] + [o] + allv[i + 1:]), k=k))
                    for o in sorted(v.opts, key=repr)
                ], st)
        if any(isinstance(v, TopV) for v in allv):
            return next(v for v in allv if isinstance(v, TopV))
        if name not in ('format', 'join'):
            try:
                hs = [self.hosts(st, v) for v in allv]
                hk = {n: self.hosts(st, v) for n, v in k.items()}
                conc = isinstance(hs[0], (str, bytes))
            except ValueError:
                conc = False
            if conc:
                try:
                    return self.lift(st, getattr(hs[0], name)(*hs[1:], **hk))
                except (ValueError, TypeError, AttributeError) as e:
                    I.raise_native(st, type(e), str(e))
        f = getattr(self, 's_' + name, None)
        if f is not None:
            return f(st, self_, a, k)
        kind = 'bool' if name.startswith('is') else 'str'
        if name in ('count', ):
            kind = 'int'
        if name in ('encode', 'splitlines', 'translate', 'format_map'):
            kind = 'any'
        return self.app('str.' + name, allv, kind)

    def s_startswith(self, st, s, a, k):
        if isinstance(a[0], Tup):
            unk = None
            for p in a[0].items:
                v = self.s_startswith(st, s, [p], k)
                b = self.I.truth(v, st)
                if b:
                    return TRUE
                if b is None:
                    unk = v
            return unk if unk is not None else FALSE
        b = self.prefix(s, a[0], st)
        if b is None:
            return Sym(('startswith', term_of(s), term_of(a[0])), 'bool')
        return Const(b)

    def token_differs(self, x, y, st):
        """x and y (parts) start with one token each, up to a character that
        neither token may contain, and these tokens differ"""
        if len(x) > 1 and len(y) > 1 and st is not None and not any(
                isinstance(p, str) for p in (x[0], y[0])) and all(
                isinstance(p, str) for p in (x[1], y[1])):
            c = x[1][:1]
            if c and c == y[1][:1] and not can_contain(
                    x[0], c) and not can_contain(
                        y[0], c) and self.eq_b(x[0], y[0], st) is False:
                return True
        for m, n in ((x, y), (y, x)):
            if not m or isinstance(m[0], str) or not n or not isinstance(
                    n[0], str):
                continue
            if len(m) > 1 and isinstance(m[1], str):
                c = m[1][0]
            elif len(m) == 1:
                # the symbol is all of m
                cs = [c for c in n[0] if not can_contain(m[0], c)]
                if not cs:
                    return False
                if m is x:
                    return True
                return False
            else:
                return False
            if can_contain(m[0], c):
                return False
            if c not in n[0]:
                if len(n) == 1:
                    # n ends within the token
                    if n is x:
                        return True
                return False
            return st is not None and self.eq_b(
                m[0], Const(n[0].split(c)[0]), st) is False
        return False

    def prefix(self, s, p, st=None):
        x, y = list(parts_of(s)), list(parts_of(p))
        while y:
            if self.token_differs(x, y, st):
                return False
            if not isinstance(y[0], str) and any(
                    not any(c in p if isinstance(p, str) else can_contain(p, c)
                            for p in x)
                    for q in y if isinstance(q, str) for c in q):
                return False
            if isinstance(y[0], str):
                if y[0] == '':
                    y.pop(0)
                    continue
                if not x:
                    return False
                if isinstance(x[0], str):
                    n = min(len(x[0]), len(y[0]))
                    if x[0][:n] != y[0][:n]:
                        return False
                    x[0], y[0] = x[0][n:], y[0][n:]
                    if not x[0]:
                        x.pop(0)
                    if not y[0]:
                        y.pop(0)
                    continue
                # symbol against a constant character
                if not can_contain(x[0], y[0][0]) and 'truthy' in x[0].props:
                    return False
                return None
            # symbol in the prefix
            if x and not isinstance(x[0], str) and x[0] == y[0]:
                x.pop(0)
                y.pop(0)
                continue
            if not x:
                return False if 'truthy' in y[0].props else None
            if isinstance(x[0], str):
                if not can_contain(y[0], x[0][0]) and 'truthy' in y[0].props:
                    return False
            return None
        return True

    def s_endswith(self, st, s, a, k):
        if isinstance(a[0], Tup):
            unk = None
            for p in a[0].items:
                v = self.s_endswith(st, s, [p], k)
                b = self.I.truth(v, st)
                if b:
                    return TRUE
                if b is None:
                    unk = v
            return unk if unk is not None else FALSE
        x, y = list(parts_of(s)), list(parts_of(a[0]))
        while y:
            if isinstance(y[-1], str):
                if not x:
                    return FALSE
                if isinstance(x[-1], str):
                    n = min(len(x[-1]), len(y[-1]))
                    if x[-1][-n:] != y[-1][-n:]:
                        return FALSE
                    x[-1], y[-1] = x[-1][:-n], y[-1][:-n]
                    if not x[-1]:
                        x.pop()
                    if not y[-1]:
                        y.pop()
                    continue
                if not can_contain(x[-1], y[-1][-1]) and 'truthy' in x[-1].props:
                    return FALSE
                break
            if x and x[-1] == y[-1]:
                x.pop()
                y.pop()
                continue
            break
        else:
            return TRUE
        return Sym(('endswith', term_of(s), term_of(a[0])), 'bool')

    def s_split(self, st, s, a, k):
        sep = a[0] if a else k.get('sep', NONE)
        mx = a[1] if len(a) > 1 else k.get('maxsplit', Const(-1))
        if not (isinstance(sep, Const) and isinstance(sep.v, str)
                and isinstance(mx, Const)):
            return self.app('str.split', [s, sep, mx])
        sp = sep.v
        out, cur = [], []
        left = mx.v
        parts = list(parts_of(s))
        for i, p in enumerate(parts):
            if isinstance(p, str):
                if left == 0:
                    cur.append(p)
                    continue
                pieces = p.split(sp, left) if left > 0 else p.split(sp)
                for j, q in enumerate(pieces):
                    if j:
                        out.append(mkcat(cur))
                        cur = []
                        if left > 0:
                            left -= 1
                    if q:
                        cur.append(q)
            else:
                if left != 0 and any(can_contain(p, c) for c in sp):
                    return self.app('str.split', [s, sep, mx])
                cur.append(p)
        out.append(mkcat(cur))
        return self.I.new_list(st, out)

    def s_rsplit(self, st, s, a, k):
        sep = a[0] if a else NONE
        mx = a[1] if len(a) > 1 else k.get('maxsplit', Const(-1))
        if not (isinstance(sep, Const) and isinstance(sep.v, str)
                and isinstance(mx, Const)):
            return self.app('str.rsplit', [s, sep, mx])
        if mx.v < 0:
            return self.s_split(st, s, [sep], {})
        parts = list(parts_of(s))
        sp = sep.v
        out, cur, left = [], [], mx.v
        for p in reversed(parts):
            if isinstance(p, str):
                if left == 0:
                    cur.insert(0, p)
                    continue
                pieces = p.rsplit(sp, left)
                for j, q in enumerate(reversed(pieces)):
                    if j:
                        out.insert(0, mkcat(cur))
                        cur = []
                        left -= 1
                    if q:
                        cur.insert(0, q)
            else:
                if left != 0 and any(can_contain(p, c) for c in sp):
                    return self.app('str.rsplit', [s, sep, mx])
                cur.insert(0, p)
        out.insert(0, mkcat(cur))
        return self.I.new_list(st, out)

    def s_partition(self, st, s, a, k, r=False):
        l = (self.s_rsplit if r else self.s_split)(st, s, [a[0], Const(1)], {})
        if isinstance(l, Ref):
            it = [v for v, _ in st.get(l.id).items]
            if len(it) == 1:
                return Tup([Const(''), Const(''), it[0]] if r else
                           [it[0], Const(''), Const('')])
            return Tup([it[0], a[0], it[1]])
        return self.app('str.partition', [s] + list(a))

    def s_rpartition(self, st, s, a, k):
        return self.s_partition(st, s, a, k, True)

    def s_replace(self, st, s, a, k):
        o, n = a[0], a[1]
        if isinstance(o, Const) and isinstance(n, Const) and len(a) == 2:
            out = []
            ps = parts_of(s)
            if len(o.v) > 1 and len(ps) > 1:
                # matches across part boundaries are not tracked
                for i, p in enumerate(ps):
                    if isinstance(p, str) and any(
                            i + 1 < len(ps) and p.endswith(o.v[:j]) or
                            i and p.startswith(o.v[j:])
                            for j in range(1, len(o.v))):
                        return self.app('str.replace', [s, o, n], 'str')
            for p in ps:
                if isinstance(p, str):
                    out.append(p.replace(o.v, n.v))
                else:
                    q = sym_replace(p, o.v, n.v)
                    if q is None:
                        return self.app('str.replace', [s, o, n], 'str')
                    out.append(q)
            return mkcat(out)
        return self.app('str.replace', [s] + list(a), 'str')

    def s_removeprefix(self, st, s, a, k):
        b = self.prefix(s, a[0])
        if b is True:
            return self.slice_str(s, self.len_str(a[0]), NONE, st)
        if b is False:
            return s
        return self.app('str.removeprefix', [s] + list(a), 'str')

    def s_strip(self, st, s, a, k, l=True, r=True):
        ch = a[0] if a else NONE
        chars = ' \t\n\r\x0b\x0c' if ch == NONE else (
            ch.v if isinstance(ch, Const) else None)
        if chars is None:
            return self.app('str.strip', [s] + list(a), 'str')
        ps = list(parts_of(s))
        ok = True
        unk = []
        for side in (['l'] if l else []) + (['r'] if r else []):
            while ps:
                p = ps[0] if side == 'l' else ps[-1]
                if isinstance(p, str):
                    q = p.lstrip(chars) if side == 'l' else p.rstrip(chars)
                    if q:
                        ps[0 if side == 'l' else -1] = q
                        break
                    ps.pop(0 if side == 'l' else -1)
                else:
                    if any(can_contain(p, c) for c in chars):
                        ok = False
                        unk.append(side)
                    break
        if unk == ['r'] and len(ps) > 1 and isinstance(ps[0], str) and \
                (not l or ps[0][:1] not in chars) and ps[0].rstrip(chars):
            # the start is known
            head = ps[0].rstrip(chars)
            rest = [ps[0][len(head):]] + ps[1:]
            return mkcat([head, self.app('str.strip.01', [
                mkcat([x for x in rest if x != ''])] + list(a), 'str')])
        if not ok:
            return self.app('str.strip.%d%d' % (l, r), [s] + list(a), 'str')
        return mkcat(ps)

    def s_lstrip(self, st, s, a, k):
        return self.s_strip(st, s, a, k, r=False)

    def s_rstrip(self, st, s, a, k):
        return self.s_strip(st, s, a, k, l=False)

    def s_find(self, st, s, a, k, missing=-1):
        if len(a) == 1 and isinstance(a[0], Const) and len(a[0].v) == 1:
            ch = a[0].v
            c, terms = 0, []
            for p in parts_of(s):
                if isinstance(p, str):
                    i = p.find(ch)
                    if i >= 0:
                        return self.lin(c + i, terms)
                    c += len(p)
                else:
                    if can_contain(p, ch):
                        break
                    terms.append(p.term)
            else:
                return Const(-1)
            if c:
                # not at the start
                return self.app('str.find', [s] + list(a), 'int', (
                    'truthy', ))
        return self.app('str.find', [s] + list(a), 'int')

    def s_index(self, st, s, a, k):
        v = self.s_find(st, s, a, k)
        if v == Const(-1):
            self.I.raise_native(st, ValueError, 'substring not found')
        return v

    def s_join(self, st, s, a, k):
        I = self.I
        try:
            items = I.to_list(a[0], st)
        except Unsupported:
            return I.top('join of unknown sequence')
        for v, _ in items:
            if not is_str(v) and not isinstance(v, (Alt, TopV)) and not (
                    isinstance(v, Sym) and v.kind == 'any'):
                I.raise_native(st, TypeError, 'join: expected str, got %r' % (v, ))
        if any(not m for _, m in items):
            # enumerate presence of the optional elements (few)
            opt = [i for i, (v, m) in enumerate(items) if not m]
            if len(opt) > 3:
                return I.top('join of partially known sequence')
            res = None
            for mask in range(1 << len(opt)):
                vs = [v for i, (v, m) in enumerate(items)
                      if m or (mask >> opt.index(i)) & 1]
                x = self.join_vals(s, vs, st)
                res = x if res is None else jv(res, x)
            return res
        return self.join_vals(s, [v for v, _ in items], st)

    def join_vals(self, s, vs, st):
        out = []
        for i, v in enumerate(vs):
            if i:
                out.append(s)
            out.append(v)
        return self.cat(out, st) if out else Const('')

    def s_format(self, st, s, a, k):
        if not isinstance(s, Const):
            return self.app('format', [s] + list(a), 'str')
        import string
        out = []
        n = 0
        for lit, field, spec, conv in string.Formatter().parse(s.v):
            if lit:
                out.append(Const(lit))
            if field is None:
                continue
            m = re.match(r'^(\w*)(.*)$', field)
            key, rest = m.group(1), m.group(2)
            if key == '':
                if n >= len(a):
                    self.I.raise_native(st, IndexError, 'format')
                v = a[n]
                n += 1
            elif key.isdigit():
                v = a[int(key)]
            else:
                if key not in k:
                    self.I.raise_native(st, KeyError, key)
                v = k[key]
            for acc in re.findall(r'\.(\w+)|\[(\w+)\]', rest):
                if acc[0]:
                    v = self.I.getattr(v, acc[0], st)
                else:
                    kk = int(acc[1]) if acc[1].isdigit() else acc[1]
                    v = self.I.getitem(v, Const(kk), st)
            if conv == 'r':
                v = self.repr_(v, st)
            if spec:
                v = self.format_spec(v, Const(spec), st)
            out.append(self.str_(v, st))
        return self.cat(out, st)

    def percent(self, a, b, st):
        if not isinstance(a, Const):
            return self.app('%', [a, b], 'str')
        args = list(b.items) if isinstance(b, Tup) else [b]
        out = []
        pos = 0
        n = 0
        for m in re.finditer(r'%(\((\w+)\))?[-+ 0#]*\d*(\.\d+)?([sdrifx%])',
                             a.v):
            out.append(Const(a.v[pos:m.start()]))
            pos = m.end()
            if m.group(4) == '%':
                out.append(Const('%'))
                continue
            if m.group(2):
                v = self.I.getitem(b, Const(m.group(2)), st)
            else:
                if n >= len(args):
                    self.I.raise_native(st, TypeError, 'not enough arguments')
                v = args[n]
                n += 1
            out.append(self.repr_(v, st) if m.group(4) == 'r' else self.str_(
                v, st))
        out.append(Const(a.v[pos:]))
        return self.cat(out, st)

    def slice_str(self, s, lo, hi, st):
        """s[lo:hi] with linear bounds; exact or an application term"""
        if lo == NONE:
            lo = Const(0)
        parts = list(parts_of(s))
        if isinstance(lo, Const) and lo.v < 0 or (isinstance(hi, Const)
                                                  and hi != NONE
                                                  and hi.v < 0):
            if lo == Const(0) and isinstance(hi, Const) and hi.v < 0 and parts \
                    and isinstance(parts[-1], str) and len(parts[-1]) >= -hi.v:
                return mkcat(parts[:-1] + [parts[-1][:hi.v]])
            if isinstance(lo, Const) and lo.v < 0 and hi == NONE and parts and \
                    isinstance(parts[-1], str) and len(parts[-1]) >= -lo.v:
                return Const(parts[-1][lo.v:])
            return self.app('slice', [s, lo, hi], 'str')

        def cut(parts, at):
            u = self.unlin(at)
            if u is None:
                return None
            c, terms = u
            terms = list(terms)
            i = 0
            head = []
            parts = list(parts)
            while parts and (c > 0 or terms):
                p = parts[0]
                if isinstance(p, str):
                    if c >= len(p):
                        c -= len(p)
                        head.append(parts.pop(0))
                    elif c > 0:
                        if terms and c < len(p):
                            return None
                        head.append(p[:c])
                        parts[0] = p[c:]
                        c = 0
                    else:
                        return None
                else:
                    if p.term in terms:
                        terms.remove(p.term)
                        head.append(parts.pop(0))
                    else:
                        return None
            if terms:
                return None
            # cutting beyond the end of the string leaves the empty string
            return head, parts

        if hi != NONE:
            r = cut(parts, hi)
            if r is None:
                return self.app('slice', [s, lo, hi], 'str')
            parts = r[0]
        r = cut(parts, lo)
        if r is None:
            return self.app('slice', [s, lo, hi], 'str')
        return mkcat(r[1])

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b, st):
        I = self.I
        if isinstance(a, Alt) or isinstance(b, Alt):
            return I.join_eval([
                (lambda s, x=x, y=y: self.binop(op, x, y, s))
                for x in sorted(alts(a), key=repr)
                for y in sorted(alts(b), key=repr)
            ], st)
        if isinstance(a, TopV):
            return a
        if isinstance(b, TopV):
            return b
        if op == '%' and is_str(a):
            return self.percent(a, b, st)
        if self.is_const(a, b):
            try:
                x, y = a.v, b.v
                r = {'+': lambda: x + y, '-': lambda: x - y,
                     '*': lambda: x * y, '/': lambda: x / y,
                     '//': lambda: x // y, '%': lambda: x % y,
                     '&': lambda: x & y, '|': lambda: x | y,
                     '^': lambda: x ^ y, '**': lambda: x ** y,
                     '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
                return Const(r)
            except Exception as e:
                I.raise_native(st, type(e), str(e))
        if op == '+':
            if is_str(a) and is_str(b):
                return mkcat([a, b])
            ua, ub = self.unlin(a), self.unlin(b)
            if ua and ub:
                return self.lin(ua[0] + ub[0], ua[1] + ub[1])
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, Ref) and isinstance(b, Ref):
                ra, rb = st.get(a.id), st.get(b.id)
                if isinstance(ra, ListR) and isinstance(rb, ListR):
                    r = ListR(ra.items + rb.items, jopt(ra.opaque, rb.opaque))
                    return I.alloc(st, r)
            if is_str(a) and (b == NONE or isinstance(b, (Tup, NType)) or
                              (isinstance(b, Const)
                               and not isinstance(b.v, str)) or isinstance(
                                   b, Ref)):
                I.raise_native(st, TypeError, 'can only concatenate str to str')
            if (a == NONE or isinstance(a, Ref)) and is_str(b):
                if isinstance(a, Ref):
                    ra = st.get(a.id)
                    if isinstance(ra, InstR):
                        m = I.lookup_class(ra.cls, '__add__', st)
                        if m is not None and not isinstance(m, Native):
                            return I.call(m, [a, b], {}, st)
                I.raise_native(st, TypeError, 'unsupported operand +')
            if is_str(a) or is_str(b):
                x = a if is_str(a) else Sym(term_of(a), 'str')
                y = b if is_str(b) else Sym(term_of(b), 'str')
                return mkcat([x, y])
        if op == '-':
            ua, ub = self.unlin(a), self.unlin(b)
            if ua and ub:
                t = list(ua[1])
                for x in ub[1]:
                    if x not in t:
                        break
                    t.remove(x)
                else:
                    return self.lin(ua[0] - ub[0], t)
        if op in '-&|^' and isinstance(a, Ref) and isinstance(
                st.get(a.id), ListR):
            return self.set_op(op, a, b, st)
        if op == '|' and isinstance(a, Ref) and isinstance(
                st.get(a.id), DictR):
            r = I.alloc(st, st.get(a.id).clone())
            self.dict_update(st, r, [b], {})
            return r
        if op == '*':
            x, y = (a, b) if isinstance(b, Const) else (b, a)
            if isinstance(y, Const) and isinstance(y.v, int):
                if isinstance(x, Ref) and isinstance(st.get(x.id), ListR):
                    r = st.get(x.id)
                    return I.alloc(st, ListR(r.items * y.v, r.opaque))
                if isinstance(x, Tup):
                    return Tup(x.items * y.v)
        if isinstance(a, Ref) and isinstance(st.get(a.id), InstR):
            nm = {'+': '__add__', '-': '__sub__', '&': '__and__',
                  '|': '__or__', '*': '__mul__', '/': '__truediv__'}.get(op)
            m = nm and I.lookup_class(st.get(a.id).cls, nm, st)
            if m is not None and not isinstance(m, Native):
                return I.call(m, [a, b], {}, st)
        if isinstance(a, Sym) or isinstance(b, Sym):
            k = 'num'
            for x in (a, b):
                if isinstance(x, Sym) and x.kind == 'int':
                    k = 'int'
            return self.app(op, [a, b], k)
        if op == '|' and isinstance(a, (NType, Ref)):
            return Tup([a, b])  # X | Y types
        I.raise_native(st, TypeError, 'unsupported operand %s' % op)

    def set_op(self, op, a, b, st):
        I = self.I
        ra = st.get(a.id)
        rb_items, rop = I.elements(b, st)
        if ra.opaque is not None or rop is not None:
            return I.alloc(st, ListR([], I.top('set operation'), 'set'))
        out = []
        unk = False

        def mem(x, items):
            res = False
            for y, m in items:
                e = self.eq_b(x, y, st)
                if e is True and m:
                    return True
                if e is not False:
                    res = None
            return res

        if op in ('-', '&', '^'):
            for x, m in ra.items:
                e = mem(x, rb_items)
                if op == '&':
                    if e is True:
                        out.append((x, m))
                    elif e is None:
                        out.append((x, False))
                else:
                    if e is False:
                        out.append((x, m))
                    elif e is None:
                        out.append((x, False))
        if op == '|':
            out = list(ra.items)
        if op in ('|', '^'):
            for y, m in rb_items:
                e = mem(y, ra.items)
                if e is False:
                    out.append((y, m))
                elif e is None:
                    out.append((y, False))
        return I.alloc(st, ListR(out, None, 'set'))

    def is_(self, a, b, st):
        if isinstance(a, Alt) or isinstance(b, Alt):
            return self.altcmp(lambda x, y: self.is_(x, y, st), a, b, st)
        if isinstance(a, TopV) or isinstance(b, TopV):
            return Alt([TRUE, FALSE])
        if isinstance(a, Const) and isinstance(b, Const):
            return Const(a == b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and isinstance(y, Const):
                if y.v is None:
                    return FALSE
                if isinstance(y.v, bool) and x.kind in ('bool', 'any'):
                    v = self.eq(x, y, st)
                    return v
                return FALSE
        return Const(a == b)

    def altcmp(self, f, a, b, st):
        res = None
        for x in alts(a):
            for y in alts(b):
                v = f(x, y)
                bv = self.I.truth(v, st)
                if bv is None:
                    return Alt([TRUE, FALSE])
                if res is None:
                    res = bv
                elif res != bv:
                    return Alt([TRUE, FALSE])
        return Const(res)

    def eq_b(self, a, b, st):
        return self.I.truth(self.eq(a, b, st), st)

    def eq(self, a, b, st, neq=False):
        """abstract a == b: Const bool, a predicate Sym or both"""
        I = self.I
        if isinstance(a, Alt) or isinstance(b, Alt):
            return self.altcmp(lambda x, y: self.eq(x, y, st), a, b, st)
        if isinstance(a, TopV) or isinstance(b, TopV):
            return Alt([TRUE, FALSE])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(st.get(x.id), InstR):
                m = I.lookup_class(st.get(x.id).cls, '__eq__', st)
                if m is not None and not isinstance(m, Native):
                    return I.call(m, [x, y], {}, st)
        if a == b:
            return TRUE
        if isinstance(a, Const) and isinstance(b, Const):
            return Const(a.v == b.v)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return self.all_eq(list(zip(a.items, b.items)), st)
        if is_str(a) and is_str(b):
            return self.eq_str(a, b, st)
        if isinstance(a, Sym) or isinstance(b, Sym):
            x, y = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(y, Const):
                if y.v is None:
                    return FALSE
                if x.kind == 'str' and not isinstance(y.v, str):
                    return FALSE
                if x.kind in ('num', 'int') and isinstance(y.v, str):
                    return FALSE
                if x.kind == 'bool' and not isinstance(y.v, (bool, int, float)):
                    return FALSE
                return self.eq_pred(x, y, st)
            if isinstance(y, Sym):
                return self.eq_pred(x, y, st)
            if x.kind != 'any':
                return FALSE
            return self.eq_pred(x, y, st)
        if isinstance(a, Ref) and isinstance(b, Ref):
            ra, rb = st.get(a.id), st.get(b.id)
            if isinstance(ra, InstR) and ra.payload is not None:
                return self.eq(ra.payload, b, st)
            if isinstance(rb, InstR) and rb.payload is not None:
                return self.eq(a, rb.payload, st)
            if isinstance(ra, ListR) and isinstance(rb, ListR):
                if ra.opaque is not None or rb.opaque is not None or any(
                        not m for _, m in ra.items + rb.items):
                    return Alt([TRUE, FALSE])
                if len(ra.items) != len(rb.items):
                    return FALSE
                if ra.kind == 'set':
                    bs = [any(self.eq_b(x, y, st) for y, _ in rb.items)
                          for x, _ in ra.items]
                    return Const(all(bs))
                return self.all_eq([(x[0], y[0])
                                    for x, y in zip(ra.items, rb.items)], st)
            if isinstance(ra, DictR) and isinstance(rb, DictR):
                if ra.opaque is not None or rb.opaque is not None:
                    return Alt([TRUE, FALSE])
                if set(ra.d) != set(rb.d):
                    if all(isinstance(k, Const)
                           for k in list(ra.d) + list(rb.d)) and all(
                               e[1] for e in list(ra.d.values()) +
                               list(rb.d.values())):
                        return FALSE
                    return Alt([TRUE, FALSE])
                return self.all_eq([(ra.d[k][0], rb.d[k][0]) for k in ra.d],
                                   st)
        return FALSE

    def all_eq(self, pairs, st):
        unk = None
        for x, y in pairs:
            v = self.eq(x, y, st)
            b = self.I.truth(v, st)
            if b is False:
                return FALSE
            if b is None:
                unk = v
        return unk if unk is not None else TRUE

    def eq_str(self, a, b, st):
        x, y = list(parts_of(a)), list(parts_of(b))
        # strip common prefix / suffix
        for rev in (False, True):
            while x and y:
                i = -1 if rev else 0
                p, q = x[i], y[i]
                if isinstance(p, str) and isinstance(q, str):
                    n = min(len(p), len(q))
                    if rev:
                        if p[-n:] != q[-n:]:
                            return FALSE
                        p, q = p[:-n], q[:-n]
                    else:
                        if p[:n] != q[:n]:
                            return FALSE
                        p, q = p[n:], q[n:]
                    if p:
                        x[i] = p
                    else:
                        x.pop(i)
                    if q:
                        y[i] = q
                    else:
                        y.pop(i)
                    continue
                if p == q:
                    x.pop(i)
                    y.pop(i)
                    continue
                break
        if not x and not y:
            return TRUE
        if not x or not y:
            rest = x or y
            if any(isinstance(p, str) or 'truthy' in p.props for p in rest):
                return FALSE
        # first-character / separator argument: constants present on one side only
        if len(x) == 1 and isinstance(x[0], str) or len(y) == 1 and isinstance(
                y[0], str):
            c, s = (x[0], y) if len(x) == 1 and isinstance(x[0], str) else (
                y[0], x)
            if len(s) == 1 and not isinstance(s[0], str):
                if any(not can_contain(s[0], ch) for ch in c):
                    return FALSE
        u, w = mkcat(x), mkcat(y)
        if isinstance(u, Sym) and isinstance(w, Sym):
            return self.eq_pred(u, w, st)
        if isinstance(w, Sym) and isinstance(u, Const):
            return self.eq_pred(w, u, st)
        if isinstance(u, Sym) and isinstance(w, Const):
            return self.eq_pred(u, w, st)
        # constant characters that the other side cannot contain
        for m, n in ((x, y), (y, x)):
            cs = set(''.join(p for p in m if isinstance(p, str)))
            for ch in cs:
                if all((isinstance(p, str) and ch not in p) or
                       (not isinstance(p, str) and not can_contain(p, ch))
                       for p in n):
                    return FALSE
        return Sym(('eq', ) + tuple(
            sorted((term_of(a), term_of(b)), key=repr)), 'bool')

    def eq_pred(self, x, y, st):
        tx, ty = term_of(x), term_of(y)
        ua, ub = self.unlin(x), self.unlin(y)
        if ua and ub:
            lo, hi = self.lin_cmp(ua, ub)
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return FALSE
        if isinstance(y, Const):
            e = st.facts.get(('eq', tx))
            if e is not None:
                return Const(e.v == y.v)
            if y in st.facts.get(('ne', tx), ()):
                return FALSE
            if not y.v and ('truthy' in x.props
                            or st.facts.get(('truth', tx)) is True):
                return FALSE
            if ('not', y.v) in x.props or 'fresh' in x.props:
                return FALSE
            if isinstance(y.v, str) and x.kind == 'str' and any(
                    not can_contain(x, c) for c in y.v):
                return FALSE
            dom = [p[1] for p in x.props
                   if isinstance(p, tuple) and p[0] == 'domain']
            if dom and y.v not in dom[0]:
                return FALSE
            return Sym(('eq', tx, ty), 'bool')
        # distinct names of one container (also through an injective encoding)
        g1 = [p for p in x.props if isinstance(p, tuple) and p[0] == 'group']
        g2 = [p for p in getattr(y, 'props', ())
              if isinstance(p, tuple) and p[0] == 'group']
        if g1 and g1 == g2:
            b1, t1 = hom_of(x)
            b2, t2 = hom_of(y)
            if t1 == t2 and b1 != b2:
                return FALSE
        return Sym(('eq', ) + tuple(sorted((tx, ty), key=repr)), 'bool')

    def contains(self, c, x, st):
        I = self.I
        if isinstance(c, Alt) or isinstance(x, Alt):
            return self.altcmp(lambda p, q: self.contains(p, q, st), c, x, st)
        if isinstance(c, TopV):
            return Alt([TRUE, FALSE])
        if isinstance(c, Ref):
            r = st.get(c.id)
            if isinstance(r, InstR):
                m = I.lookup_class(r.cls, '__contains__', st)
                if m is not None and not isinstance(m, Native):
                    v = I.call(m, [c, x], {}, st)
                    b = I.truth(v, st)
                    return v if b is None else Const(b)
                if r.payload is not None:
                    return self.contains(r.payload, x, st)
                try:
                    items = I.to_list(c, st)
                except Unsupported:
                    return Alt([TRUE, FALSE])
                return self.member(items, None, x, st)
            if isinstance(r, DictR):
                return self.has_key(c, r, x, st)
            if isinstance(r, ListR):
                return self.member(r.items, r.opaque, x, st)
        if isinstance(c, Tup):
            return self.member([(v, True) for v in c.items], None, x, st)
        if is_str(c) and is_str(x):
            if self.is_const(c, x):
                return Const(x.v in c.v)
            if x == Const(''):
                return TRUE
            ps = parts_of(c)
            if isinstance(x, Const):
                if any(isinstance(p, str) and x.v in p for p in ps):
                    return TRUE
                if len(x.v) == 1 and not any(
                        not isinstance(p, str) and can_contain(p, x.v)
                        for p in ps):
                    return FALSE
            if x in ps or x == c:
                return TRUE
            return Sym(('in', term_of(x), term_of(c)), 'bool')
        if isinstance(c, NType) or c == NONE or (isinstance(c, Const)
                                                 and not isinstance(
                                                     c.v, (str, bytes))):
            I.raise_native(st, TypeError, 'argument is not iterable')
        if isinstance(c, Sym) and c.kind in ('num', 'int', 'bool'):
            I.raise_native(st, TypeError, 'argument is not iterable')
        if isinstance(c, NObj) and c.kind == 'range' and isinstance(x, Const):
            return Const(x.v in range(*c.data))
        return Sym(('in', term_of(x), term_of(c)), 'bool')

    def member(self, items, op, x, st):
        unk = None
        nunk = 0
        for v, m in items:
            if v == x and isinstance(v, Ref):
                e, b = TRUE, True
            else:
                e = self.eq(v, x, st)
                b = self.I.truth(e, st)
            if b is True:
                if m:
                    return TRUE
                unk = Alt([TRUE, FALSE])
                nunk += 2
            elif b is None:
                unk = e
                nunk += 1
        if op is not None:
            return Alt([TRUE, FALSE])
        if unk is None:
            return FALSE
        if nunk == 1:
            return unk
        return Sym(('member', term_of(x)) + tuple(term_of(v) for v, _ in items),
                   'bool')

    def has_key(self, c, r, k, st):
        hit = self.find_key(r, k, st)
        kind, key = hit
        if kind == 'yes':
            e = r.d[key]
            if e[1]:
                return TRUE
            return Sym(('has', c.id, key), 'bool')
        if kind == 'no':
            return FALSE
        return Sym(('in', term_of(k), ('ref', c.id)), 'bool')

    def find_key(self, r, k, st):
        """('yes', key) | ('no', None) | ('maybe', [keys])"""
        if k in r.d:
            return 'yes', k
        if isinstance(k, Const):
            # 1 == 1.0 == True style keys: compare hosts
            for q in r.d:
                if isinstance(q, Const) and q.v == k.v:
                    return 'yes', q
        may = []
        for q in r.d:
            if isinstance(q, Const) and isinstance(k, Const):
                continue
            b = self.eq_b(q, k, st)
            if b is True:
                return 'yes', q
            if b is None:
                may.append(q)
        if may or r.opaque is not None:
            return 'maybe', may
        return 'no', None

    def order(self, op, a, b, st):
        I = self.I
        if isinstance(a, Alt) or isinstance(b, Alt):
            return self.altcmp(lambda x, y: self.order(op, x, y, st), a, b, st)
        if isinstance(a, TopV) or isinstance(b, TopV):
            return Alt([TRUE, FALSE])
        f = {'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y,
             'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y}[op]
        if isinstance(a, NObj) and a.kind == 'ver':
            if isinstance(b, Const) and isinstance(b.v, str):
                b = self.ver(b.v)
            if isinstance(b, NObj) and b.kind == 'ver':
                return Const(f(a.data[0], b.data[0]))
        try:
            return Const(f(self.hosts(st, a), self.hosts(st, b)))
        except ValueError:
            pass
        except TypeError as e:
            I.raise_native(st, TypeError, str(e))
        ua, ub = self.unlin(a), self.unlin(b)
        if ua and ub:
            # lengths are non-negative; symbols known non-empty count >= 1
            d = self.lin_cmp(ua, ub)
            if op in ('Gt', 'GtE', 'Lt', 'LtE') and d is not None:
                lo, hi = d  # bounds of a-b
                if op == 'Gt':
                    r = True if lo is not None and lo > 0 else (
                        False if hi is not None and hi <= 0 else None)
                elif op == 'GtE':
                    r = True if lo is not None and lo >= 0 else (
                        False if hi is not None and hi < 0 else None)
                elif op == 'Lt':
                    r = True if hi is not None and hi < 0 else (
                        False if lo is not None and lo >= 0 else None)
                else:
                    r = True if hi is not None and hi <= 0 else (
                        False if lo is not None and lo > 0 else None)
                if r is not None:
                    return Const(r)
        for x in (a, b):
            if isinstance(x, Ref) and isinstance(st.get(x.id), InstR):
                nm = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__',
                      'GtE': '__ge__'}[op]
                m = I.lookup_class(st.get(x.id).cls, nm, st)
                if m is not None and not isinstance(m, Native) and x is a:
                    return I.call(m, [a, b], {}, st)
        if isinstance(a, Ref) and isinstance(b, Ref):
            ra, rb = st.get(a.id), st.get(b.id)
            if isinstance(ra, ListR) and ra.kind == 'set' and isinstance(
                    rb, ListR):
                x, y = (ra, rb) if op in ('Lt', 'LtE') else (rb, ra)
                if x.opaque is None and y.opaque is None:
                    bs = [self.I.truth(self.member(y.items, None, v, st), st)
                          for v, _ in x.items]
                    if all(bs):
                        return Const(op in ('LtE', 'GtE')
                                     or len(x.items) < len(y.items))
                    if False in bs:
                        return FALSE
        return Sym((op, term_of(a), term_of(b)), 'bool')

    def lin_cmp(self, ua, ub):
        c = ua[0] - ub[0]
        ta, tb = list(ua[1]), list(ub[1])
        for t in list(ta):
            if t in tb:
                ta.remove(t)
                tb.remove(t)
        lo = c + len(ta) if not tb else None  # symbols are assumed non-empty
        hi = c - len(tb) if not ta else None
        return lo, hi

    # ------------------------------------------------------------ containers
    def list_append(self, st, ref, v):
        r = self.I.mut(st, ref)
        if r.opaque is not None:
            r.opaque = jv(r.opaque, v)
        else:
            r.items.append((v, True))

    def list_extend(self, st, ref, v):
        l = self.I.to_listrec(v, st)
        src = st.get(l.id)
        r = self.I.mut(st, ref)
        if src.opaque is not None or r.opaque is not None:
            op = jopt(r.opaque, src.opaque)
            for x, _ in src.items:
                op = jopt(op, x)
            if r.opaque is None:
                for x, _ in r.items:
                    op = jopt(op, x)
                r.items = []
            r.opaque = op
        else:
            r.items.extend(src.items)

    def set_add(self, st, ref, v):
        r = self.I.mut(st, ref)
        unk = False
        for x, m in r.items:
            b = self.eq_b(x, v, st)
            if b is True and m:
                return
            if b is not False:
                unk = True
        r.items.append((v, not unk))

    def set_update(self, st, ref, v):
        items, op = self.I.elements(v, st)
        for x, m in items:
            if m:
                self.set_add(st, ref, x)
            else:
                r = self.I.mut(st, ref)
                r.items.append((x, False))
        if op is not None:
            r = self.I.mut(st, ref)
            r.opaque = jopt(r.opaque, op)

    def dict_set(self, st, ref, k, v, must=True):
        I = self.I
        if isinstance(k, Alt):
            for o in sorted(k.opts, key=repr):
                self.dict_set(st, ref, o, v, False)
            return
        r = I.mut(st, ref)
        if isinstance(k, TopV):
            r.opaque = jopt(r.opaque, v)
            return
        if isinstance(k, Ref) and isinstance(st.get(k.id), (ListR, DictR)):
            I.raise_native(st, TypeError, 'unhashable')
        kind, key = self.find_key(r, k, st)
        if kind == 'yes':
            old = r.d[key]
            if must:
                r.d[key] = (v, True, I.loc())
            else:
                r.d[key] = (jv(old[0], v), old[1], I.loc())
        else:
            if kind == 'maybe':
                for q in key:
                    old = r.d[q]
                    if isinstance(k, Sym) and isinstance(q, Sym) or True:
                        # the write may hit the other key
                        r.d[q] = (jv(old[0], v), old[1], old[2])
            r.d[k] = (v, must, I.loc())

    def dict_update(self, st, ref, args, kwargs):
        I = self.I
        for a in args:
            if isinstance(a, Alt):
                outs = []
                res = None
                for o in sorted(a.opts, key=repr):
                    s2 = st.fork()
                    try:
                        self.dict_update(s2, ref, [o], {})
                    except Dead:
                        continue
                    res = join_states(res, s2)
                if res is None:
                    raise Dead()
                st.become(res)
                continue
            if isinstance(a, TopV):
                r = I.mut(st, ref)
                r.opaque = jopt(r.opaque, a)
                continue
            src = None
            if isinstance(a, Ref):
                ra = st.get(a.id)
                if isinstance(ra, InstR):
                    if ra.payload is not None:
                        a = ra.payload
                        ra = st.get(a.id)
                    else:
                        km = I.lookup_class(ra.cls, 'keys', st)
                        if km is not None:
                            ks = I.to_list(I.call(I.getattr(a, 'keys', st), [],
                                                  {}, st), st)
                            for k, m in ks:
                                self.dict_set(st, ref, k,
                                              I.getitem(a, k, st), m)
                            continue
                if isinstance(ra, DictR):
                    src = ra
            if src is not None:
                for k, e in list(src.d.items()):
                    r = st.get(ref.id)
                    if e[1]:
                        self.dict_set(st, ref, k, e[0])
                        w = I.mut(st, ref)
                        kk = self.find_key(w, k, st)[1]
                        if kk in w.d:
                            w.d[kk] = (w.d[kk][0], w.d[kk][1], e[2])
                    else:
                        self.dict_set(st, ref, k, e[0], False)
                if src.opaque is not None:
                    w = I.mut(st, ref)
                    w.opaque = jopt(w.opaque, src.opaque)
                continue
            # iterable of pairs

            def cb(s, p):
                if isinstance(p, TopV):
                    w = I.mut(s, ref)
                    w.opaque = jopt(w.opaque, p)
                    return s
                try:
                    kv = I.to_list(p, s)
                except Unsupported:
                    w = I.mut(s, ref)
                    w.opaque = I.top('pair')
                    return s
                self.dict_set(s, ref, kv[0][0], kv[1][0])
                return s

            fin = I.iterate(a, st, cb)
            if fin is None:
                raise Dead()
            if fin is not st:
                st.become(fin)
        for k, v in kwargs.items():
            self.dict_set(st, ref, Const(k), v)

    def getitem(self, o, k, st, self_=None):
        I = self.I
        if isinstance(o, Tup):
            if isinstance(k, NObj) and k.kind == 'slice':
                try:
                    sl = slice(*[x.v for x in k.data])
                    return Tup(o.items[sl])
                except AttributeError:
                    return I.top('tuple slice')
            if isinstance(k, Const) and isinstance(k.v, int):
                try:
                    return o.items[k.v]
                except IndexError:
                    I.raise_native(st, IndexError, 'tuple index')
            if isinstance(k, Const):
                I.raise_native(st, TypeError, 'tuple indices')
            r = None
            for x in o.items:
                r = x if r is None else jv(r, x)
            return r if r is not None else I.top('tuple index')
        if is_str(o):
            if isinstance(k, NObj) and k.kind == 'slice':
                lo, hi, step = k.data
                if isinstance(o, Const) and all(
                        isinstance(x, Const) for x in k.data):
                    return Const(o.v[slice(lo.v, hi.v, step.v)])
                if step == NONE:
                    return self.slice_str(o, lo, hi, st)
                return self.app('slice', [o, lo, hi, step], 'str')
            if isinstance(k, Const) and isinstance(k.v, int):
                if isinstance(o, Const):
                    try:
                        return Const(o.v[k.v])
                    except IndexError:
                        I.raise_native(st, IndexError, 'string index')
                ps = parts_of(o)
                p = ps[0] if k.v >= 0 else ps[-1]
                if isinstance(p, str) and (-len(p) <= k.v < len(p)):
                    return Const(p[k.v])
                return self.app('char', [o, k], 'str', ['truthy'])
            return self.app('char', [o, k], 'str')
        if isinstance(o, Ref):
            r = st.get(o.id)
            if isinstance(r, ListR):
                return self.list_getitem(o, r, k, st)
            if isinstance(r, DictR):
                return self.dict_getitem(o, r, k, st, self_)
            if isinstance(r, ClassR):
                m = I.lookup_class(o, '__class_getitem__', st)
                return o
        if isinstance(o, TopV):
            return o
        if isinstance(o, Sym) and o.kind == 'any':
            return self.app('item', [o, k])
        if isinstance(o, NObj) and o.kind == 'match':
            return self.call_nobj_method(o, 'group', [k], {}, st)
        if isinstance(o, NType):
            return o
        if isinstance(o, Const) and isinstance(o.v, bytes):
            return I.top('bytes index')
        I.raise_native(st, TypeError, 'not subscriptable: %r' % (o, ))

    def list_getitem(self, o, r, k, st):
        I = self.I
        if isinstance(k, NObj) and k.kind == 'slice':
            if all(isinstance(x, Const) for x in k.data) and r.opaque is None \
                    and all(m for _, m in r.items):
                return I.alloc(st, ListR(r.items[slice(*[x.v for x in k.data])],
                                         None, r.kind))
            e = r.opaque
            for x, _ in r.items:
                e = jopt(e, x)
            if k.data == (NONE, NONE, NONE):
                return I.alloc(st, r.clone())
            return I.alloc(st, ListR([], e if e is not None else TopV('?')))
        if isinstance(k, Const) and not isinstance(k.v, int):
            I.raise_native(st, TypeError, 'list indices must be integers')
        if is_str(k):
            I.raise_native(st, TypeError, 'list indices must be integers')
        if isinstance(k, Const) and r.opaque is None:
            ms = [m for _, m in r.items]
            if all(ms):
                try:
                    return r.items[k.v][0]
                except IndexError:
                    I.raise_native(st, IndexError, 'list index out of range')
            if 0 <= k.v < len(ms):
                if all(ms[:k.v + 1]):
                    return r.items[k.v][0]
                c = [v for v, _ in r.items[:]]
                if all(ms[:k.v]):
                    I.raise_native(st, IndexError, 'list index', maybe=True)
                    v = None
                    for x, m in r.items[k.v:]:
                        v = jopt(v, x)
                        if m:
                            break
                    return v
        vals = [v for v, _ in r.items]
        e = r.opaque
        for x in vals:
            e = jopt(e, x)
        if e is None:
            I.raise_native(st, IndexError, 'list index out of range')
        I.raise_native(st, IndexError, 'list index', maybe=True)
        return e

    def dict_getitem(self, o, r, k, st, self_=None):
        I = self.I
        kind, key = self.find_key(r, k, st)
        if kind == 'yes':
            e = r.d[key]
            if not e[1]:
                I.raise_native(st, KeyError, k, maybe=True)
                w = st.mut(o.id)
                w.d[key] = (e[0], True, e[2])
            return e[0]
        if kind == 'no':
            if r.default is not None:
                v = I.call(r.default, [], {}, st)
                self.dict_set(st, o, k, v)
                return v
            if self_ is not None:
                m = I.lookup_class(st.get(self_.id).cls, '__missing__', st)
                if m is not None and not isinstance(m, Native):
                    return I.call(m, [self_, k], {}, st)
            I.raise_native(st, KeyError, k)
        v = r.opaque
        for q in key:
            v = jopt(v, r.d[q][0])
        I.raise_native(st, KeyError, k, maybe=True)
        return v

    def setitem(self, o, k, v, st):
        I = self.I
        if isinstance(o, Ref):
            r = st.get(o.id)
            if isinstance(r, DictR):
                return self.dict_set(st, o, k, v)
            if isinstance(r, ListR):
                w = I.mut(st, o)
                if isinstance(k, Const) and isinstance(
                        k.v, int) and w.opaque is None:
                    try:
                        w.items[k.v] = (v, True)
                        return
                    except IndexError:
                        I.raise_native(st, IndexError, 'assignment index')
                if isinstance(k, NObj) and k.kind == 'slice':
                    l = I.to_listrec(v, st)
                    if all(isinstance(x, Const) for x in k.data):
                        w = I.mut(st, o)
                        w.items[slice(*[x.v for x in k.data])] = st.get(
                            l.id).items
                        return
                w.opaque = jopt(w.opaque, v)
                return
        if isinstance(o, TopV):
            I.tops.append('item write on unknown object at ' + I.loc())
            return
        I.raise_native(st, TypeError, 'no item assignment: %r' % (o, ))

    def delitem(self, o, k, st):
        I = self.I
        if isinstance(o, Ref):
            r = st.get(o.id)
            if isinstance(r, DictR):
                kind, key = self.find_key(r, k, st)
                if kind == 'yes':
                    if not r.d[key][1]:
                        I.raise_native(st, KeyError, k, maybe=True)
                    del I.mut(st, o).d[key]
                    return
                if kind == 'no':
                    I.raise_native(st, KeyError, k)
                w = I.mut(st, o)
                for q in key:
                    e = w.d[q]
                    w.d[q] = (e[0], False, e[2])
                I.raise_native(st, KeyError, k, maybe=True)
                return
            if isinstance(r, ListR):
                w = I.mut(st, o)
                if isinstance(k, Const):
                    try:
                        del w.items[k.v]
                        return
                    except IndexError:
                        I.raise_native(st, IndexError, 'del index')
                if isinstance(k, NObj) and k.kind == 'slice' and all(
                        isinstance(x, Const) for x in k.data):
                    del w.items[slice(*[x.v for x in k.data])]
                    return
        I.tops.append('del on unknown at ' + I.loc())

    DICTM = ('get setdefault update items keys values pop popitem copy clear '
             '__getitem__ __setitem__ __contains__ __iter__ __len__ __delitem__ '
             'iteritems itervalues iterkeys has_key fromkeys move_to_end '
             '__init__ __eq__ __repr__ __str__ viewitems').split()

    def dict_method(self, name, st, o, a, k):
        I = self.I
        if name in ('get', 'pop', 'setdefault') and a and isinstance(a[0], Alt):
            return I.join_eval([
                (lambda s, x=x: self.dict_method(name, s, o, [x] + list(a[1:]),
                                                 k))
                for x in sorted(a[0].opts, key=repr)
            ], st)
        r = st.get(o.id)
        if name == 'get':
            d = a[1] if len(a) > 1 else k.get('default', NONE)
            if isinstance(a[0], TopV):
                v = r.opaque
                for e in r.d.values():
                    v = jopt(v, e[0])
                return jopt(v, d)
            kind, key = self.find_key(r, a[0], st)
            if kind == 'yes':
                e = r.d[key]
                return e[0] if e[1] else jv(e[0], d)
            if kind == 'no':
                return d
            v = r.opaque
            for q in key:
                v = jopt(v, r.d[q][0])
            return jopt(v, d)
        if name == 'setdefault':
            d = a[1] if len(a) > 1 else k.get('default', NONE)
            kind, key = self.find_key(r, a[0], st)
            if kind == 'yes':
                e = r.d[key]
                if e[1]:
                    return e[0]
                w = I.mut(st, o)
                v = jv(e[0], d)
                w.d[key] = (v, True, I.loc())
                return v
            if kind == 'no':
                self.dict_set(st, o, a[0], d)
                return d
            v = d
            for q in key:
                v = jv(v, r.d[q][0])
            if r.opaque is not None:
                v = jv(v, r.opaque)
            w = I.mut(st, o)
            w.d[a[0]] = (v, False, I.loc())
            return v
        if name in ('update', '__init__'):
            self.dict_update(st, o, a, k)
            return NONE
        if name in ('items', 'iteritems', 'viewitems'):
            return I.alloc(st, ListR([(Tup([q, e[0]]), e[1])
                                      for q, e in r.d.items()],
                                     Tup([TopV('key'), r.opaque])
                                     if r.opaque is not None else None,
                                     'iter' if name == 'iteritems' else 'view'
                                     if False else 'list'))
        if name in ('keys', 'iterkeys', '__iter__'):
            return I.alloc(st, ListR([(q, e[1]) for q, e in r.d.items()],
                                     I.top('unknown keys')
                                     if r.opaque is not None else None,
                                     'set' if name == 'keys' else 'iter'))
        if name in ('values', 'itervalues'):
            return I.alloc(st, ListR([(e[0], e[1]) for q, e in r.d.items()],
                                     r.opaque))
        if name == 'pop':
            kind, key = self.find_key(r, a[0], st)
            d = a[1] if len(a) > 1 else None
            if kind == 'yes':
                e = r.d[key]
                del I.mut(st, o).d[key]
                if e[1]:
                    return e[0]
                if d is None:
                    I.raise_native(st, KeyError, a[0], maybe=True)
                    return e[0]
                return jv(e[0], d)
            if kind == 'no':
                if d is None:
                    I.raise_native(st, KeyError, a[0])
                return d
            w = I.mut(st, o)
            v = d
            for q in key:
                e = w.d[q]
                v = jopt(v, e[0])
                w.d[q] = (e[0], False, e[2])
            if r.opaque is not None:
                v = jopt(v, r.opaque)
            if d is None:
                I.raise_native(st, KeyError, a[0], maybe=True)
            return v
        if name == 'copy':
            return I.alloc(st, r.clone())
        if name == 'clear':
            w = I.mut(st, o)
            w.d = {}
            w.opaque = None
            return NONE
        if name == '__getitem__':
            return self.dict_getitem(o, r, a[0], st)
        if name == '__setitem__':
            self.dict_set(st, o, a[0], a[1])
            return NONE
        if name == '__delitem__':
            self.delitem(o, a[0], st)
            return NONE
        if name in ('__contains__', 'has_key'):
            return self.has_key(o, r, a[0], st)
        if name == '__len__':
            return self.f_len(st, [o], {})
        if name == '__eq__':
            return self.eq(o, a[0], st)
        if name == 'popitem':
            if not r.d:
                I.raise_native(st, KeyError, 'popitem')
            q = list(r.d)[-1]
            e = r.d[q]
            del I.mut(st, o).d[q]
            return Tup([q, e[0]])
        if name == 'fromkeys':
            n = I.new_dict(st)
            for x, m in I.to_list(a[0], st):
                self.dict_set(st, n, x, a[1] if len(a) > 1 else NONE)
            return n
        if name == 'move_to_end':
            w = I.mut(st, o)
            kind, key = self.find_key(w, a[0], st)
            if kind == 'yes':
                e = w.d.pop(key)
                w.d[key] = e
            return NONE
        return I.top('dict.' + name)

    LISTM = ('append extend pop insert remove index count sort reverse copy '
             'clear add discard update union intersection difference '
             'symmetric_difference issubset issuperset isdisjoint popleft '
             'appendleft extendleft __len__ __iter__ __contains__ __getitem__ '
             '__next__ difference_update intersection_update __init__ '
             'next __setitem__ __reversed__ __eq__ __add__').split()

    def list_method(self, name, st, o, a, k):
        I = self.I
        r = st.get(o.id)
        if name == 'append':
            self.list_append(st, o, a[0])
            return NONE
        if name in ('add', ):
            self.set_add(st, o, a[0])
            return NONE
        if name == 'extend':
            self.list_extend(st, o, a[0])
            return NONE
        if name == 'update':
            for x in a:
                self.set_update(st, o, x)
            return NONE
        if name in ('pop', 'popleft'):
            w = I.mut(st, o)
            i = a[0] if a else Const(0 if name == 'popleft' else -1)
            if r.kind == 'set':
                if not w.items:
                    I.raise_native(st, KeyError, 'pop from empty set')
                return w.items.pop()[0]
            if w.opaque is not None:
                v = w.opaque
                for x, _ in w.items:
                    v = jv(v, x)
                I.raise_native(st, IndexError, 'pop', maybe=True)
                return v
            if not isinstance(i, Const):
                return I.top('pop index')
            if not w.items:
                I.raise_native(st, IndexError, 'pop from empty list')
            if not w.items[i.v][1] if -len(w.items) <= i.v < len(
                    w.items) else False:
                w.opaque = None
                v = None
                for x, _ in w.items:
                    v = jopt(v, x)
                I.raise_native(st, IndexError, 'pop', maybe=True)
                w.items.pop(i.v)
                return v
            try:
                return w.items.pop(i.v)[0]
            except IndexError:
                I.raise_native(st, IndexError, 'pop index out of range')
        if name == 'insert':
            w = I.mut(st, o)
            if isinstance(a[0], Const) and w.opaque is None:
                w.items.insert(a[0].v, (a[1], True))
            else:
                w.opaque = jopt(w.opaque, a[1])
            return NONE
        if name == 'appendleft':
            I.mut(st, o).items.insert(0, (a[0], True))
            return NONE
        if name in ('remove', 'discard'):
            w = I.mut(st, o)
            for i, (x, m) in enumerate(w.items):
                b = self.eq_b(x, a[0], st)
                if b is True:
                    del w.items[i]
                    return NONE
                if b is None:
                    w.items[i] = (x, False)
            if name == 'remove':
                I.raise_native(st, ValueError, 'remove', maybe=any(
                    not m for _, m in w.items) or w.opaque is not None)
            return NONE
        if name == 'index':
            for i, (x, m) in enumerate(r.items):
                b = self.eq_b(x, a[0], st)
                if b is True and all(m for _, m in r.items[:i + 1]):
                    return Const(i)
                if b is None:
                    return self.app('list.index', [o, a[0]], 'int')
            if r.opaque is not None:
                return self.app('list.index', [o, a[0]], 'int')
            I.raise_native(st, ValueError, 'not in list')
        if name == 'count':
            n = 0
            for x, m in r.items:
                b = self.eq_b(x, a[0], st)
                if b is None or not m or r.opaque is not None:
                    return self.app('list.count', [o, a[0]], 'int')
                n += 1 if b else 0
            return Const(n)
        if name == 'sort':
            s = self.f_sorted(st, [o], k)
            w = I.mut(st, o)
            w.items = list(st.get(s.id).items)
            return NONE
        if name == 'reverse':
            w = I.mut(st, o)
            w.items = w.items[::-1]
            return NONE
        if name == 'copy':
            return I.alloc(st, r.clone())
        if name == 'clear':
            w = I.mut(st, o)
            w.items, w.opaque = [], None
            return NONE
        if name in ('union', 'intersection', 'difference',
                    'symmetric_difference'):
            op = {'union': '|', 'intersection': '&', 'difference': '-',
                  'symmetric_difference': '^'}[name]
            cur = I.alloc(st, r.clone())
            for x in a:
                cur = self.set_op(op, cur, I.to_listrec(x, st, 'set'), st)
            return cur
        if name in ('difference_update', 'intersection_update'):
            n = self.set_op('-' if name[0] == 'd' else '&', o,
                            I.to_listrec(a[0], st, 'set'), st)
            w = I.mut(st, o)
            w.items = list(st.get(n.id).items)
            return NONE
        if name in ('issubset', 'issuperset'):
            return self.order('LtE' if name == 'issubset' else 'GtE', o,
                              I.to_listrec(a[0], st, 'set'), st)
        if name == 'isdisjoint':
            n = self.set_op('&', o, I.to_listrec(a[0], st, 'set'), st)
            b = I.truth(n, st)
            return Const(not b) if b is not None else Alt([TRUE, FALSE])
        if name == '__len__':
            return self.f_len(st, [o], {})
        if name == '__iter__':
            return o if r.kind == 'iter' else I.alloc(
                st, ListR(r.items, r.opaque, 'iter'))
        if name == '__contains__':
            return self.member(r.items, r.opaque, a[0], st)
        if name == '__getitem__':
            return self.list_getitem(o, r, a[0], st)
        if name == '__setitem__':
            self.setitem(o, a[0], a[1], st)
            return NONE
        if name in ('__next__', 'next'):
            return self.f_next(st, [o], {})
        if name == '__init__':
            if a:
                self.list_extend(st, o, a[0])
            return NONE
        if name == '__eq__':
            return self.eq(o, a[0], st)
        return I.top('list.' + name)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, st):
        """attribute of a non-heap value or builtin container; None if absent"""
        I = self.I
        if is_str(o) or (isinstance(o, Const) and isinstance(o.v, bytes)):
            if name in self.STRM or (isinstance(o, Const) and isinstance(
                    o.v, bytes) and hasattr(bytes, name)):
                return Native('str.' + name,
                              lambda i, s, a, k: self.str_method(
                                  name, s, a[0], a[1:], k), o)
            if name == '__class__':
                return NType(str if is_str(o) else bytes)
            if hasattr(str, name):
                return Native('str.' + name, lambda i, s, a, k: I.top(
                    'str.' + name), o)
            return None
        if isinstance(o, Ref):
            r = st.get(o.id)
            if isinstance(r, DictR):
                if name in self.DICTM and name not in (
                        'iteritems', 'itervalues', 'iterkeys', 'has_key',
                        'viewitems') and (name != 'move_to_end'):
                    return Native('dict.' + name,
                                  lambda i, s, a, k: self.dict_method(
                                      name, s, a[0], a[1:], k), o)
                if name == '__class__':
                    return NType(dict)
                if hasattr(dict, name) or name == 'move_to_end':
                    return Native('dict.' + name, lambda i, s, a, k: self.
                                  dict_method(name, s, a[0], a[1:], k), o)
                return None
            if isinstance(r, ListR):
                if name == '__class__':
                    return I.type_of(o, st)
                host = {'list': list, 'set': set, 'iter': type(iter([])),
                        'deque': collections.deque,
                        'frozenset': frozenset}[r.kind]
                if name in self.LISTM and hasattr(host, name):
                    return Native('list.' + name,
                                  lambda i, s, a, k: self.list_method(
                                      name, s, a[0], a[1:], k), o)
                return None
            if isinstance(r, GenR):
                if name in ('__next__', 'next'):
                    return Native('gen.next', lambda i, s, a, k: self.f_next(
                        s, a, k), o)
                if name == 'close':
                    return Native('gen.close', lambda i, s, a, k: NONE, o)
                return None
        if isinstance(o, NMod):
            return self.mod_attr(o, name, st)
        if isinstance(o, NType):
            return self.ntype_attr(o, name, st)
        if isinstance(o, PropV):
            if name in ('fget', 'fset', 'fdel'):
                return getattr(o, name)
            if name in ('setter', 'getter', 'deleter'):

                def mk(i, s, a, k):
                    p = PropV(o.fget, o.fset, o.fdel)
                    setattr(p, {'setter': 'fset', 'getter': 'fget',
                                'deleter': 'fdel'}[name], a[0])
                    return p

                return Native('property.' + name, mk)
            return None
        if isinstance(o, Wrap):
            if name == '__func__':
                return o.func
            return None
        if isinstance(o, Tup):
            if o.names and name in o.names:
                return o.items[o.names.index(name)]
            if name == '__class__':
                return NType(tuple)
            if name == '_replace' and o.names:
                def rep(i, s, a, k):
                    items = list(o.items)
                    for n, v in k.items():
                        items[o.names.index(n)] = v
                    return Tup(items, o.names)

                return Native('tuple._replace', rep)
            if name == 'geturl' and o.names:
                return Native('geturl', lambda i, s, a, k: self.urlunparse(
                    s, o))
            if name == 'index':
                return Native('tuple.index', lambda i, s, a, k: Const(
                    o.items.index(a[0])))
            if name == 'count':
                return Native('tuple.count', lambda i, s, a, k: Const(
                    o.items.count(a[0])))
            if o.names and name in ('hostname', 'port', 'username'):
                return self.app('url.' + name, [o], 'any')
            return None
        if isinstance(o, NObj):
            return self.nobj_attr(o, name, st)
        if isinstance(o, Native):
            if name == '__name__':
                return Const(o.name.rsplit('.', 1)[-1])
            if name == '__func__':
                return Native(o.name, o.fn)
            if name == '__self__' and o.self_ is not None:
                return o.self_
            if name == '__doc__':
                return NONE
            return None
        if isinstance(o, Sym):
            if name == '__class__':
                t = I.type_of(o, st)
                return t if t is not None else Sym(('class', o.term), 'any')
            host = {'num': float, 'int': int, 'bool': bool}.get(o.kind)
            if host is not None:
                if not hasattr(host, name):
                    return None
                return I.top('attribute of number')
            if 'obj' in o.props:
                return Sym(('attr', o.term, ('c', name)), 'any',
                           frozenset(['obj']))
            # an opaque JSON value has no project-defined attributes
            if name in ('get', 'items', 'keys', 'values', 'append', 'copy',
                        'dump', 'pop', 'setdefault', 'update', 'lower', 'upper',
                        'split', 'startswith', 'endswith', 'replace'):
                if name == 'dump':
                    return None
                return Native('any.' + name, lambda i, s, a, k: self.app(
                    'any.' + name, a), o)
            return None
        if isinstance(o, Const):
            if name == '__class__':
                return NType(type(o.v))
            if hasattr(o.v, name):
                x = getattr(o.v, name)
                if callable(x):
                    def hostcall(i, s, a, k):
                        try:
                            return self.lift(s, x(*[self.hosts(s, y)
                                                    for y in a]))
                        except ValueError:
                            return I.top('method of constant')
                    return Native('const.' + name, hostcall)
                return Const(x)
            return None
        if isinstance(o, TopV):
            return o
        if isinstance(o, WithMeta):
            return I.getattr(o.bases[0], name, st) if o.bases else None
        return None

    def type_attr(self, t, name):
        """attribute of builtin type t found through an MRO walk"""
        if t.host is object:
            if name in ('__init__', '__new__', '__eq__', '__ne__', '__hash__',
                        '__setattr__', '__getattribute__', '__repr__',
                        '__str__'):
                return Native('object.' + name, self.object_init)
            return None
        if t.host is type:
            if name == '__new__':
                return Native('type.__new__', self.type_dunder_new)
            if name == '__init__':
                return Native('object.__init__', self.object_init)
            if name == '__call__':
                return Native('type.__call__', lambda I, st, a, k: I.call(
                    a[0], a[1:], k, st))
            return None
        if issubclass(t.host, dict) and name in self.DICTM:
            def dm(I, st, a, k):
                o = a[0]
                if isinstance(o, Ref):
                    r = st.get(o.id)
                    if isinstance(r, InstR) and r.payload is not None:
                        return self.dict_method(name, st, r.payload, a[1:], k)
                    return self.dict_method(name, st, o, a[1:], k)
                return I.top('dict.' + name)
            return Native('dict.' + name, dm)
        if issubclass(t.host, list) and name in self.LISTM:
            def lm(I, st, a, k):
                o = a[0]
                if isinstance(o, Ref):
                    r = st.get(o.id)
                    if isinstance(r, InstR) and r.payload is not None:
                        return self.list_method(name, st, r.payload, a[1:], k)
                    return self.list_method(name, st, o, a[1:], k)
                return I.top('list.' + name)
            return Native('list.' + name, lm)
        if issubclass(t.host, BaseException):
            if name == '__init__':
                def ei(I, st, a, k):
                    if isinstance(a[0], Ref):
                        I.mut(st, a[0]).attrs['args'] = Tup(a[1:])
                    return NONE
                return Native('exc.__init__', ei)
            if name == '__str__':
                return None
            if name == 'with_traceback':
                return Native('with_traceback', lambda I, st, a, k: a[0])
        return None

    def object_init(self, I, st, a, k):
        return NONE

    def type_dunder_new(self, I, st, a, k):
        if len(a) >= 4:
            nm = a[1].v if isinstance(a[1], Const) else '?'
            bases = [x for x, _ in I.to_list(a[2], st)]
            return I.type_new(a[0], nm, bases, a[3], st)
        # object.__new__(cls)
        c = a[0]
        return I.bare_instance(c, st.get(c.id), a[1:], k, st)

    def ntype_attr(self, o, name, st):
        I = self.I
        if name == '__name__':
            return Const(o.name)
        if name == '__mro__':
            return Tup([NType(h) for h in o.host.__mro__])
        if name == '__module__':
            return Const(o.host.__module__)
        if name == '__class__':
            return NType(type)
        v = self.type_attr(o, name)
        if v is not None:
            return v
        if o.host is str and name in self.STRM:
            return Native('str.' + name, lambda i, s, a, k: self.str_method(
                name, s, a[0], a[1:], k))
        if issubclass(o.host, dict) and name == 'fromkeys':
            return Native('dict.fromkeys', lambda i, s, a, k: self.dict_method(
                'fromkeys', s, i.new_dict(s), a, k))
        if o.host in (set, frozenset, collections.deque) and name in self.LISTM:
            return Native('set.' + name, lambda i, s, a, k: self.list_method(
                name, s, a[0], a[1:], k))
        if o.host.__module__ == 'itertools' and name == 'from_iterable':
            def fi(i, s, a, k):
                out = i.new_list(s, (), 'iter')
                for x, _ in i.to_list(a[0], s):
                    self.list_extend(s, out, x)
                return out
            return Native('from_iterable', fi)
        if hasattr(o.host, name):
            return Native('%s.%s' % (o.name, name), lambda i, s, a, k: i.top(
                '%s.%s' % (o.name, name)))
        return None

    # ------------------------------------------------------------ construct
    def construct(self, t, a, k, st):
        I = self.I
        h = t.host
        if h is type:
            if len(a) == 1:
                x = I.type_of(a[0], st)
                if x is None:
                    if isinstance(a[0], Alt):
                        ts = [I.type_of(o, st) for o in a[0].opts]
                        if None not in ts:
                            return jv(ts[0], Alt(ts)) if len(
                                set(ts)) > 1 else ts[0]
                    if isinstance(a[0], TopV):
                        return a[0]
                    return Sym(('type', term_of(a[0])), 'any')
                return x
            return I.make_class(None, a[0].v if isinstance(a[0], Const) else
                                '?', [x for x, _ in I.to_list(a[1], st)], a[2],
                                st)
        if h is dict or h is collections.OrderedDict:
            r = I.new_dict(st)
            self.dict_update(st, r, a, k)
            return r
        if h is collections.defaultdict:
            r = I.new_dict(st)
            self.dict_update(st, r, a[1:], k)
            if a and a[0] != NONE:
                st.mut(r.id).default = a[0]
            return r
        if h is list:
            return I.to_listrec(a[0], st) if a else I.new_list(st)
        if h in (set, frozenset):
            r = I.new_list(st, (), 'set')
            if a:
                l = I.to_listrec(a[0], st)
                self.set_update(st, r, l)
            return r
        if h is collections.deque:
            return I.to_listrec(a[0], st, 'deque') if a else I.new_list(
                st, (), 'deque')
        if h is tuple:
            if not a:
                return Tup([])
            try:
                l = I.to_list(a[0], st)
            except Unsupported:
                return I.top('tuple of unknown')
            if any(not m for _, m in l):
                return I.top('tuple of partially known')
            return Tup([v for v, _ in l])
        if h is str:
            if not a:
                return Const('')
            return self.str_(a[0], st)
        if h is bool:
            b = I.truth(a[0], st) if a else False
            if b is None:
                if isinstance(a[0], (Alt, TopV)):
                    return Alt([TRUE, FALSE])
                return Sym(('not', ('not', term_of(a[0]))), 'bool')
            return Const(b)
        if h in (int, float):
            if not a:
                return Const(h())
            v = a[0]
            if isinstance(v, Alt):
                return I.join_eval([
                    (lambda s, o=o: self.construct(t, [o], k, s))
                    for o in sorted(v.opts, key=repr)
                ], st)
            if isinstance(v, Const):
                try:
                    return Const(h(v.v))
                except (ValueError, TypeError) as e:
                    I.raise_native(st, type(e), str(e))
            if isinstance(v, TopV):
                return v
            if isinstance(v, Ref):
                I.raise_native(st, TypeError, 'int() argument')
            if is_str(v):
                if not (isinstance(v, Sym) and 'numeric' in v.props):
                    I.raise_native(st, ValueError, 'not a number', maybe=True)
            return Sym((t.name, term_of(v)), 'int' if h is int else 'num')
        if h is bytes:
            return I.top('bytes')
        if h is property:
            f = list(a) + [NONE] * 3
            return PropV(k.get('fget', f[0]), k.get('fset', f[1]),
                         k.get('fdel', f[2]))
        if h in (classmethod, staticmethod):
            return Wrap(t.name, a[0])
        if h is super:
            if len(a) == 2:
                return SuperV(a[0], a[1])
            return I.top('super')
        if h is object:
            return I.alloc(st, InstR(NType(object), {}, None, I.loc()))
        if h is range:
            try:
                return NObj('range', tuple(self.host(x) for x in a))
            except ValueError:
                return I.alloc(st, ListR([], self.app('range', a, 'int'),
                                         'iter'))
        if h is enumerate:
            start = a[1] if len(a) > 1 else k.get('start', Const(0))
            src = a[0]
            if isinstance(src, Ref) and isinstance(st.get(src.id), GenR):
                def run(s, cb):
                    n = [0]

                    def c2(s2, v):
                        i = Const(start.v + n[0])
                        n[0] += 1
                        return cb(s2, Tup([i, v]))
                    return I.iterate(src, s, c2)
                return I.alloc(st, GenR(run))
            l = I.to_listrec(src, st)
            r = st.get(l.id)
            items = []
            i = start.v if isinstance(start, Const) else 0
            sure = True
            for v, m in r.items:
                items.append((Tup([Const(i) if sure else I.top('index'), v]), m))
                i += 1
                if not m:
                    sure = False
            op = None
            if r.opaque is not None:
                op = Tup([Sym(('idx', I.nextid), 'int'), r.opaque])
            return I.alloc(st, ListR(items, op, 'iter'))
        if h is zip or t.name == 'zip_longest':
            ls = [st.get(I.to_listrec(x, st).id) for x in a]
            if any(l.opaque is not None for l in ls):
                return I.alloc(st, ListR([], Tup([
                    jopt(l.opaque, None) if not l.items else I.top('zip')
                    for l in ls]), 'iter'))
            n = (max if t.name == 'zip_longest' else min)(
                [len(l.items) for l in ls] or [0])
            out = []
            for i in range(n):
                row = [l.items[i] if i < len(l.items) else
                       (k.get('fillvalue', NONE), True) for l in ls]
                if any(not m for _, m in row):
                    # alignment is only known while all previous are definite
                    out.append((Tup([x for x, _ in row]), False))
                else:
                    out.append((Tup([x for x, _ in row]), True))
            return I.alloc(st, ListR(out, None, 'iter'))
        if h is map:
            out = I.new_list(st, (), 'list')
            if len(a) == 2:
                def cb(s, v):
                    try:
                        x = I.call(a[0], [v], {}, s)
                    except Dead:
                        return None
                    self.list_append(s, out, x)
                    return s
                fin = I.iterate(a[1], st, cb)
            else:
                z = self.construct(NType(zip), a[1:], {}, st)

                def cb(s, v):
                    try:
                        x = I.call(a[0], list(v.items), {}, s)
                    except Dead:
                        return None
                    self.list_append(s, out, x)
                    return s
                fin = I.iterate(z, st, cb)
            if fin is None:
                raise Dead()
            if fin is not st:
                st.become(fin)
            I.mut(st, out).kind = 'iter'
            return out
        if h is filter:
            out = I.new_list(st, (), 'list')

            def cb(s, v):
                try:
                    x = v if a[0] == NONE else I.call(a[0], [v], {}, s)
                    b = I.truth(x, s)
                except Dead:
                    return None
                if b is True:
                    self.list_append(s, out, v)
                elif b is None:
                    self.list_append(s, out, v)
                    w = I.mut(s, out)
                    if w.items:
                        w.items[-1] = (v, False)
                return s

            fin = I.iterate(a[1], st, cb)
            if fin is None:
                raise Dead()
            if fin is not st:
                st.become(fin)
            I.mut(st, out).kind = 'iter'
            return out
        if h is reversed:
            l = I.to_listrec(a[0], st)
            w = I.mut(st, l)
            w.items = w.items[::-1]
            w.kind = 'iter'
            return l
        if issubclass(h, BaseException):
            return I.alloc(st, InstR(t, {'args': Tup(a)}, None, I.loc()))
        return I.top('constructor %s' % t.name)

    # ------------------------------------------------------------ builtins
    def f_len(self, st, a, k):
        I = self.I
        v = a[0]
        if isinstance(v, Alt):
            return I.join_eval([(lambda s, o=o: self.f_len(s, [o], k))
                                for o in sorted(v.opts, key=repr)], st)
        if is_str(v):
            return self.len_str(v)
        if isinstance(v, Tup):
            return Const(len(v.items))
        if isinstance(v, Ref):
            r = st.get(v.id)
            if isinstance(r, ListR):
                if r.opaque is None and all(m for _, m in r.items):
                    return Const(len(r.items))
                return Sym(('len', v.id, repr(r.items)), 'int')
            if isinstance(r, DictR):
                if r.opaque is None and all(e[1] for e in r.d.values()):
                    return Const(len(r.d))
                return Sym(('len', v.id, len(r.d)), 'int')
            if isinstance(r, InstR):
                m = I.lookup_class(r.cls, '__len__', st)
                if m is not None and not isinstance(m, Native):
                    return I.call(m, [v], {}, st)
                if r.payload is not None:
                    return self.f_len(st, [r.payload], k)
            I.raise_native(st, TypeError, 'object has no len()')
        if isinstance(v, TopV):
            return v
        if isinstance(v, Const):
            if isinstance(v.v, bytes):
                return Const(len(v.v))
            I.raise_native(st, TypeError, 'no len()')
        if isinstance(v, NObj) and v.kind == 'range':
            return Const(len(range(*v.data)))
        return self.app('len', [v], 'int')

    def f_isinstance(self, st, a, k):
        if isinstance(a[0], Alt):
            return self.altcmp(
                lambda x, y: self.f_isinstance(st, [x, a[1]], k), a[0], NONE, st)
        b = self.I.isinstance(a[0], a[1], st)
        if b is None:
            if isinstance(a[0], TopV):
                return Alt([TRUE, FALSE])
            return Sym(('isinst', term_of(a[0]), term_of(a[1])), 'bool')
        return Const(b)

    def f_issubclass(self, st, a, k):
        if isinstance(a[0], Alt):
            return self.altcmp(
                lambda x, y: self.f_issubclass(st, [x, a[1]], k), a[0], NONE, st)
        b = self.I.issubclass(a[0], a[1], st)
        if b is None:
            return Alt([TRUE, FALSE])
        return Const(b)

    def f_getattr(self, st, a, k):
        n = a[1]
        I = self.I
        if isinstance(n, Alt):
            return I.join_eval([
                (lambda s, o=o: self.f_getattr(s, [a[0], o] + list(a[2:]), k))
                for o in sorted(n.opts, key=repr)
            ], st)
        if not (isinstance(n, Const) and isinstance(n.v, str)):
            if isinstance(n, Const):
                I.raise_native(st, TypeError, 'attribute name')
            return self.sym_getattr(st, a, n)
        return I.getattr(a[0], n.v, st, a[2] if len(a) > 2 else None)

    def sym_getattr(self, st, a, n):
        """getattr with an opaque name: any declared attribute may be meant"""
        return self.I.top('getattr with unknown name %r' % (n, ))

    def f_setattr(self, st, a, k):
        if not isinstance(a[1], Const):
            self.I.tops.append('setattr with unknown name at ' + self.I.loc())
            return NONE
        self.I.setattr(a[0], a[1].v, a[2], st)
        return NONE

    def f_delattr(self, st, a, k):
        self.I.delattr(a[0], a[1].v, st)
        return NONE

    def f_hasattr(self, st, a, k):
        I = self.I
        if isinstance(a[0], Alt):
            return self.altcmp(
                lambda x, y: self.f_hasattr(st, [x, a[1]], k), a[0], NONE, st)
        if not isinstance(a[1], Const):
            return Alt([TRUE, FALSE])
        v = I.getattr(a[0], a[1].v, st, MISSING)
        if v == MISSING:
            return FALSE
        if isinstance(v, Alt) and MISSING in v.opts:
            return Alt([TRUE, FALSE])
        if isinstance(v, TopV):
            return Alt([TRUE, FALSE])
        return TRUE

    def f_callable(self, st, a, k):
        v = a[0]
        if isinstance(v, Alt):
            return self.altcmp(lambda x, y: self.f_callable(st, [x], k), v,
                               NONE, st)
        if isinstance(v, (Native, NType, Bound)):
            return TRUE
        if isinstance(v, Ref):
            r = st.get(v.id)
            if isinstance(r, (FuncR, ClassR)):
                return TRUE
            if isinstance(r, InstR):
                return Const(self.I.lookup_class(r.cls, '__call__', st) is not
                             None)
            return FALSE
        if isinstance(v, Sym):
            return Const('callback' in v.props)
        if isinstance(v, TopV):
            return Alt([TRUE, FALSE])
        return FALSE

    def f_iter(self, st, a, k):
        v = a[0]
        if isinstance(v, Ref) and isinstance(st.get(v.id), GenR):
            return v
        if isinstance(v, Ref) and isinstance(st.get(v.id), InstR):
            r = st.get(v.id)
            m = self.I.lookup_class(r.cls, '__iter__', st)
            if m is not None and not isinstance(m, Native):
                return self.I.call(m, [v], {}, st)
        l = self.I.to_listrec(v, st)
        self.I.mut(st, l).kind = 'iter'
        return l

    def f_next(self, st, a, k):
        I = self.I
        v = a[0]
        if isinstance(v, Const):
            I.raise_native(st, TypeError, 'not an iterator')
        if isinstance(v, Ref):
            r = st.get(v.id)
            if isinstance(r, ListR):
                w = I.mut(st, v)
                if w.items:
                    x, m = w.items.pop(0)
                    if m:
                        return x
                    vals = x
                    done = False
                    for y, m2 in w.items:
                        vals = jv(vals, y)
                        if m2:
                            done = True
                            break
                    if done:
                        return vals
                    if len(a) > 1:
                        return jv(vals, a[1])
                    I.raise_native(st, StopIteration, '', maybe=True)
                    return vals
                if w.opaque is not None:
                    if len(a) > 1:
                        return jv(w.opaque, a[1])
                    I.raise_native(st, StopIteration, '', maybe=True)
                    return w.opaque
                if len(a) > 1:
                    return a[1]
                I.raise_native(st, StopIteration, '')
            if isinstance(r, InstR):
                m = I.lookup_class(r.cls, '__next__', st) or I.lookup_class(
                    r.cls, 'next', st)
                if m is not None:
                    return I.call(m, [v], {}, st)
            if isinstance(r, GenR):
                # the rest of the elements is produced at once
                l = I.to_listrec(v, st)
                rest = st.get(l.id)
                st.put(v.id, ListR(list(rest.items), rest.opaque, 'iter'))
                return self.f_next(st, a, k)
        return I.top('next')

    def f_sorted(self, st, a, k):
        I = self.I
        l = I.to_listrec(a[0], st)
        r = st.get(l.id)
        keyf = k.get('key', NONE)
        rev = k.get('reverse', FALSE)
        if r.opaque is None and all(m for _, m in r.items):
            keys = []
            for v, _ in r.items:
                kv = v if keyf == NONE else I.call(keyf, [v], {}, st)
                if isinstance(kv, NObj) and kv.kind == 'ver':
                    keys.append(kv.data[0])
                    continue
                try:
                    keys.append(self.hosts(st, kv))
                except ValueError:
                    keys = None
                    break
            if keys is not None:
                try:
                    order = sorted(range(len(keys)), key=lambda i: keys[i],
                                   reverse=bool(getattr(rev, 'v', False)))
                    I.mut(st, l).items = [r.items[i] for i in order]
                    return l
                except TypeError as e:
                    I.raise_native(st, TypeError, str(e))
            # unknown order: keep the given one (order is opaque to every rule)
            I.mut(st, l)
            return l
        return l

    def f_any(self, st, a, k):
        items, op = st.get(self.I.to_listrec(a[0], st).id).items, None
        unk = False
        for v, m in items:
            b = self.I.truth(v, st)
            if b is True and m:
                return TRUE
            if b is not False:
                unk = True
        return Alt([TRUE, FALSE]) if unk else FALSE

    def f_all(self, st, a, k):
        r = st.get(self.I.to_listrec(a[0], st).id)
        unk = r.opaque is not None
        for v, m in r.items:
            b = self.I.truth(v, st)
            if b is False and m:
                return FALSE
            if b is not True:
                unk = True
        return Alt([TRUE, FALSE]) if unk else TRUE

    def f_sum(self, st, a, k):
        cur = a[1] if len(a) > 1 else Const(0)
        for v, _ in self.I.to_list(a[0], st):
            cur = self.binop('+', cur, v, st)
        return cur

    def f_min(self, st, a, k, f=min):
        I = self.I
        items = [v for v, _ in I.to_list(a[0], st)] if len(a) == 1 else list(a)
        keyf = k.get('key', NONE)
        if not items:
            if 'default' in k:
                return k['default']
            I.raise_native(st, ValueError, 'min()/max() of empty')
        best = items[0]
        bk = best if keyf == NONE else I.call(keyf, [best], {}, st)
        for v in items[1:]:
            kv = v if keyf == NONE else I.call(keyf, [v], {}, st)
            c = I.truth(self.order('Lt' if f is min else 'Gt', kv, bk, st), st)
            if c is None:
                r = items[0]
                for x in items[1:]:
                    r = jv(r, x)
                return r
            if c:
                best, bk = v, kv
        return best

    def f_max(self, st, a, k):
        return self.f_min(st, a, k, max)

    def f_vars(self, st, a, k):
        return self.I.getattr(a[0], '__dict__', st)

    def f_id(self, st, a, k):
        return self.app('id', a, 'int', ['truthy'])

    def f_hash(self, st, a, k):
        return self.app('hash', a, 'int')

    def f_repr(self, st, a, k):
        return self.repr_(a[0], st)

    def f_print(self, st, a, k):
        return NONE

    def f_abs(self, st, a, k):
        if isinstance(a[0], Const):
            return Const(abs(a[0].v))
        return self.app('abs', a, 'num')

    def f_ord(self, st, a, k):
        if isinstance(a[0], Const):
            return Const(ord(a[0].v))
        return self.app('ord', a, 'int')

    def f_chr(self, st, a, k):
        if isinstance(a[0], Const):
            return Const(chr(a[0].v))
        return self.app('chr', a, 'str')

    def f_round(self, st, a, k):
        return self.app('round', a, 'num')

    def f_dir(self, st, a, k):
        return self.I.top('dir')

    def f_globals(self, st, a, k):
        fr = self.I.stack[-1]
        return self.I.new_dict(st, [(Const(n), v) for n, v in st.get(
            fr.genv).vars.items()])

    def f_locals(self, st, a, k):
        fr = self.I.stack[-1]
        return self.I.new_dict(st, [(Const(n), v) for n, v in st.get(
            fr.env).vars.items()])

    def f_open(self, st, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', Const('r'))
        coding = a[3] if len(a) > 3 else k.get('encoding', NONE)
        data = None
        if self.world is not None:
            if isinstance(a[0], Const):
                p = posixpath.normpath(a[0].v) if isinstance(
                    a[0].v, str) else a[0].v
                data = self.world['files'].get(p)
                if data is None:
                    self.event(st, 'no file', *a)
                    self.I.raise_native(st, FileNotFoundError, 'no such file')
            else:
                return self.I.top('open of %r' % (a[0], ))
        self.strict(st, a[4] if len(a) > 4 else k.get('errors', NONE))
        self.event(st, 'open', a[0], mode, coding)
        return NObj('file', (term_of(a[0]), mode, coding, data))

    def strict(self, st, errors):
        """what is not in the encoding has to be an error"""
        if self.world is not None and not (isinstance(
                errors, Const) and errors.v in (None, 'strict')):
            self.world.setdefault('coding', []).append(
                ('UTF-8 and errors=%r' % (errors, ), self.I.loc()))

    def f___import__(self, st, a, k):
        return self.I.import_module(a[0].v, st)

    def event(self, st, kind, *vals):
        st.events = st.events + ((kind, ) + tuple(
            term_of(v) if isinstance(v, V) else v for v in vals) +
                                 (self.I.loc(), ), )

    # ------------------------------------------------------------ contexts
    def cm_enter(self, cm, st):
        I = self.I
        if isinstance(cm, Ref) and isinstance(st.get(cm.id), InstR):
            r = st.get(cm.id)
            if 'contextlib.gen' in r.attrs:
                return I.top('contextmanager')
            return I.call(I.getattr(cm, '__enter__', st), [], {}, st)
        if isinstance(cm, NObj) and cm.kind == 'closing':
            return cm.data
        return cm

    def cm_exit(self, cm, st, exc):
        I = self.I
        if isinstance(cm, Ref) and isinstance(st.get(cm.id), InstR):
            v = I.call(I.getattr(cm, '__exit__', st), [NONE, NONE, NONE]
                       if exc is None else [I.type_of(exc, st) or NONE, exc,
                                            NONE], {}, st)
            if exc is not None and I.truth(v, st) is True:
                return (st, )
            return st
        if isinstance(cm, NObj) and cm.kind in ('file', 'conn'):
            self.event(st, 'close', cm)
        if isinstance(cm, NObj) and cm.kind == 'closing':
            I.call(I.getattr(cm.data, 'close', st), [], {}, st)
        if isinstance(cm, NObj) and cm.kind == 'suppress' and exc is not None:
            if I.isinstance(exc, cm.data, st):
                return (st, )
        return st

    # ------------------------------------------------------------ modules
    def N(self, name, f):
        return Native(name, lambda I, st, a, k: f(st, a, k))

    def mod_attr(self, m, name, st):
        I = self.I
        full = m.name + '.' + name
        if full in self.extra_attrs:
            return self.extra_attrs[full]
        fn = getattr(self, 'm_' + full.replace('.', '_'), None)
        if fn is not None:
            return self.N(full, fn)
        if full == 'six.string_types':
            return Tup([NType(str)])
        if full == 'six.integer_types':
            return Tup([NType(int)])
        if full == 'six.class_types':
            return Tup([NType(type)])
        if full == 'six.binary_type':
            return NType(bytes)
        if full == 'six.text_type':
            return NType(str)
        if full == 'six.Iterator':
            return NType(object)
        if full in ('six.PY2', ):
            return FALSE
        if full in ('six.PY3', 'six.PY34'):
            return TRUE
        if full in ('six.moves', 'six.moves.urllib', 'six.moves.urllib.parse',
                    'six.moves.urllib.request', 'os.path', 'urllib.parse',
                    'urllib.request', 'distutils.version', 'collections.abc',
                    'six.moves.urllib.error', 'importlib.util',
                    'importlib.machinery', 'six.moves.urllib_parse'):
            return NMod({'six.moves.urllib.parse': 'urllib.parse',
                         'six.moves.urllib_parse': 'urllib.parse',
                         'six.moves.urllib.request': 'urllib.request'}.get(
                             full, full))
        if full == 'six.moves.reduce':
            return self.mod_attr(NMod('functools'), 'reduce', st)
        if m.name == 'six.moves' and name in ('map', 'zip', 'range', 'filter'):
            return self.builtins[name]
        if m.name == 'six.moves' and name == 'builtins':
            return NMod('builtins')
        if m.name == 'six.moves' and name in ('zip_longest', ):
            return NType(__import__('itertools').zip_longest)
        if full == 'types.FunctionType' or full == 'types.LambdaType':
            return self.FUNC
        if full == 'types.MethodType':
            return self.METHOD
        if full == 'types.ModuleType':
            return self.MODULE
        if full == 'types.GeneratorType':
            return self.GEN
        if full == 'abc.ABCMeta':
            return NType(type)
        if full == 'abc.ABC':
            return NType(object)
        if full in ('abc.abstractmethod', 'typing.overload',
                    'functools.lru_cache_'):
            return self.N(full, lambda s, a, k: a[0])
        if m.name == 'builtins' and name in self.builtins:
            return self.builtins[name]
        if m.name in ('collections', 'collections.abc') and hasattr(
                __import__(m.name, fromlist=['x']), name):
            x = getattr(__import__(m.name, fromlist=['x']), name)
            if isinstance(x, type):
                return NType(x)
        if m.name == 'itertools' and name in ('chain', 'zip_longest'):
            if name == 'zip_longest':
                return NType(__import__('itertools').zip_longest)
            return NObj('itertools.chain')
        if m.name == 'typing':
            return NObj('typing', name)
        if m.name == 'numbers':
            return NType(getattr(__import__('numbers'), name))
        if full == 'os.name':
            return Const('posix')
        if full in ('os.sep', 'os.path.sep'):
            return Const('/')
        if full == 'sys.version_info':
            return Tup([Const(3), Const(12), Const(3), Const('final'),
                        Const(0)], ('major', 'minor', 'micro', 'releaselevel',
                                    'serial'))
        if full == 'sys.modules':
            return I.new_dict(st, [(Const(n), r) for n, r in
                                   I.modules.items()])
        if m.name == 'logging':
            if name in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'):
                return Const(10)
            return self.N(full, lambda s, a, k: NObj('logger'))
        if m.name == 're' and name in ('I', 'IGNORECASE', 'M', 'S', 'X',
                                       'MULTILINE', 'DOTALL', 'VERBOSE',
                                       'UNICODE', 'U', 'A', 'ASCII'):
            return Const(int(getattr(re, name)))
        if m.name == 'pathlib':
            return NObj('pathlib', name)
        if full in ('json.decoder', ):
            return NMod(full)
        if full in ('json.JSONDecodeError', 'json.decoder.JSONDecodeError'):
            return NType(ValueError)
        if m.name == 'yaml' and name in ('YAMLError', ):
            return NType(Exception, 'YAMLError')
        if m.name == 'yaml':
            return NObj('yaml', name)
        if m.name in ('weakref', ) and name in ('ProxyType',
                                                'CallableProxyType'):
            return NType(__import__('weakref').ProxyType)
        if m.name == 'weakref' and name in ('WeakKeyDictionary',
                                            'WeakValueDictionary'):
            return NType(dict)
        if name.startswith('__'):
            if name == '__name__':
                return Const(m.name)
        if m.name == 'operator':
            return self.operator_attr(name)
        return Native('?' + full, lambda i, s, a, k: self.unknown(full, s, a))

    def unknown(self, full, st, a):
        self.I.unknown_calls.append('%s at %s' % (full, self.I.loc()))
        self.event(st, 'extern', full)
        return self.I.top('external call ' + full)

    def operator_attr(self, name):
        I = self.I
        if name == 'itemgetter':
            return self.N('itemgetter', lambda s, a, k: self.N(
                'ig', lambda s2, b, kk: I.getitem(b[0], a[0], s2)
                if len(a) == 1 else Tup([I.getitem(b[0], x, s2) for x in a])))
        if name == 'attrgetter':
            def ag(s, a, k):
                def g(s2, b, kk):
                    v = b[0]
                    for p in a[0].v.split('.'):
                        v = I.getattr(v, p, s2)
                    return v
                return self.N('ag', g)
            return self.N('attrgetter', ag)
        if name == 'methodcaller':
            return self.N('methodcaller', lambda s, a, k: self.N(
                'mc', lambda s2, b, kk: I.call(
                    I.getattr(b[0], a[0].v, s2), a[1:], k, s2)))
        ops = {'add': '+', 'sub': '-', 'and_': '&', 'or_': '|', 'mul': '*'}
        if name in ops:
            return self.N(name, lambda s, a, k: self.binop(
                ops[name], a[0], a[1], s))
        if name == 'eq':
            return self.N(name, lambda s, a, k: self.eq(a[0], a[1], s))
        if name == 'getitem':
            return self.N(name, lambda s, a, k: I.getitem(a[0], a[1], s))
        if name == 'not_':
            return self.N(name, lambda s, a, k: I.negate(a[0], s))
        if name == 'contains':
            return self.N(name, lambda s, a, k: self.contains(a[0], a[1], s))
        return Native('?operator.' + name, lambda i, s, a, k: self.unknown(
            'operator.' + name, s, a))

    # six
    def m_six_iteritems(self, st, a, k):
        return self.I.call(self.I.getattr(a[0], 'items', st), [], {}, st)

    m_six_viewitems = m_six_iteritems

    def m_six_itervalues(self, st, a, k):
        return self.I.call(self.I.getattr(a[0], 'values', st), [], {}, st)

    m_six_viewvalues = m_six_itervalues

    def m_six_iterkeys(self, st, a, k):
        return self.I.call(self.I.getattr(a[0], 'keys', st), [], {}, st)

    m_six_viewkeys = m_six_iterkeys

    def m_six_with_metaclass(self, st, a, k):
        return WithMeta(a[0], a[1:])

    def m_six_add_metaclass(self, st, a, k):
        meta = a[0]

        def deco(s, b, kk):
            c = s.get(b[0].id)
            d = self.I.new_dict(s, [(Const(n), v) for n, v in c.attrs.items()])
            return self.I.make_class(meta, c.name, list(c.bases), d, s)
        return self.N('add_metaclass', deco)

    def m_six_advance_iterator(self, st, a, k):
        return self.f_next(st, a, k)

    m_six_next = m_six_advance_iterator

    def m_six_callable(self, st, a, k):
        return self.f_callable(st, a, k)

    def m_six_get_function_code(self, st, a, k):
        return self.I.top('code')

    def m_six_get_unbound_function(self, st, a, k):
        return a[0].func if isinstance(a[0], Bound) else a[0]

    m_six_get_method_function = m_six_get_unbound_function

    # functools / itertools / copy
    def m_functools_reduce(self, st, a, k):
        items = self.I.to_list(a[1], st)
        if len(a) > 2:
            cur = a[2]
        else:
            if not items:
                self.I.raise_native(st, TypeError, 'reduce() of empty')
            cur = items.pop(0)[0]
        for v, m in items:
            if m:
                cur = self.I.call(a[0], [cur, v], {}, st)
            else:
                c2 = cur
                cur = self.I.join_eval([
                    lambda s: c2, lambda s: self.I.call(a[0], [c2, v], {}, s)
                ], st)
        return cur

    def m_functools_partial(self, st, a, k):
        f, pre = a[0], list(a[1:])
        return Native('=partial', lambda I, s, b, kk: I.call(
            f, pre + list(b), dict(k, **kk), s))

    def m_functools_wraps(self, st, a, k):
        src = a[0]

        def deco(s, b, kk):
            n = self.I.getattr(src, '__name__', s, Const('wrapped'))
            self.I.setattr(b[0], '__name__', n, s)
            return b[0]
        return self.N('wraps', deco)

    def m_functools_lru_cache(self, st, a, k):
        if a and not isinstance(a[0], Const):
            self.event(st, 'memo', 'lru_cache')
            return a[0]
        self.event(st, 'memo', 'lru_cache')
        return self.N('lru_cache', lambda s, b, kk: b[0])

    def m_functools_cmp_to_key(self, st, a, k):
        return self.N('key', lambda s, b, kk: self.I.top('cmp_to_key'))

    def m_itertools_repeat(self, st, a, k):
        if len(a) > 1 and isinstance(a[1], Const):
            return self.I.new_list(st, [a[0]] * a[1].v, 'iter')
        return self.I.top('repeat')

    def m_itertools_count(self, st, a, k):
        start = a[0].v if a else 0
        return self.I.new_list(st, [Const(start + i) for i in range(64)],
                               'iter')

    def m_itertools_islice(self, st, a, k):
        l = self.I.to_listrec(a[0], st)
        w = self.I.mut(st, l)
        w.items = w.items[slice(*[x.v for x in a[1:]])]
        return l

    def m_itertools_product(self, st, a, k):
        import itertools
        ls = [[v for v, _ in self.I.to_list(x, st)] for x in a]
        return self.I.new_list(st, [Tup(p) for p in itertools.product(*ls)],
                               'iter')

    def m_itertools_takewhile(self, st, a, k):
        out = []
        for v, m in self.I.to_list(a[1], st):
            b = self.I.truth(self.I.call(a[0], [v], {}, st), st)
            if b is None:
                return self.I.top('takewhile')
            if not b:
                break
            out.append(v)
        return self.I.new_list(st, out, 'iter')

    def m_itertools_dropwhile(self, st, a, k):
        out, drop = [], True
        for v, m in self.I.to_list(a[1], st):
            if drop:
                b = self.I.truth(self.I.call(a[0], [v], {}, st), st)
                if b is None:
                    return self.I.top('dropwhile')
                if b:
                    continue
                drop = False
            out.append(v)
        return self.I.new_list(st, out, 'iter')

    def m_itertools_starmap(self, st, a, k):
        out = self.I.new_list(st, [self.I.call(a[0], [
            x for x, _ in self.I.to_list(v, st)], {}, st)
            for v, _ in self.I.to_list(a[1], st)], 'iter')
        return out

    def m_copy_copy(self, st, a, k):
        v = a[0]
        I = self.I
        if isinstance(v, Alt):
            return I.join_eval([(lambda s, o=o: self.m_copy_copy(s, [o], k))
                                for o in sorted(v.opts, key=repr)], st)
        if isinstance(v, Ref):
            r = st.get(v.id)
            if isinstance(r, (ListR, DictR)):
                return I.alloc(st, r.clone())
            if isinstance(r, InstR):
                n = r.clone()
                if n.payload is not None:
                    n.payload = I.alloc(st, st.get(n.payload.id).clone())
                return I.alloc(st, n)
        return v

    def m_copy_deepcopy(self, st, a, k):
        I = self.I
        memo = {}

        def rec(v):
            if isinstance(v, Tup):
                return Tup([rec(x) for x in v.items], v.names)
            if isinstance(v, Alt):
                return Alt([rec(x) for x in v.opts])
            if not isinstance(v, Ref):
                return v
            if v.id in memo:
                return memo[v.id]
            r = st.get(v.id)
            if isinstance(r, ListR):
                n = I.alloc(st, r.clone())
                memo[v.id] = n
                w = st.mut(n.id)
                w.items = [(rec(x), m) for x, m in w.items]
                return n
            if isinstance(r, DictR):
                n = I.alloc(st, r.clone())
                memo[v.id] = n
                w = st.mut(n.id)
                w.d = {kk: (rec(e[0]), e[1], e[2]) for kk, e in w.d.items()}
                return n
            if isinstance(r, InstR):
                n = I.alloc(st, r.clone())
                memo[v.id] = n
                w = st.mut(n.id)
                w.attrs = {kk: rec(x) for kk, x in w.attrs.items()}
                if w.payload is not None:
                    w.payload = rec(w.payload)
                return n
            return v

        return rec(a[0])

    # os.path
    def _path(self, f, st, a, kind='str'):
        try:
            return self.lift(st, f(*[self.hosts(st, x) for x in a]))
        except ValueError:
            pass
        return None

    def placeholder(self, f, st, a):
        """apply a host path/url function to strings whose symbols are replaced
        by alphanumeric placeholders (valid for symbols free of separators, or
        standing after '#')"""
        back = {}
        args = []
        for v in a:
            if isinstance(v, TopV):
                return v
            if isinstance(v, Const):
                args.append(v.v)
                continue
            if isinstance(v, Tup):
                ph = self._ph_tuple(v, back)
                if ph is None:
                    return None
                args.append(ph)
                continue
            if not is_str(v):
                return None
            ph = self._ph(v, back)
            if ph is None:
                return None
            args.append(ph)
        try:
            out = f(*args)
        except Exception as e:
            self.I.raise_native(st, type(e) if isinstance(
                e, (ValueError, TypeError)) else Exception, str(e))
        return self._unph(out, back)

    def _ph(self, v, back):
        s = ''
        seen_frag = False
        for p in parts_of(v):
            if isinstance(p, str):
                s += p
                if '#' in p:
                    seen_frag = True
            else:
                if not seen_frag and 'plain' not in p.props and not (
                        all(not can_contain(p, c) for c in '/#')
                        and 'plain' in p.props):
                    if 'urlsafe' not in p.props:
                        return None
                n = 'zq%dqz' % len(back)
                for nn, q in back.items():
                    if q == p:
                        n = nn
                back[n] = p
                s += n
        return s

    def _ph_tuple(self, v, back):
        out = []
        for x in v.items:
            if isinstance(x, Const):
                out.append(x.v)
            elif is_str(x):
                s = ''
                for p in parts_of(x):
                    if isinstance(p, str):
                        s += p
                    else:
                        n = 'zq%dqz' % len(back)
                        for nn, q in back.items():
                            if q == p:
                                n = nn
                        back[n] = p
                        s += n
                out.append(s)
            else:
                return None
        return tuple(out)

    def _unph(self, out, back):
        if isinstance(out, str):
            if not back:
                return Const(out)
            parts = re.split('(%s)' % '|'.join(map(re.escape, back)), out)
            return mkcat([back.get(p, p) for p in parts])
        if isinstance(out, tuple):
            return Tup([self._unph(x, back) for x in out],
                       getattr(out, '_fields', None))
        return Const(out)

    def _pathfn(self, name, f, st, a, kind='str'):
        for i, v in enumerate(a):
            if isinstance(v, Alt):
                return self.I.join_eval([
                    (lambda s, o=o: self._pathfn(name, f, s, list(a[:i]) +
                                                 [o] + list(a[i + 1:]), kind))
                    for o in sorted(v.opts, key=repr)
                ], st)
        for v in a:
            if v == NONE:
                self.I.raise_native(st, TypeError, name + '(None)')
        r = self.placeholder(f, st, a)
        if r is not None:
            return r
        return self.app(name, a, kind)

    def m_os_path_join(self, st, a, k):
        return self._pathfn('os.path.join', posixpath.join, st, a)

    def m_os_path_dirname(self, st, a, k):
        return self._pathfn('os.path.dirname', posixpath.dirname, st, a)

    def m_os_path_basename(self, st, a, k):
        return self._pathfn('os.path.basename', posixpath.basename, st, a)

    def m_os_path_normpath(self, st, a, k):
        return self._pathfn('os.path.normpath', posixpath.normpath, st, a)

    def m_os_path_abspath(self, st, a, k):
        return self._pathfn('os.path.abspath', lambda p: posixpath.normpath(
            posixpath.join('/CWD', p)), st, a)

    def m_os_path_splitext(self, st, a, k):
        r = self._pathfn('os.path.splitext', posixpath.splitext, st, a)
        if isinstance(r, Sym):
            return Tup([self.app('splitext0', a, 'str'),
                        self.app('splitext1', a, 'str')])
        return r

    def m_os_path_split(self, st, a, k):
        r = self._pathfn('os.path.split', posixpath.split, st, a)
        return r

    def m_os_path_isfile(self, st, a, k):
        if self.world is not None and isinstance(a[0], Const):
            return Const(posixpath.normpath(a[0].v) in self.world['files'])
        return self.app('isfile', a, 'bool')

    def m_os_path_exists(self, st, a, k):
        if self.world is not None and isinstance(a[0], Const):
            p = posixpath.normpath(a[0].v)
            return Const(any(f == p or f.startswith(p + '/')
                             for f in self.world['files']))
        return self.app('exists', a, 'bool')

    def m_os_path_isdir(self, st, a, k):
        if self.world is not None and isinstance(a[0], Const):
            p = posixpath.normpath(a[0].v)
            return Const(any(f.startswith(p + '/')
                             for f in self.world['files']))
        return self.app('isdir', a, 'bool')

    def m_os_path_isabs(self, st, a, k):
        return self._pathfn('os.path.isabs', posixpath.isabs, st, a, 'bool')

    def m_os_path_commonprefix(self, st, a, k):
        try:
            l = self.hosts(st, a[0])
            return Const(posixpath.commonprefix(l))
        except ValueError:
            pass
        items = [v for v, _ in self.I.to_list(a[0], st)]
        if not items:
            return Const('')
        if len(items) == 1:
            return items[0]
        # common leading parts
        cur = list(parts_of(items[0]))
        for v in items[1:]:
            q = list(parts_of(v))
            out = []
            for x, y in zip(cur, q):
                if x == y:
                    out.append(x)
                    continue
                if isinstance(x, str) and isinstance(y, str):
                    p = posixpath.commonprefix([x, y])
                    out.append(p)
                    if p and len(p) == min(len(x), len(y)):
                        # a following symbol could extend the match
                        longer, rest = (x, q) if len(x) > len(p) else (y, cur)
                        if len(x) != len(y):
                            return self.app('commonprefix', items, 'str')
                    break
                return self.app('commonprefix', items, 'str')
            cur = out
        return mkcat(cur)

    def m_os_path_commonpath(self, st, a, k):
        try:
            return Const(posixpath.commonpath(self.hosts(st, a[0])))
        except ValueError:
            return self.app('commonpath', [a[0]], 'str')

    def m_os_getcwd(self, st, a, k):
        return Const('/CWD')

    def m_os_listdir(self, st, a, k):
        self.event(st, 'listdir', a[0])
        if isinstance(a[0], Const) and a[0].v.startswith(self.I.repo):
            return self.I.new_list(st, [Const(x) for x in sorted(
                os.listdir(a[0].v))])
        return self.I.top('listdir')

    # pkgutil / importlib
    def m_pkgutil_iter_modules(self, st, a, k):
        import pkgutil
        dirs = self.hosts(st, a[0])
        out = []
        for d in dirs:
            d = posixpath.normpath(d)
            if not d.startswith(self.I.repo):
                continue
            for _, n, p in pkgutil.iter_modules([d]):
                out.append(Tup([NObj('finder'), Const(n), Const(p)],
                               ('module_finder', 'name', 'ispkg')))
        return self.I.new_list(st, out, 'iter')

    def m_pkgutil_find_loader(self, st, a, k):
        if isinstance(a[0], Const):
            if self.I.module_file(a[0].v)[0]:
                return NObj('loader', a[0].v)
            return NONE
        return self.I.top('find_loader of unknown module')

    m_pkgutil_get_loader = m_pkgutil_find_loader

    def m_importlib_import_module(self, st, a, k):
        if isinstance(a[0], Const):
            n = a[0].v
            if n.startswith('.'):
                pk = a[1].v if len(a) > 1 else k['package'].v
                lv = len(n) - len(n.lstrip('.'))
                base = pk.split('.')
                if lv > 1:
                    base = base[:-(lv - 1)]
                n = '.'.join(base + [n.lstrip('.')])
            if not self.I.module_file(n)[0] and n.startswith(II.PKG):
                self.I.raise_native(st, ImportError, n)
            return self.I.import_module(n, st)
        return self.I.top('import of unknown module')

    def m_importlib_util_find_spec(self, st, a, k):
        return self.m_pkgutil_find_loader(st, a, k)

    # weakref
    def m_weakref_proxy(self, st, a, k):
        return a[0]

    def m_weakref_ref(self, st, a, k):
        x = a[0]
        return self.N('weakref', lambda s, b, kk: x)

    # logging
    def m_logging_getLogger(self, st, a, k):
        return NObj('logger')

    # distutils / re
    def ver(self, s):
        from_ = re.match(r'^(\d+)\.(\d+)(\.(\d+))?([ab](\d+))?$', s)
        if not from_:
            return None
        g = from_.groups()
        return NObj('ver', ((int(g[0]), int(g[1]), int(g[3] or 0)), s))

    def m_distutils_version_StrictVersion(self, st, a, k):
        v = a[0]
        if isinstance(v, Const) and isinstance(v.v, str):
            r = self.ver(v.v)
            if r is None:
                self.I.raise_native(st, ValueError, 'invalid version')
            return r
        if isinstance(v, Const):
            self.I.raise_native(st, AttributeError, 'StrictVersion(%r)' % v.v)
        return self.I.top('StrictVersion of unknown')

    m_distutils_version_LooseVersion = m_distutils_version_StrictVersion

    def m_re_compile(self, st, a, k):
        return NObj('regex', tuple(self.host(x) for x in a))

    def _re(self, fn, st, pat, a, k):
        if isinstance(pat, NObj):
            p = pat.data
        else:
            p = (self.host(pat), )
        try:
            hs = [self.hosts(st, x) for x in a]
            flags = self.host(k['flags']) if 'flags' in k else 0
            rx = re.compile(p[0], (p[1] if len(p) > 1 else 0) | flags)
            r = getattr(rx, fn)(*hs)
        except ValueError:
            if fn == 'match' and len(a) == 1 and not k and is_str(a[0]):
                head = parts_of(a[0])[0]
                t = re._parser.parse(p[0])
                if isinstance(head, str) and t.getwidth()[1] <= len(
                        head) and re_local(list(t)):
                    r = re.match(p[0], head, *p[1:2])
                    return NONE if r is None else NObj('match', _M(r))
            subj = a[-1] if fn in ('match', 'search', 'fullmatch', 'split',
                                   'findall') else a[1]
            if fn in ('match', 'search', 'fullmatch'):
                d = self.re_decide(p[0], fn, subj)
                if d is False:
                    return NONE
                m = Sym(('re.' + fn, ('c', p[0]), term_of(subj)), 'any',
                        frozenset(['truthy', 'obj']))
                return Alt([NONE, m])
            return self.app('re.' + fn, [Const(p[0])] + list(a), 'str')
        if r is None or isinstance(r, (str, bool)):
            return Const(r)
        if isinstance(r, (list, tuple)):
            return self.lift(st, r)
        return NObj('match', _M(r))

    def re_decide(self, pat, fn, subj):
        """False when no instance of subj can match, judged on constant head"""
        ps = parts_of(subj)
        if fn in ('match', 'fullmatch') and isinstance(ps[0], str):
            # try all one-extension prefixes: literal anchored prefixes only
            m = re.match(r'^\^?\(?\^?((?:[A-Za-z0-9/:_#-])+)', pat)
            if m and '|' not in pat and '?' not in pat and '*' not in pat:
                lit = m.group(1)
                n = min(len(lit), len(ps[0]))
                if pat[m.end():m.end() + 1] in ('+', '{'):
                    return None
                if lit[:n] != ps[0][:n]:
                    return False
            if pat == r'(^[A-Za-z]:\\)':
                if len(ps[0]) >= 2 and ps[0][1] != ':' or not ps[0][0].isalpha():
                    return False
                if len(ps[0]) >= 3 and ps[0][2] != '\\':
                    return False
        try:
            seq = list(re._parser.parse(pat))
        except Exception:
            return None
        if fn in ('match', 'fullmatch'):
            f = re_first(seq)
            if f is not None and not any(self.may_start(ps[0], c) for c in f):
                return False
        for c in re_needs(seq):
            if not any(c in p if isinstance(p, str) else can_contain(p, c)
                       for p in ps):
                return False
        return None

    def may_start(self, p, c):
        return p[:1] == c if isinstance(p, str) else can_contain(p, c) or not (
            'truthy' in p.props)

    def m_re_match(self, st, a, k):
        return self._re('match', st, a[0], a[1:], k)

    def m_re_search(self, st, a, k):
        return self._re('search', st, a[0], a[1:], k)

    def m_re_fullmatch(self, st, a, k):
        return self._re('fullmatch', st, a[0], a[1:], k)

    def m_re_split(self, st, a, k):
        return self._re('split', st, a[0], a[1:], k)

    def m_re_findall(self, st, a, k):
        return self._re('findall', st, a[0], a[1:], k)

    def m_re_sub(self, st, a, k):
        return self._re('sub', st, a[0], a[1:], k)

    def m_re_escape(self, st, a, k):
        return Const(re.escape(a[0].v)) if isinstance(a[0], Const) else \
            self.app('re.escape', a, 'str')

    # urllib
    def m_urllib_parse_urlparse(self, st, a, k):
        r = self._pathfn('urlparse', urllib.parse.urlparse, st, a[:1])
        if isinstance(r, Sym):
            names = urllib.parse.ParseResult._fields
            return Tup([self.app('url.' + n, a[:1], 'str') for n in names],
                       names)
        return r

    def m_urllib_parse_urlsplit(self, st, a, k):
        r = self._pathfn('urlsplit', urllib.parse.urlsplit, st, a[:1])
        if isinstance(r, Sym):
            names = urllib.parse.SplitResult._fields
            return Tup([self.app('url.' + n, a[:1], 'str') for n in names],
                       names)
        return r

    def urlunparse(self, st, t, want=None):
        if isinstance(t, Ref):
            t = Tup([v for v, _ in self.I.to_list(t, st)])
        if isinstance(t, Alt):
            return self.I.join_eval([(lambda s, o=o: self.urlunparse(s, o, want))
                                     for o in sorted(t.opts, key=repr)], st)
        if not isinstance(t, Tup):
            return self.app('urlunparse', [t], 'str')
        for i, x in enumerate(t.items):
            if isinstance(x, Alt):
                return self.I.join_eval([
                    (lambda s, o=o: self.urlunparse(s, Tup(
                        list(t.items[:i]) + [o] + list(t.items[i + 1:])), want))
                    for o in sorted(x.opts, key=repr)], st)
        if want and len(t.items) != want:
            self.I.raise_native(st, ValueError, 'expected %d components, got '
                                '%d' % (want, len(t.items)))
        f = urllib.parse.urlunparse if len(
            t.items) == 6 else urllib.parse.urlunsplit
        # None components are treated as empty
        items = [Const('') if x == NONE else x for x in t.items]
        for x in items:
            if not is_str(x):
                if isinstance(x, TopV):
                    return x
                return self.app('urlunparse', list(t.items), 'str')
        n = 0
        # a symbolic component is non-empty unless stated otherwise
        back = {}
        ph = self._ph_tuple(Tup(items), back)
        out = f(ph)
        return self._unph(out, back)

    def m_urllib_parse_urlunparse(self, st, a, k):
        return self.urlunparse(st, a[0], 6)

    def m_urllib_parse_urlunsplit(self, st, a, k):
        return self.urlunparse(st, a[0], 5)

    def m_urllib_parse_urljoin(self, st, a, k):
        return self._pathfn('urljoin', urllib.parse.urljoin, st, a[:2])

    def m_urllib_parse_urldefrag(self, st, a, k):
        return self._pathfn('urldefrag', urllib.parse.urldefrag, st, a[:1])

    def m_urllib_parse_quote(self, st, a, k):
        r = self._path(urllib.parse.quote, st, a)
        return r or self.app('quote', a, 'str')

    def m_urllib_parse_unquote(self, st, a, k):
        r = self._path(urllib.parse.unquote, st, a)
        return r or self.app('unquote', a, 'str')

    def m_urllib_request_urlopen(self, st, a, k):
        if self.world is not None:
            if not isinstance(a[0], Const):
                return self.I.top('urlopen of %r' % (a[0], ))
            if a[0].v not in self.world['urls']:
                self.event(st, 'no url', a[0])
                self.I.raise_native(st, OSError, 'no such url')
            self.event(st, 'urlopen', a[0])
            self.I.raise_native(st, OSError, 'urlopen', maybe=True)
            return NObj('conn', a[0].v)
        self.event(st, 'urlopen', a[0])
        self.I.raise_native(st, OSError, 'urlopen', maybe=True)
        return NObj('conn', term_of(a[0]))

    def m_urllib_request_url2pathname(self, st, a, k):
        return self.m_urllib_parse_unquote(st, a, k)

    def m_urllib_request_pathname2url(self, st, a, k):
        return self.app('pathname2url', a, 'str')

    # json / yaml / inspect
    def m_json_loads(self, st, a, k):
        return self.parsed(st, 'json', a[0], ValueError)

    def parsed(self, st, how, v, err):
        if isinstance(v, NObj) and v.kind == 'bytes':
            v = v.data
        if isinstance(v, TopV):
            return v
        self.event(st, how + '.loads', v)
        x = (self.world or {}).get(how, {}).get(v)
        other = {'json': 'yaml', 'yaml': 'json'}.get(how)
        if x is None and v in (self.world or {}).get(other, {}):
            self.world.setdefault('wrong', []).append((how, self.I.loc()))
            self.I.raise_native(st, err, 'malformed')
        if x is None:
            self.I.raise_native(st, err, 'malformed', maybe=True)
            return Sym((how, term_of(v)), 'any', frozenset(['truthy']))
        if x == 'malformed':
            self.I.raise_native(st, err, 'malformed')
        return self.lift(st, x)

    def m_json_load(self, st, a, k):
        v = a[0]
        if isinstance(v, NObj) and v.kind in ('file', 'conn'):
            v = self.I.call(self.I.getattr(v, 'read', st), [], {}, st)
        return self.parsed(st, 'json', v, ValueError)

    def yaml_load(self, st, a, k, loader):
        v = a[0]
        if isinstance(v, NObj) and v.kind in ('file', 'conn'):
            v = self.I.call(self.I.getattr(v, 'read', st), [], {}, st)
        self.event(st, 'yaml.load', v, loader)
        if self.world is not None:
            if loader not in ("'SafeLoader'", "'CSafeLoader'"):
                self.event(st, 'unsafe yaml', loader)
            return self.parsed(st, 'yaml', v, NType(Exception, 'YAMLError'))
        e = NType(Exception, 'YAMLError')
        s2 = st.fork()
        ex = self.I.alloc(s2, InstR(e, {'args': Tup([])}, None, self.I.loc()))
        self.I.sinks[-1].append((s2, ex))
        return Sym(('yaml', term_of(a[0])), 'any', frozenset(['truthy']))

    def m_yaml_load(self, st, a, k):
        l = a[1] if len(a) > 1 else k.get('Loader', NONE)
        return self.yaml_load(st, a, k, repr(l.data) if isinstance(
            l, NObj) else 'default')

    def m_yaml_safe_load(self, st, a, k):
        return self.yaml_load(st, a, k, "'SafeLoader'")

    def m_yaml_full_load(self, st, a, k):
        return self.yaml_load(st, a, k, "'FullLoader'")

    def m_yaml_unsafe_load(self, st, a, k):
        return self.yaml_load(st, a, k, "'UnsafeLoader'")

    def m_inspect_isclass(self, st, a, k):
        v = a[0]
        if isinstance(v, Alt):
            return self.altcmp(lambda x, y: self.m_inspect_isclass(
                st, [x], k), v, NONE, st)
        if isinstance(v, TopV):
            return Alt([TRUE, FALSE])
        return Const(isinstance(v, NType) or (isinstance(v, Ref) and isinstance(
            st.get(v.id), ClassR)))

    def m_inspect_isfunction(self, st, a, k):
        v = a[0]
        return Const(isinstance(v, Ref) and isinstance(st.get(v.id), FuncR))

    def m_contextlib_closing(self, st, a, k):
        return NObj('closing', a[0])

    def m_contextlib_suppress(self, st, a, k):
        return NObj('suppress', Tup(a))

    def m_collections_namedtuple(self, st, a, k):
        names = a[1]
        try:
            n = self.hosts(st, names)
            n = n.replace(',', ' ').split() if isinstance(n, str) else list(n)
        except ValueError:
            return self.I.top('namedtuple')

        def mk(s, b, kk):
            items = list(b) + [NONE] * (len(n) - len(b))
            for q, v in kk.items():
                items[n.index(q)] = v
            return Tup(items, tuple(n))
        return Native('=namedtuple', lambda I, s, b, kk: mk(s, b, kk))

    def m_io_open(self, st, a, k):
        return self.f_open(st, a, k)

    def m_codecs_open(self, st, a, k):
        k = dict(k)
        if len(a) > 2:
            k['encoding'] = a[2]
        if len(a) > 3:
            k['errors'] = a[3]
        return self.f_open(st, a[:2], k)

    # ------------------------------------------------------------ nobjs
    def nobj_attr(self, o, name, st):
        I = self.I
        if o.kind in ('slice', 'ver', 'missing'):
            if o.kind == 'ver' and name == 'version':
                return Tup([Const(x) for x in o.data[0]])
            return None
        if o.kind == 'loader' and name in ('name', ):
            return Const(o.data)
        if o.kind == 'loader' and name == 'loader':
            return o
        return Native('%s.%s' % (o.kind, name),
                      lambda i, s, a, k: self.call_nobj_method(
                          o, name, a, k, s))

    def call_nobj_method(self, o, name, a, k, st):
        I = self.I
        if o.kind == 'logger':
            return NONE
        if o.kind == 'loader' and name in ('load_module', 'exec_module'):
            m = a[0].v if a and isinstance(a[0], Const) else o.data
            return I.import_module(m, st)
        if o.kind == 'regex':
            return self._re(name, st, o, a, k)
        if o.kind == 'match':
            m = o.data.m
            try:
                return self.lift(st, getattr(m, name)(*[x.v for x in a]))
            except (IndexError, AttributeError) as e:
                I.raise_native(st, IndexError, str(e))
        if o.kind == 'file':
            if name == 'read':
                self.event(st, 'read', o)
                if self.world is not None:
                    I.raise_native(st, OSError, 'read', maybe=True)
                    m, c, data = o.data[1:]
                    if isinstance(m, Const) and 'b' in str(m.v):
                        return NObj('bytes', data)
                    if isinstance(c, Const) and str(c.v).lower().replace(
                            '_', '-') in ('utf-8', 'utf8'):
                        return data
                    self.world.setdefault('coding', []).append(
                        (repr(c), I.loc()))
                    return self.app('decode', [data, c], 'str', (
                        'truthy', ))
                return Sym(('content', o.data[0]), 'str')
            if name == 'close':
                self.event(st, 'close', o)
                return NONE
            if name == '__enter__':
                return o
        if o.kind == 'conn':
            if name == 'read':
                self.event(st, 'read', o)
                I.raise_native(st, OSError, 'read', maybe=True)
                if self.world is not None:
                    return NObj('bytes', self.world['urls'][o.data])
                return Sym(('content', o.data), 'any', frozenset())
            if name == 'close':
                self.event(st, 'close', o)
                return NONE
            if name in ('__enter__', ):
                return o
        if o.kind == 'bytes' and name == 'decode':
            c = a[0] if a else k.get('encoding', Const('utf-8'))
            self.strict(st, a[1] if len(a) > 1 else k.get('errors', NONE))
            if isinstance(c, Const) and str(c.v).lower().replace(
                    '_', '-') in ('utf-8', 'utf8'):
                return o.data
            if self.world is not None:
                self.world.setdefault('coding', []).append((repr(c), I.loc()))
            return self.app('decode', [o.data, c], 'str', ('truthy', ))
        if o.kind == 'pathlib':
            return I.top('pathlib')
        return I.top('%s.%s()' % (o.kind, name))

    def call_obj(self, o, a, k, st):
        I = self.I
        if isinstance(o, NObj):
            if o.kind == 'itertools.chain':
                out = I.new_list(st, (), 'list')
                for x in a:
                    self.list_extend(st, out, x)
                I.mut(st, out).kind = 'iter'
                return out
            if o.kind == 'pathlib':
                return NObj('pathobj', a[0])
            if o.kind == 'weakref':
                return o.data
            if o.kind == 'typing':
                return I.top('typing')
        return I.top('call of %r' % (o, ))


class _M(object):
    def __init__(self, m):
        self.m = m

    def __eq__(self, o):
        return isinstance(o, _M) and o.m.span() == self.m.span() and \
            o.m.string == self.m.string

    def __hash__(self):
        return hash(self.m.span())

    def __repr__(self):
        return 'match'


_old_attr = Natives.nobj_attr


def _nobj_attr(self, o, name, st):
    if o.kind == 'itertools.chain':
        if name == 'from_iterable':
            def fi(s, a, k):
                out = self.I.new_list(s, (), 'list')
                for x, _ in self.I.to_list(a[0], s):
                    self.list_extend(s, out, x)
                self.I.mut(s, out).kind = 'iter'
                return out
            return self.N('from_iterable', fi)
        return None
    if o.kind == 'pathobj':
        if name == 'as_uri':
            def uri(s, a, k):
                p = o.data
                if isinstance(p, Const):
                    import pathlib
                    try:
                        return Const(pathlib.PurePosixPath(p.v).as_uri())
                    except ValueError as e:
                        self.I.raise_native(s, ValueError, str(e))
                return self.cat([Const('file://'), p], s)
            return self.N('as_uri', uri)
        return Native('path.' + name, lambda i, s, a, k: i.top('pathlib.' +
                                                              name))
    if o.kind == 'yaml':
        return None
    return _old_attr(self, o, name, st)


Natives.nobj_attr = _nobj_attr
