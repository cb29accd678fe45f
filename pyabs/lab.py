"""Scenario layer: generic (symbolic) documents, calls into the analysed
program, comparison of abstract results with a specification, reporting."""
import json
import os
import sys
import threading
import time

from .values import *  # noqa
from . import values as VV
from .interp import Interp, Dead, Unsupported, Budget

P = 'pyopenapi.'
MIG = P + 'migration.'
VER = MIG + 'versions.'


def modname(short):
    return {
        'utils': P + 'utils', 'consts': P + 'consts', 'errs': P + 'errs',
        'base': MIG + 'base', 'store': MIG + 'store', 'scan': MIG + 'scan',
        'resolve': MIG + 'resolve', 'getter': MIG + 'getter',
        'spec': MIG + 'spec', 'obj': MIG + 'spec.obj', 'attr': MIG + 'spec.attr',
        'o12': VER + 'v1_2.objects', 'm12': VER + 'v1_2.main',
        's12': VER + 'v1_2.scanner', 'u12': VER + 'v1_2.scanner.upgrade',
        'o20': VER + 'v2_0.objects', 'm20': VER + 'v2_0.main',
        's20': VER + 'v2_0.scanner', 'a20': VER + 'v2_0.attrs',
        'c20': VER + 'v2_0.scanner.upgrade.converters',
        'o30': VER + 'v3_0_0.objects', 'm30': VER + 'v3_0_0.main',
        's30': VER + 'v3_0_0.scanner', 'a30': VER + 'v3_0_0.attrs',
    }.get(short, short)


CORE = ['utils', 'base', 'm12', 'm20', 'm30', 'c20', 'getter', 'scan', 'store']


# ------------------------------------------------------------------ atoms
def text(name, *props):
    """a non-empty string nobody knows"""
    return Sym(('atom', name), 'str', frozenset(('truthy', ) + props))


def rawtext(name, *props):
    """any string, possibly empty"""
    return Sym(('atom', name), 'str', frozenset(props))


def word(name):
    """a non-empty alphanumeric string"""
    return Sym(('atom', name), 'str', frozenset(('truthy', 'plain')))


def member(name, group, *props):
    """one of several pairwise different non-empty strings"""
    return Sym(('atom', name), 'str', frozenset(
        ('truthy', ('group', group)) + props))


def num(name):
    return Sym(('atom', name), 'num')


def integer(name):
    return Sym(('atom', name), 'int')


def boolean(name):
    return Sym(('atom', name), 'bool')


def opaque(name, *props):
    """any JSON value"""
    return Sym(('atom', name), 'any', frozenset(props))


def cat(*parts):
    return mkcat([p for p in parts])


def enc(v):
    """RFC 6901 encoding of a token"""
    if isinstance(v, str):
        return v.replace('~', '~0').replace('/', '~1')
    if isinstance(v, Const):
        return Const(enc(v.v))
    if isinstance(v, Cat):
        return mkcat([enc(p) for p in v.parts])
    return sym_replace(sym_replace(v, '~', '~0'), '/', '~1')


def ptr(base, *toks):
    """pointer base/tok/tok with every token encoded"""
    out = [base]
    for t in toks:
        out += ['/', enc(t)]
    return mkcat(out)


# ------------------------------------------------------------------ expected
class _Any(object):
    def __repr__(self):
        return 'anything'


ANY = _Any()


class Pred(object):
    def __init__(self, desc, fn):
        self.desc = desc
        self.fn = fn

    def __repr__(self):
        return self.desc


class Opt(object):
    """key may be there or not; when there it has this value"""

    def __init__(self, v):
        self.v = v


class OneOf(object):
    def __init__(self, *vs):
        self.vs = vs


class Bag(object):
    """list in any order"""

    def __init__(self, items):
        self.items = items


class Sub(object):
    """mapping that contains at least these entries"""

    def __init__(self, d, absent=()):
        self.d = d
        self.absent = absent


class Out(object):
    def __init__(self, val, st, raised, interp):
        self.val = val
        self.st = st
        self.raised = raised
        self.I = interp

    @property
    def dead(self):
        return self.val is None

    def excs(self):
        return [self.I.exc_text(s, e) for s, e in self.raised]

    def exc_types(self):
        out = []
        for s, e in self.raised:
            r = s.get(e.id) if isinstance(e, Ref) else None
            out.append(self.I.cls_name(r.cls, s) if isinstance(r, InstR) else
                       repr(e))
        return out


class Undecided(Exception):
    pass


class Broken(Exception):
    """an obligation is definitely not met"""

    def __init__(self, msg, loc=None, soft=False):
        Exception.__init__(self, msg)
        self.loc = loc
        self.soft = soft  # rests on a join: not believed after a Top


class Lab(object):
    def __init__(self, mods=CORE):
        self.I = Interp()
        for m in mods:
            self.I.import_module(modname(m))
        boot = self.I.sinks[-1]
        self.boot_raised = [self.I.exc_text(s, e) for s, e in boot]
        del boot[:]
        self.base = self.I.st0
        self.boot_tops = list(self.I.tops)
        del self.I.tops[:]
        self.frozen = set(self.base.heap)
        self.I.frozen = self.frozen

    # ---------------------------------------------------------- state
    def S(self):
        s = State(self.base.heap)
        return s

    def load(self, name, src):
        """extra analysed source (an application subclass etc.)"""
        self.I.frozen = None
        self.I.load_source(name, name + '.py', src)
        self.I.frozen = self.frozen = set(self.base.heap)

    def mod(self, short):
        return self.I.import_module(modname(short))

    def name(self, short, attr):
        m = self.mod(short)
        env = self.base.get(self.base.get(m.id).env)
        v = env.vars.get(attr)
        if v is None or v == UNBOUND:
            raise Broken('%s.%s does not exist' % (modname(short), attr))
        return v

    # ---------------------------------------------------------- values
    def mk(self, st, x):
        if isinstance(x, V):
            return x
        if isinstance(x, dict):
            r = DictR()
            ref = self.I.alloc(st, r)
            for k, v in x.items():
                r.d[self.mk(st, k)] = (self.mk(st, v), True, 'input')
            return ref
        if isinstance(x, list):
            return self.I.alloc(st, ListR([(self.mk(st, v), True) for v in x]))
        if isinstance(x, tuple):
            return Tup([self.mk(st, v) for v in x])
        return Const(x)

    def run(self, st, thunk):
        """run thunk(st) -> V collecting exceptions"""
        I = self.I
        ntop = len(I.tops)
        sink = []
        I.sinks.append(sink)
        depth = len(I.sinks)
        stack = len(I.stack)
        try:
            try:
                v = thunk(st)
            except Dead:
                v = None
        finally:
            del I.sinks[depth - 1:]
            del I.stack[stack:]
        out = Out(v, st, sink, I)
        out.tops = I.tops[ntop:]
        return out

    def call(self, st, f, *args, **kw):
        a = [self.mk(st, x) for x in args]
        k = {n: self.mk(st, x) for n, x in kw.items()}
        return self.run(st, lambda s: self.I.call(f, a, k, s))

    def new(self, st, short, cls, spec, path='#', **kw):
        """construct an object of the model from an abstract document"""
        out = self.call(st, self.name(short, cls), self.mk(st, spec),
                        path, **kw)
        return self.val(out, 'constructing %s' % cls)

    def val(self, out, what=''):
        if out.val is None:
            if not out.raised:
                raise Undecided('no result from %s' % what)
            raise Broken('%s always raises: %s' % (what, out.excs()[:3]),
                         self.exc_loc(out))
        return out.val

    def exc_loc(self, out):
        for s, e in out.raised:
            r = s.get(e.id) if isinstance(e, Ref) else None
            if isinstance(r, InstR) and r.loc:
                return r.loc
        return None

    def sure(self, out, what='', allow=()):
        """value of a call that must not raise"""
        v = self.val(out, what)
        bad = [t for t, n in zip(out.excs(), out.exc_types())
               if n not in allow]
        if bad:
            raise Broken('%s may raise %s' % (what, bad[:3]),
                         self.exc_loc(out), True)
        return v

    def attr(self, st, o, name, default=None):
        out = self.run(st, lambda s: self.I.getattr(o, name, s, default))
        return self.sure(out, 'reading %s' % name)

    def meth(self, st, o, name, *args, **kw):
        a = [self.mk(st, x) for x in args]
        k = {n: self.mk(st, x) for n, x in kw.items()}
        return self.run(st, lambda s: self.I.call(
            self.I.getattr(o, name, s), a, k, s))

    def item(self, st, o, k):
        k = self.mk(st, k)
        return self.sure(self.run(st, lambda s: self.I.getitem(o, k, s)),
                         'item %r' % (k, ))

    def clsname(self, st, v):
        if isinstance(v, Ref):
            r = st.get(v.id)
            if isinstance(r, InstR):
                return self.I.cls_name(r.cls, st)
        return None

    def show(self, st, v, depth=0):
        if depth > 8:
            return '...'
        if isinstance(v, Ref):
            r = st.get(v.id)
            if isinstance(r, DictR):
                return '{' + ', '.join('%s%s: %s' % (
                    self.show(st, k), '' if e[1] else '?', self.show(
                        st, e[0], depth + 1)) for k, e in r.d.items()) + (
                            ' ...' if r.opaque is not None else '') + '}'
            if isinstance(r, ListR):
                o, c = ('[', ']') if r.kind == 'list' else ('{[', ']}')
                return o + ', '.join('%s%s' % (self.show(st, x, depth + 1),
                                               '' if m else '?')
                                     for x, m in r.items) + (
                                         ', ...' if r.opaque is not None else
                                         '') + c
            if isinstance(r, InstR):
                return '<%s #%d>' % (self.I.cls_name(r.cls, st), v.id)
            if isinstance(r, ClassR):
                return '<class %s>' % r.name
            return '<%s>' % type(r).__name__
        if isinstance(v, Tup):
            return '(' + ', '.join(self.show(st, x, depth + 1)
                                   for x in v.items) + ')'
        if isinstance(v, Const):
            return repr(v.v)
        return repr(v)

    # ---------------------------------------------------------- comparing
    def diff(self, st, exp, v, path='', must=True, loc=None):
        """list of (path, message, loc) differences between spec and result"""
        I = self.I
        if isinstance(v, TopV):
            raise Undecided('%s: %s' % (path or '.', v.why))
        if exp is ANY:
            return []
        if isinstance(exp, Pred):
            return [] if exp.fn(st, v) else [
                (path, 'expected %s, found %s' % (exp.desc, self.show(st, v)),
                 loc)]
        if isinstance(exp, OneOf):
            if isinstance(v, Alt):
                bad = []
                for o in v.opts:
                    if not any(not self.diff(st, e, o, path) for e in exp.vs):
                        bad.append((path, 'unexpected %s' % self.show(st, o),
                                    loc))
                return bad
            ds = [self.diff(st, e, v, path, must, loc) for e in exp.vs]
            return [] if any(not d for d in ds) else ds[0]
        if isinstance(exp, Opt):
            exp = exp.v
        if isinstance(v, Alt):
            out = []
            for o in sorted(v.opts, key=repr):
                out += self.diff(st, exp, o, path, must, loc)
            return out
        if isinstance(exp, (dict, Sub)):
            sub = isinstance(exp, Sub)
            absent = exp.absent if sub else ()
            d = exp.d if sub else exp
            r = self.rec(st, v)
            if not isinstance(r, DictR):
                return [(path, 'expected an object, found %s' % self.show(st, v),
                         loc)]
            if r.opaque is not None:
                raise Undecided('%s: unknown keys' % path)
            out = []
            ks = {self.mk(st, k): e for k, e in d.items()}
            for k, e in ks.items():
                sub_path = '%s/%s' % (path, self.show(st, k))
                x = r.d.get(k)
                if x is None:
                    if not isinstance(e, Opt):
                        out.append((sub_path, 'missing (expected %s)' %
                                    self.xshow(e), None))
                    continue
                if not x[1] and not isinstance(e, Opt):
                    out.append((sub_path, 'may be missing', x[2]))
                out += self.diff(st, e, x[0], sub_path, True, x[2])
            for k, x in r.d.items():
                if k not in ks and (not sub or k in [self.mk(st, z)
                                                     for z in absent]):
                    out.append(('%s/%s' % (path, self.show(st, k)),
                                'unexpected (= %s)' % self.show(st, x[0]),
                                x[2]))
            return out
        if isinstance(exp, (list, Bag)):
            r = self.rec(st, v)
            items = None
            if isinstance(v, Tup):
                items = [(x, True) for x in v.items]
            elif isinstance(r, ListR):
                if r.opaque is not None:
                    raise Undecided('%s: unknown elements' % path)
                items = r.items
            if items is None:
                return [(path, 'expected a list, found %s' % self.show(st, v),
                         loc)]
            if isinstance(exp, Bag):
                rest = list(items)
                out = []
                for e in exp.items:
                    for i, (x, m) in enumerate(rest):
                        if m and not self.diff(st, e, x, path):
                            del rest[i]
                            break
                    else:
                        out.append((path, 'no element %s in %s' % (
                            self.xshow(e), self.show(st, v)), loc))
                for x, m in rest:
                    out.append((path, 'unexpected element %s' %
                                self.show(st, x), loc))
                return out
            out = []
            if len(items) != len(exp):
                return [(path, 'expected %s, found %s' % (
                    self.xshow(exp), self.show(st, v)), loc)]
            for i, (e, (x, m)) in enumerate(zip(exp, items)):
                if not m:
                    out.append(('%s/%d' % (path, i), 'may be missing', loc))
                out += self.diff(st, e, x, '%s/%d' % (path, i), True, loc)
            return out
        e = exp if isinstance(exp, V) else Const(exp)
        if e == v:
            return []
        if isinstance(e, Const) and isinstance(v, Const):
            if type(e.v) is type(v.v) and e.v == v.v:
                return []
        return [(path, 'expected %s, found %s' % (self.xshow(exp), self.show(
            st, v)), loc)]

    def rec(self, st, v):
        if isinstance(v, Ref):
            r = st.get(v.id)
            if isinstance(r, InstR) and r.payload is not None:
                return st.get(r.payload.id)
            return r
        return None

    def xshow(self, e):
        if isinstance(e, dict):
            return '{' + ', '.join('%s: %s' % (self.xshow(k), self.xshow(v))
                                   for k, v in e.items()) + '}'
        if isinstance(e, list):
            return '[' + ', '.join(self.xshow(x) for x in e) + ']'
        if isinstance(e, Const):
            return repr(e.v)
        if isinstance(e, (Opt, )):
            return self.xshow(e.v)
        if isinstance(e, Sub):
            return self.xshow(e.d)
        if isinstance(e, Bag):
            return self.xshow(e.items)
        return repr(e)

    def expect(self, st, exp, v, what=''):
        ds = self.diff(st, exp, v)
        if ds:
            loc = next((d[2] for d in ds if d[2] and d[2] != 'input'), None)
            raise Broken('%s: %s' % (what, '; '.join(
                '%s %s' % (d[0] or '.', d[1]) for d in ds[:4])), loc,
                all('may be' in d[1] for d in ds))


# ------------------------------------------------------------------ report
# seconds: the analysis of one obligation, and all those of one check
EACH = {'quick': 30, 'thorough': 150}
TOTAL = 780
ENOUGH = 300  # no need to go on for long after something was found


class Check(object):
    """collects obligations of one property"""

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.done = []  # (name, rule)
        self.broken = []
        self.undecided = []
        self.samples = []
        self.floor = 1
        self.notes = {}
        self._lab = None
        self.assumptions = []

    @property
    def lab(self):
        if self._lab is None:
            self._lab = Lab()
            self._lab.I.deadline = getattr(self, 'deadline', None)
        return self._lab

    def ob(self, name, rule, fn):
        """one obligation: fn() returns normally when discharged"""
        if os.environ.get('PYABS_TIME'):
            print('%.1f %s' % (time.time(), name), flush=True)
        ntop = len(self._lab.I.tops) if self._lab else 0
        left = TOTAL - (time.time() - self.t0)
        if self.fresh():
            left -= TOTAL - ENOUGH
        if left < 5:
            self.undecided.append((name, rule, 'no time left'))
            return
        self.deadline = time.time() + min(EACH[self.tier], left)
        if self._lab:
            self._lab.I.deadline = self.deadline
        try:
            fn()
        except Budget as e:
            self.undecided.append((name, rule, 'budget: %s' % e))
            del self._lab.I.stack[:]
        except Broken as e:
            tops = self._lab.I.tops[ntop:] if self._lab else []
            if e.soft and tops:
                self.undecided.append((name, rule, '%s (imprecise: %s)' % (
                    e, tops[0])))
            else:
                self.broken.append((name, rule, str(e), e.loc))
        except Undecided as e:
            self.undecided.append((name, rule, str(e)))
        except Unsupported as e:
            self.undecided.append((name, rule, 'unsupported: %s' % e))
        except RecursionError as e:
            self.undecided.append((name, rule, 'recursion: %s' % e))
        except (KeyError, AttributeError, TypeError, ValueError, IndexError,
                AssertionError, NotImplementedError) as e:
            if os.environ.get('PYABS_DEBUG'):
                raise
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided.append((name, rule, 'analyser: %s %s at %s:%d' % (
                type(e).__name__, e, os.path.basename(tb.filename),
                tb.lineno)))
        else:
            self.done.append((name, rule))

    def more(self, name, rule, fn):
        """an obligation of the thorough tier, as long as there is time"""
        if self.tier == 'thorough' and not self.fresh():
            if time.time() - self.t0 < TOTAL - 60:
                self.ob(name, rule, fn)
            else:
                self.notes['beyond the time'] = self.notes.get(
                    'beyond the time', 0) + 1

    def fresh(self):
        known = load_known(self.pid)
        return [b for b in self.broken if b[0] not in known]

    def each(self, names, rule, fn):
        for n in names:
            self.ob(str(n), rule, lambda: fn(n))


KNOWN = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'known_findings.txt')


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' :: ')
                out[key.strip()] = what.strip()
    return out


def finish(ck, level_note=''):
    known = load_known(ck.pid)
    root = os.path.dirname(KNOWN)
    total = len(ck.done) + len(ck.broken) + len(ck.undecided)
    fresh = []
    for b in ck.broken:
        if b[0] in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (ck.pid, b[0],
                                                         known[b[0]]))
        else:
            fresh.append(b)
    for u in ck.undecided:
        print('UNDECIDED %s [%s] %s' % u[:3])
    I = ck._lab.I if ck._lab else None
    cov = {
        'explanation': 'Static analysis (abstract interpretation / dataflow '
                       'over the parsed sources; nothing of the project is '
                       'imported or executed). obligations = instances of the '
                       'rules enumerated on the current tree; discharged = '
                       'instances for which the abstract result met the rule.',
        'obligations': total,
        'discharged': len(ck.done),
        'undecided': len(ck.undecided),
        'rules': sorted({r for _, r in ck.done} | {b[1] for b in ck.broken} |
                        {u[1] for u in ck.undecided}),
        'samples': [{'obligation': n, 'rule': r} for n, r in ck.done[:12]],
        'functions_analysed': len(I.visited_funcs) if I else 0,
        'function_names': sorted(I.visited_funcs)[:400] if I else [],
        'modules_parsed': len(I.sources) if I else 0,
        'abstract_calls': I.calls if I else 0,
    }
    cov.update(ck.notes)
    ev = {
        'property': ck.pid, 'tier': ck.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other', 'coverage': cov,
        'assumptions': ck.assumptions or [
            'Python library and six/yaml/urllib functions behave as modelled '
            'in pyabs/natives.py',
        ],
        'wall_s': round(time.time() - ck.t0, 3),
        'violations': len(fresh),
    }
    evd = os.environ.get('PYABS_EVIDENCE') or os.path.join(root, 'evidence')
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, ck.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %d obligations, %d discharged, %d undecided, %d violated '
          '(%.1fs)' % (ck.pid, total, len(ck.done), len(ck.undecided),
                       len(ck.broken), time.time() - ck.t0))
    if fresh:
        rp = os.path.join(evd, ck.pid + '.violation.txt')
        with open(rp, 'w') as f:
            for n, r, m, loc in fresh:
                f.write('%s\n  rule: %s\n  at: %s\n  %s\n' % (n, r, loc, m))
        for n, r, m, loc in fresh[:20]:
            print('  broken [%s] %s\n    at %s: %s' % (r, n, loc, m))
        print('VIOLATION property=%s replay=%s' % (ck.pid, rp))
        return 1
    if total < ck.floor or not ck.done or len(ck.undecided) * 2 > total:
        print('ERROR: %s not decided (%d obligations, floor %d, %d undecided)' %
              (ck.pid, total, ck.floor, len(ck.undecided)))
        return 2
    return 0


def main(pid, fn):
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    res = [2]

    def body():
        ck = Check(pid, tier)
        try:
            fn(ck)
        except (Broken, Undecided, Unsupported) as e:
            (ck.broken if isinstance(e, Broken) else ck.undecided).append(
                ('setup', 'anchor', str(e)) + ((e.loc, ) if isinstance(
                    e, Broken) else ()))
        res[0] = finish(ck)

    t = threading.Thread(target=body)
    t.start()
    t.join()
    return res[0]
