"""Abstract interpreter over the project's syntax trees.

The analysed project is never imported or executed: modules are parsed, their
top level is folded by constant propagation, and functions are analysed over
abstract values.  Unknown predicates analyse both arms and *join* the results
(no path enumeration, no constraint solving)."""
import ast
import os
import sys
import time

from .values import *  # noqa
from . import values as VV

REPO = os.environ.get('PYABS_REPO', '/repo')
PKG = 'pyopenapi'
MAXDEPTH = 220
MAXLOOP = 400


class Dead(Exception):
    """no state survives this point"""


class Unsupported(Exception):
    pass


class Budget(BaseException):
    """the analysis of one obligation takes too long: undecided"""


class Frame(object):
    __slots__ = ('env', 'mod', 'qual', 'cls', 'rets', 'loops', 'yield_cb',
                 'locals', 'genv', 'self_', 'line', 'depth', 'globals_decl',
                 'nonlocals', 'func')

    def __init__(self, env, mod, qual, cls, genv):
        self.env = env
        self.mod = mod
        self.qual = qual
        self.cls = cls
        self.genv = genv
        self.rets = []
        self.loops = []
        self.yield_cb = None
        self.locals = None
        self.self_ = None
        self.line = 0
        self.globals_decl = ()
        self.nonlocals = ()
        self.func = None


class FInfo(object):
    __slots__ = ('locals', 'is_gen', 'globals_', 'nonlocals')


def _scan_scope(body, args=None):
    names, gl, nl = set(), set(), set()
    gen = [False]

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # only walrus targets leak
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    target(m.target)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.Global):
            gl.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in body:
        walk(s)
    if args is not None:
        for a in (args.posonlyargs + args.args + args.kwonlyargs +
                  [x for x in (args.vararg, args.kwarg) if x]):
            names.add(a.arg)
    fi = FInfo()
    fi.locals = names - gl - nl
    fi.is_gen = gen[0]
    fi.globals_ = gl
    fi.nonlocals = nl
    return fi


BINOPS = {
    ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
    ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
    ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>',
}


class Interp(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.nextid = 1
        self.modules = {}  # name -> Ref
        self.sources = {}  # name -> (file, tree)
        self.finfo = {}
        self.sinks = [[]]
        self.stack = []
        self.watch = {}  # qualname -> callable(interp, st, args, kwargs)
        self.overrides = {}  # qualname -> native replacement
        self.frozen = None
        self.global_writes = []
        self.visited_funcs = set()
        self.visited_lines = set()
        self.steps = 0
        self.deadline = None
        self.tops = []
        self.unknown_calls = []
        self.calls = 0
        from . import natives
        self.nat = natives.Natives(self)
        self.builtins = self.nat.builtins
        self.st0 = State()
        self.curline = {}
        self.order_choice = 0

    # -------------------------------------------------------------- alloc
    def alloc(self, st, rec):
        i = self.nextid
        self.nextid += 1
        st.put(i, rec)
        return Ref(i)

    def new_list(self, st, vals=(), kind='list'):
        return self.alloc(st, ListR([(v, True) for v in vals], None, kind))

    def new_dict(self, st, pairs=()):
        d = {}
        for k, v in pairs:
            d[k] = (v, True, self.loc())
        return self.alloc(st, DictR(d))

    def mut(self, st, ref):
        if self.frozen is not None and ref.id in self.frozen:
            rec = st.get(ref.id)
            if isinstance(rec, (ClassR, DictR, ListR, InstR, FuncR)):
                self.global_writes.append((self.loc(), ref.id, type(rec).__name__))
        return st.mut(ref.id)

    def loc(self):
        for fr in reversed(self.stack):
            if fr.mod:
                return '%s:%d (%s)' % (self.relfile(fr.mod), fr.line, fr.qual)
        return '-'

    def relfile(self, mod):
        s = self.sources.get(mod)
        if not s:
            return mod
        f = s[0]
        if f.startswith(self.repo + '/'):
            f = f[len(self.repo) + 1:]
        return f

    def top(self, why):
        t = TopV('%s at %s' % (why, self.loc()))
        self.tops.append(t.why)
        return t

    # -------------------------------------------------------------- raising
    def raise_native(self, st, host, msg='', maybe=False):
        """raise builtin exception; when maybe, the current state goes on"""
        s2 = st.fork()
        e = self.alloc(s2, InstR(host if isinstance(host, NType) else NType(
            host), {
            'args': Tup([msg if isinstance(msg, V) else Const(msg)])
        }, None, self.loc()))
        self.sinks[-1].append((s2, e))
        if not maybe:
            raise Dead()

    # -------------------------------------------------------------- modules
    def module_file(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def import_module(self, name, st=None):
        st = st or self.st0
        if name in self.modules:
            return self.modules[name]
        if name.split('.')[0] != PKG:
            return NMod(name)
        if '.' in name:
            self.import_module(name.rsplit('.', 1)[0], st)
        f, is_pkg = self.module_file(name)
        if not f:
            self.raise_native(st, ImportError, 'No module named ' + name)
        src = open(f, encoding='utf-8').read()
        return self.load_source(name, f, src, st, is_pkg)

    def load_source(self, name, f, src, st=None, is_pkg=False):
        st = st or self.st0
        tree = ast.parse(src, f)
        self.sources[name] = (f, tree)
        env = self.alloc(st, EnvR({
            '__name__': Const(name),
            '__file__': Const(f),
            '__doc__': NONE,
            '__package__': Const(name if is_pkg else name.rpartition('.')[0]),
        }, None, 'module'))
        ref = self.alloc(st, ModR(name, env.id, f))
        self.modules[name] = ref
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            if parent in self.modules:
                penv = st.mut(st.get(self.modules[parent].id).env)
                penv.vars[leaf] = ref
        fr = Frame(env.id, name, '<module>', None, env.id)
        self.stack.append(fr)
        try:
            out = self.block(tree.body, fr, st)
            if out is None:
                raise Unsupported('module %s does not finish: %s' % (
                    name, [self.exc_text(s, e) for s, e in self.sinks[-1]][-2:]))
            if out is not st:
                st.become(out)
        finally:
            self.stack.pop()
        return ref

    def exc_text(self, st, e):
        if isinstance(e, Ref):
            r = st.get(e.id)
            if isinstance(r, InstR):
                return '%s%r @ %s' % (self.cls_name(r.cls, st),
                                      r.attrs.get('args', ''), r.loc)
        return repr(e)

    def cls_name(self, c, st):
        if isinstance(c, NType):
            return c.name
        return st.get(c.id).name

    # -------------------------------------------------------------- statements
    def block(self, stmts, fr, st):
        for s in stmts:
            st = self.stmt(s, fr, st)
            if st is None:
                return None
        return st

    def check_budget(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('more than the time allowed, at %s' % self.loc())

    def stmt(self, s, fr, st):
        fr.line = s.lineno
        self.steps += 1
        if not self.steps & 255:
            self.check_budget()
        if fr.mod:
            self.visited_lines.add((fr.mod, s.lineno))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (type(s).__name__,
                                                      self.loc()))
        try:
            return m(s, fr, st)
        except Dead:
            return None

    def s_Expr(self, s, fr, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, fr, st)
        return st

    def s_Pass(self, s, fr, st):
        return st

    def s_Assign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        for t in s.targets:
            self.assign(t, v, fr, st)
        return st

    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr, st), fr, st)
        return st

    def s_AugAssign(self, s, fr, st):
        load = ast.copy_location(
            ast.Name(s.target.id, ast.Load()), s.target) if isinstance(
                s.target, ast.Name) else None
        op = BINOPS[type(s.op)]
        if load is not None:
            cur = self.ev(load, fr, st)
            rhs = self.ev(s.value, fr, st)
            if not self.inplace(op, cur, rhs, st, fr):
                self.assign(s.target, self.binop(op, cur, rhs, st), fr, st)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, fr, st)
            name = self.mangle(s.target.attr, fr)
            cur = self.getattr(o, name, st)
            rhs = self.ev(s.value, fr, st)
            if self.inplace(op, cur, rhs, st, fr):
                self.setattr(o, name, cur, st)
            else:
                self.setattr(o, name, self.binop(op, cur, rhs, st), st)
        else:
            o = self.ev(s.target.value, fr, st)
            k = self.ev(s.target.slice, fr, st)
            cur = self.getitem(o, k, st)
            rhs = self.ev(s.value, fr, st)
            if not self.inplace(op, cur, rhs, st, fr):
                self.setitem(o, k, self.binop(op, cur, rhs, st), st)
        return st

    def inplace(self, op, cur, rhs, st, fr):
        """list += iterable and set |= set mutate in place"""
        if isinstance(cur, Ref):
            r = st.get(cur.id)
            if isinstance(r, ListR):
                if op == '+' and r.kind == 'list':
                    self.nat.list_extend(st, cur, rhs)
                    return True
                if op == '|' and r.kind == 'set':
                    self.nat.set_update(st, cur, rhs)
                    return True
            if isinstance(r, DictR) and op == '|':
                self.nat.dict_update(st, cur, [rhs], {})
                return True
        return False

    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(t.id, UNBOUND, fr, st)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr, st)
                k = self.ev(t.slice, fr, st)
                self.delitem(o, k, st)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr, st)
                self.delattr(o, self.mangle(t.attr, fr), st)
        return st

    def s_Return(self, s, fr, st):
        v = self.ev(s.value, fr, st) if s.value is not None else NONE
        fr.rets.append((st, v))
        return None

    def s_Raise(self, s, fr, st):
        if s.exc is None:
            e = self.current_exc(fr)
            self.sinks[-1].append((st, e))
            return None
        e = self.ev(s.exc, fr, st)
        if s.cause is not None:
            self.ev(s.cause, fr, st)
        if isinstance(e, NType) or (isinstance(e, Ref) and isinstance(
                st.get(e.id), ClassR)):
            e = self.call(e, [], {}, st)
        if isinstance(e, Ref):
            r = st.get(e.id)
            if isinstance(r, InstR):
                st.mut(e.id).loc = self.loc()
        elif isinstance(e, TopV):
            e = self.alloc(st, InstR(NType(Exception), {'args': Tup([])}, None,
                                     self.loc()))
        self.sinks[-1].append((st, e))
        return None

    exc_stack = None

    def current_exc(self, fr):
        st = self.__dict__.setdefault('_exc', [])
        if st:
            return st[-1]
        return NONE

    def s_Assert(self, s, fr, st):
        t, f = self.branch(s.test, fr, st)
        if f is not None:
            e = self.alloc(f, InstR(NType(AssertionError), {'args': Tup([])},
                                    None, self.loc()))
            self.sinks[-1].append((f, e))
        return t

    def s_Global(self, s, fr, st):
        return st

    def s_Nonlocal(self, s, fr, st):
        return st

    def s_If(self, s, fr, st):
        t, f = self.branch(s.test, fr, st)
        if t is not None:
            t = self.block(s.body, fr, t)
        if f is not None:
            f = self.block(s.orelse, fr, f)
        return join_states(t, f)

    def s_For(self, s, fr, st):
        it = self.ev(s.iter, fr, st)
        brks = []
        fr.loops.append(brks)

        def body(st2, v):
            conts = []
            fr.loops.append(conts)
            try:
                try:
                    self.assign(s.target, v, fr, st2)
                except Dead:
                    return None
                out = self.block(s.body, fr, st2)
            finally:
                fr.loops.pop()
            for c in conts:
                out = join_states(out, c)
            return out

        try:
            try:
                out = self.iterate(it, st, body)
            except Dead:
                out = None
        finally:
            fr.loops.pop()
        if out is not None and s.orelse:
            out = self.block(s.orelse, fr, out)
        for b in brks:
            out = join_states(out, b)
        return out

    # loops stack holds [breaks, continues, breaks, continues ...]
    def s_Break(self, s, fr, st):
        fr.loops[-2].append(st)
        return None

    def s_Continue(self, s, fr, st):
        fr.loops[-1].append(st)
        return None

    def s_While(self, s, fr, st):
        brks = []
        exits = None
        n = 0
        unknown = 0
        fr.loops.append(brks)
        try:
            while st is not None:
                fr.line = s.lineno
                try:
                    t, f = self.branch(s.test, fr, st)
                except Dead:
                    break
                exits = join_states(exits, f)
                if t is None:
                    break
                if f is not None:
                    unknown += 1
                prev = t.fork()
                conts = []
                fr.loops.append(conts)
                try:
                    out = self.block(s.body, fr, t)
                finally:
                    fr.loops.pop()
                for c in conts:
                    out = join_states(out, c)
                st = out
                n += 1
                if st is not None and unknown > 8:
                    j = join_states(prev, st)
                    if states_equal(j, prev):
                        break
                    st = self.widen(prev, j)
                    if states_equal(st, prev):
                        exits = join_states(exits, st)
                        break
                    if unknown > 16:
                        self.tops.append('while loop without fixpoint at ' +
                                         self.loc())
                        exits = join_states(exits, st)
                        break
                if n > MAXLOOP:
                    raise Unsupported('loop bound exceeded at ' + self.loc())
        finally:
            fr.loops.pop()
        if exits is not None and s.orelse:
            exits = self.block(s.orelse, fr, exits)
        for b in brks:
            exits = join_states(exits, b)
        return exits

    def widen(self, a, j):
        out = j.fork()
        for i in list(j.heap):
            ra = a.heap.get(i) or a.base.get(i)
            rj = j.heap[i]
            if ra is None or ra is rj or ra.same(rj):
                continue
            r = rj.clone()
            if isinstance(r, EnvR):
                for k, v in r.vars.items():
                    if ra.vars.get(k) != v:
                        r.vars[k] = TopV('loop')
            elif isinstance(r, InstR):
                for k, v in r.attrs.items():
                    if ra.attrs.get(k) != v:
                        r.attrs[k] = TopV('loop')
            elif isinstance(r, ListR):
                r = ListR([], TopV('loop'), r.kind)
            elif isinstance(r, DictR):
                r.opaque = TopV('loop')
                for k, e in list(r.d.items()):
                    if ra.d.get(k, (None, ))[0] != e[0]:
                        r.d[k] = (TopV('loop'), False, e[2])
            out.put(i, r)
        return out

    def s_FunctionDef(self, s, fr, st):
        f = self.make_func(s, fr, st, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr, st)
            f = self.call(dv, [f], {}, st)
        self.setvar(self.mangle(s.name, fr), f, fr, st)
        return st

    def make_func(self, s, fr, st, name):
        defaults = [self.ev(d, fr, st) for d in s.args.defaults]
        kwd = {}
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.ev(d, fr, st)
        env = fr.env
        # class scopes are skipped by nested functions
        rec = st.get(env)
        if rec.kind == 'class':
            env = rec.parent
        q = (fr.qual + '.' if fr.qual != '<module>' else '') + name
        return self.alloc(st, FuncR(s, defaults, kwd, env, fr.mod, q, fr.cls,
                                    {'__name__': Const(name)}))

    def s_ClassDef(self, s, fr, st):
        bases = [self.ev(b, fr, st) for b in s.bases]
        kws = {k.arg: self.ev(k.value, fr, st) for k in s.keywords}
        meta = kws.pop('metaclass', None)
        nb = []
        for b in bases:
            if isinstance(b, WithMeta):
                meta = meta or b.meta
                nb.extend(b.bases)
            else:
                nb.append(b)
        parent = fr.env
        env = self.alloc(st, EnvR({}, parent, 'class'))
        cf = Frame(env.id, fr.mod,
                   (fr.qual + '.' if fr.qual != '<module>' else '') + s.name,
                   s.name, fr.genv)
        cf.line = s.lineno
        cf.self_ = None
        self.stack.append(cf)
        try:
            out = self.block(s.body, cf, st)
        finally:
            self.stack.pop()
        if out is None:
            raise Dead()
        if out is not st:
            st.become(out)
        ns = st.get(env.id).vars
        pairs = [(Const('__module__'), Const(fr.mod)),
                 (Const('__qualname__'), Const(cf.qual))]
        for st0 in s.body[:1]:
            if isinstance(st0, ast.Expr) and isinstance(
                    st0.value, ast.Constant) and isinstance(
                        st0.value.value, str):
                pairs.append((Const('__doc__'), Const(st0.value.value)))
        for k, v in ns.items():
            if v != UNBOUND:
                pairs.append((Const(k), v))
        nsd = self.new_dict(st, pairs)
        c = self.make_class(meta, s.name, nb or [NType(object)], nsd, st)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr, st)
            c = self.call(dv, [c], {}, st)
        self.setvar(self.mangle(s.name, fr), c, fr, st)
        return st

    def make_class(self, meta, name, bases, nsd, st):
        if meta is None:
            for b in bases:
                m = self.meta_of(b, st)
                if m is not None and not isinstance(m, NType):
                    meta = m
                    break
        if meta is None or isinstance(meta, NType):
            return self.type_new(meta or NType(type), name, bases, nsd, st)
        new = self.lookup_class(meta, '__new__', st)
        args = [meta, Const(name), Tup(bases), nsd]
        if new is None or isinstance(new, Native):
            c = self.type_new(meta, name, bases, nsd, st)
        else:
            if isinstance(new, Wrap):
                new = new.func
            c = self.call(new, args, {}, st)
        init = self.lookup_class(meta, '__init__', st)
        if init is not None and not isinstance(init, Native):
            self.call(init, [c] + args[1:], {}, st)
        return c

    def meta_of(self, c, st):
        if isinstance(c, Ref):
            r = st.get(c.id)
            if isinstance(r, ClassR):
                return r.meta
        if isinstance(c, NType):
            return NType(type)
        return None

    def type_new(self, meta, name, bases, nsd, st):
        d = {}
        rec = st.get(nsd.id)
        for k, e in rec.d.items():
            if isinstance(k, Const):
                d[k.v] = e[0]
        if rec.opaque is not None:
            self.top('class namespace not constant: ' + name)
        # the implicit static-ness of __new__, class-ness of __init_subclass__
        mod = d.get('__module__', Const('?'))
        bases = [self.flat(b) for b in bases] or [NType(object)]
        c = self.alloc(st, ClassR(name, bases, (), d, meta,
                                  mod.v if isinstance(mod, Const) else '?',
                                  self.stack[-1].line if self.stack else 0))
        st.mut(c.id).mro = tuple(self.c3(c, bases, st))
        # __set_name__ / __init_subclass__
        isub = None
        for b in st.get(c.id).mro[1:]:
            if isinstance(b, Ref):
                isub = st.get(b.id).attrs.get('__init_subclass__')
                if isub is not None:
                    break
        if isub is not None:
            f = isub.func if isinstance(isub, Wrap) else isub
            self.call(f, [c], {}, st)
        return c

    def flat(self, b):
        return b

    def mro_of(self, c, st):
        if isinstance(c, NType):
            return [NType(h) for h in c.host.__mro__]
        return list(st.get(c.id).mro)

    def c3(self, c, bases, st):
        seqs = [self.mro_of(b, st) for b in bases] + [list(bases)]
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent MRO')
            out.append(h)
            for s in seqs:
                if s[0] == h:
                    del s[0]
        if NType(object) not in out:
            out.append(NType(object))
        return out

    def s_Import(self, s, fr, st):
        for a in s.names:
            m = self.import_module(a.name, st)
            if a.asname:
                self.setvar(a.asname, m, fr, st)
            else:
                top = a.name.split('.')[0]
                self.setvar(top, self.import_module(top, st), fr, st)
        return st

    def s_ImportFrom(self, s, fr, st):
        if s.module == '__future__':
            return st
        if s.level:
            f, _ = self.sources[fr.mod][0], None
            is_pkg = os.path.basename(f) == '__init__.py'
            parts = fr.mod.split('.')
            drop = s.level - (1 if is_pkg else 0)
            if drop:
                parts = parts[:-drop]
            base = '.'.join(parts + ([s.module] if s.module else []))
        else:
            base = s.module
        m = self.import_module(base, st)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, Ref):
                    for k, v in list(
                            st.get(st.get(m.id).env).vars.items()):
                        if not k.startswith('_'):
                            self.setvar(k, v, fr, st)
                continue
            if isinstance(m, NMod):
                v = self.nat.mod_attr(m, a.name, st)
            else:
                env = st.get(st.get(m.id).env)
                v = env.vars.get(a.name)
                if v is None or v == UNBOUND:
                    sub = base + '.' + a.name
                    if self.module_file(sub)[0]:
                        v = self.import_module(sub, st)
                    else:
                        self.raise_native(st, ImportError,
                                          'cannot import ' + a.name)
            self.setvar(a.asname or a.name, v, fr, st)
        return st

    def s_With(self, s, fr, st):
        return self._with(list(s.items), s.body, fr, st)

    def _with(self, items, body, fr, st):
        if not items:
            return self.block(body, fr, st)
        it = items[0]
        cm = self.ev(it.context_expr, fr, st)
        v = self.nat.cm_enter(cm, st)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr, st)

        def exit_(s2, exc=None):
            return self.nat.cm_exit(cm, s2, exc)

        return self._protected(
            lambda s2: self._with(items[1:], body, fr, s2), exit_, fr, st,
            swallow=True)

    def _protected(self, run, fin, fr, st, swallow=False):
        """run body, then `fin` on every way out"""
        sink = []
        self.sinks.append(sink)
        saved_rets = fr.rets
        fr.rets = []
        saved_loops = fr.loops
        fr.loops = [[] for _ in saved_loops]
        try:
            try:
                out = run(st)
            except Dead:
                out = None
        finally:
            self.sinks.pop()
            rets, fr.rets = fr.rets, saved_rets
            loops, fr.loops = fr.loops, saved_loops

        def f(s2, exc=None):
            try:
                return fin(s2, exc)
            except Dead:
                return None

        if out is not None:
            out = f(out)
        for s2, v in rets:
            s3 = f(s2)
            if s3 is not None:
                fr.rets.append((s3, v))
        for i, l in enumerate(loops):
            for s2 in l:
                s3 = f(s2)
                if s3 is not None:
                    fr.loops[i].append(s3)
        for s2, e in sink:
            s3 = f(s2, e)
            if s3 is not None:
                if isinstance(s3, tuple):  # swallowed
                    out = join_states(out, s3[0])
                else:
                    self.sinks[-1].append((s3, e))
        return out

    def s_Try(self, s, fr, st):
        if s.finalbody:
            inner = ast.Try(s.body, s.handlers, s.orelse, [])
            ast.copy_location(inner, s)

            def run(s2):
                if s.handlers:
                    return self.s_Try(inner, fr, s2)
                return self.block(s.body + s.orelse, fr, s2)

            def fin(s2, exc=None):
                return self.block(s.finalbody, fr, s2)

            return self._protected(run, fin, fr, st)
        sink = []
        self.sinks.append(sink)
        try:
            try:
                out = self.block(s.body, fr, st)
            except Dead:
                out = None
        finally:
            self.sinks.pop()
        if out is not None and s.orelse:
            out = self.block(s.orelse, fr, out)
        # group equal exception values
        excs = self.__dict__.setdefault('_exc', [])
        for s2, e in sink:
            cur = s2
            for h in s.handlers:
                if cur is None:
                    break
                if h.type is None:
                    m = True
                else:
                    try:
                        t = self.ev(h.type, fr, cur)
                    except Dead:
                        cur = None
                        break
                    m = self.isinstance(e, t, cur)
                if m is False:
                    continue
                hs = cur if m else cur.fork()
                excs.append(e)
                try:
                    if h.name:
                        self.setvar(h.name, e, fr, hs)
                    fr.line = h.lineno
                    r = self.block(h.body, fr, hs)
                    if r is not None and h.name:
                        self.setvar(h.name, UNBOUND, fr, r)
                finally:
                    excs.pop()
                out = join_states(out, r)
                if m:
                    cur = None
            if cur is not None:
                self.sinks[-1].append((cur, e))
        return out

    # -------------------------------------------------------------- variables
    def mangle(self, name, fr):
        if fr.cls and name.startswith('__') and not name.endswith('__'):
            c = fr.cls.lstrip('_')
            if c:
                return '_%s%s' % (c, name)
        return name

    def setvar(self, name, v, fr, st):
        if name in fr.globals_decl:
            if self.frozen is not None and fr.genv in self.frozen:
                self.global_writes.append((self.loc(), fr.genv, 'global ' + name))
            st.mut(fr.genv).vars[name] = v
            return
        if name in fr.nonlocals:
            e = st.get(fr.env).parent
            while e is not None:
                if name in st.get(e).vars:
                    st.mut(e).vars[name] = v
                    return
                e = st.get(e).parent
        st.mut(fr.env).vars[name] = v

    def lookup(self, name, fr, st):
        e = fr.env
        first = True
        while e is not None:
            rec = st.get(e)
            if name in rec.vars and (first or rec.kind != 'class'):
                return rec.vars[name]
            if first and fr.locals is not None and name in fr.locals:
                return UNBOUND
            first = False
            e = rec.parent
        g = st.get(fr.genv).vars
        if name in g:
            return g[name]
        return self.builtins.get(name)

    def e_Name(self, e, fr, st):
        v = self.lookup(self.mangle(e.id, fr), fr, st)
        if v is None:
            self.raise_native(st, NameError, e.id)
        if v == UNBOUND:
            self.raise_native(st, UnboundLocalError, e.id)
        if isinstance(v, Alt) and UNBOUND in v.opts:
            self.raise_native(st, UnboundLocalError, e.id, maybe=True)
            o = v.opts - {UNBOUND}
            v = next(iter(o)) if len(o) == 1 else Alt(o)
        return v

    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            self.setvar(self.mangle(t.id, fr), v, fr, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr, st)
            self.setattr(o, self.mangle(t.attr, fr), v, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr, st)
            k = self.ev(t.slice, fr, st)
            self.setitem(o, k, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, fr, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st)
        else:
            raise Unsupported('assign target')

    def unpack(self, t, v, fr, st):
        if isinstance(v, Alt) and all(isinstance(o, Tup) for o in v.opts):
            ls = {len(o.items) for o in v.opts}
            if len(ls) == 1:
                items = None
                for o in v.opts:
                    items = list(o.items) if items is None else [
                        jv(a, b) for a, b in zip(items, o.items)
                    ]
                v = Tup(items)
        try:
            vals = self.to_list(v, st)
        except Unsupported:
            vals = None
        n = len(t.elts)
        star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        if vals is None or any(not m for _, m in vals):
            w = self.top('unpacking unknown sequence')
            for x in t.elts:
                self.assign(x, w, fr, st)
            return
        vals = [x for x, _ in vals]
        if star:
            i = star[0]
            if len(vals) < n - 1:
                self.raise_native(st, ValueError, 'unpack')
            tail = n - i - 1
            for x, y in zip(t.elts[:i], vals[:i]):
                self.assign(x, y, fr, st)
            mid = vals[i:len(vals) - tail]
            self.assign(t.elts[i].value, self.new_list(st, mid), fr, st)
            for x, y in zip(t.elts[i + 1:], vals[len(vals) - tail:]):
                self.assign(x, y, fr, st)
            return
        if len(vals) != n:
            self.raise_native(st, ValueError,
                              'unpack %d into %d' % (len(vals), n))
        for x, y in zip(t.elts, vals):
            self.assign(x, y, fr, st)

    # -------------------------------------------------------------- branching
    def branch(self, test, fr, st):
        """-> (state when true | None, state when false | None)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.branch(test.operand, fr, st)
            return f, t
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            done = None
            cur = st
            for i, x in enumerate(test.values):
                try:
                    t, f = self.branch(x, fr, cur)
                except Dead:
                    t = f = None
                if isand:
                    done = join_states(done, f)
                    cur = t
                else:
                    done = join_states(done, t)
                    cur = f
                if cur is None:
                    break
            return (cur, done) if isand else (done, cur)
        if isinstance(test, ast.NamedExpr):
            v = self.ev(test.value, fr, st)
            self.assign(test.target, v, fr, st)
            return self.branch_value(v, st, test.target, fr)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            return self.branch_compare(test, fr, st)
        if isinstance(test, ast.Call) and isinstance(
                test.func, ast.Name) and test.func.id in (
                    'isinstance', 'hasattr', 'callable') and len(
                        test.args) >= 1 and not test.keywords and isinstance(
                            test.args[0], (ast.Name, ast.Attribute)):
            return self.branch_split(test, test.args[0], fr, st)
        v = self.ev(test, fr, st)
        return self.branch_value(v, st, test, fr)

    def branch_split(self, test, subject, fr, st):
        """evaluate a predicate over a subject that may be one of several
        alternatives, separately per alternative"""
        sv = self.peek(subject, fr, st)
        if isinstance(sv, Alt):
            T = F = None
            tv = fv = None
            for o in sorted(sv.opts, key=repr):
                s2 = st.fork()
                if not self.poke(subject, o, fr, s2):
                    break
                try:
                    v = self.ev(test, fr, s2)
                    t, f = self.branch_value(v, s2, None, fr)
                except Dead:
                    continue
                T = join_states(T, t)
                F = join_states(F, f)
            else:
                return T, F
        v = self.ev(test, fr, st)
        return self.branch_value(v, st, test, fr)

    def peek(self, e, fr, st):
        """value of a name / attribute of a plain instance, without effects"""
        if isinstance(e, ast.Name):
            v = self.lookup(self.mangle(e.id, fr), fr, st)
            return v
        if isinstance(e, ast.Attribute):
            o = self.peek(e.value, fr, st)
            if isinstance(o, Ref):
                r = st.get(o.id)
                if isinstance(r, InstR) and '__dict__' not in r.attrs:
                    return r.attrs.get(self.mangle(e.attr, fr))
        return None

    def poke(self, e, v, fr, st):
        if isinstance(e, ast.Name):
            n = self.mangle(e.id, fr)
            if n in st.get(fr.env).vars:
                st.mut(fr.env).vars[n] = v
                return True
            return False
        if isinstance(e, ast.Attribute):
            o = self.peek(e.value, fr, st)
            if isinstance(o, Ref):
                r = st.get(o.id)
                n = self.mangle(e.attr, fr)
                if isinstance(r, InstR) and n in r.attrs and (
                        '__dict__' not in r.attrs):
                    st.mut(o.id).attrs[n] = v
                    return True
        return False

    def branch_value(self, v, st, expr, fr):
        if isinstance(v, Alt) and expr is not None and isinstance(
                expr, (ast.Name, ast.Attribute, ast.NamedExpr)):
            if self.peek(expr, fr, st) == v:
                T = F = None
                for o in sorted(v.opts, key=repr):
                    s2 = st.fork()
                    if not self.poke(expr, o, fr, s2):
                        break
                    try:
                        t, f = self.branch_value(o, s2, None, fr)
                    except Dead:
                        continue
                    T = join_states(T, t)
                    F = join_states(F, f)
                else:
                    return T, F
        b = self.truth(v, st)
        if b is True:
            return st, None
        if b is False:
            return None, st
        t, f = st.fork(), st.fork()
        return self.refine(v, True, t), self.refine(v, False, f)

    def branch_compare(self, test, fr, st):
        op = test.ops[0]
        l, r = test.left, test.comparators[0]
        for subj in (l, r):
            sv = self.peek(subj, fr, st)
            if isinstance(sv, Alt) and isinstance(
                    op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.In,
                         ast.NotIn)):
                T = F = None
                for o in sorted(sv.opts, key=repr):
                    s2 = st.fork()
                    if not self.poke(subj, o, fr, s2):
                        break
                    try:
                        v = self.ev(test, fr, s2)
                        t, f = self.branch_value(v, s2, None, fr)
                    except Dead:
                        continue
                    T = join_states(T, t)
                    F = join_states(F, f)
                else:
                    return T, F
                break
        v = self.ev(test, fr, st)
        return self.branch_value(v, st, None, fr)

    def truth(self, v, st):
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Cat):
            return True if any(isinstance(p, str) for p in v.parts) or any(
                'truthy' in p.props for p in v.parts) else None
        if isinstance(v, Sym):
            if v.term[0] == 'not':
                pass
            if 'truthy' in v.props:
                return True
            f = st.facts.get(('truth', v.term))
            if f is not None:
                return f
            eq = st.facts.get(('eq', v.term))
            if eq is not None:
                return bool(eq.v)
            return None
        if isinstance(v, Ref):
            r = st.get(v.id)
            if isinstance(r, ListR):
                if r.kind == 'iter':
                    return True
                if any(m for _, m in r.items):
                    return True
                if r.items or r.opaque is not None:
                    return None
                return False
            if isinstance(r, DictR):
                if any(e[1] for e in r.d.values()):
                    return True
                if r.d or r.opaque is not None:
                    return None
                return False
            if isinstance(r, InstR):
                for nm in ('__bool__', '__nonzero__', '__len__'):
                    m = self.lookup_class(r.cls, nm, st)
                    if m is not None and not isinstance(m, Native):
                        x = self.call(m, [v], {}, st)
                        return self.truth(x, st)
                if r.payload is not None:
                    return self.truth(r.payload, st)
            return True
        if isinstance(v, Alt):
            bs = {self.truth(o, st) for o in v.opts}
            return bs.pop() if len(bs) == 1 else None
        if isinstance(v, TopV):
            return None
        if isinstance(v, NObj):
            return True
        return True

    def refine(self, v, b, st):
        """assume truth(v)==b in st; returns st or None when contradictory"""
        if isinstance(v, Sym):
            t = v.term
            if isinstance(t, tuple):
                if t[0] == 'not':
                    return self.refine(Sym(t[1], 'bool'), not b, st)
                if t[0] == 'eq' and len(t) == 3:
                    a, c = t[1], t[2]
                    if isinstance(c, tuple) and c[0] == 'c':
                        if b:
                            st.facts[('eq', a)] = Const(c[1])
                        else:
                            ne = st.facts.get(('ne', a), frozenset())
                            st.facts[('ne', a)] = ne | {Const(c[1])}
                if t[0] == 'has' and isinstance(t[1], int):
                    rec = st.mut(t[1])
                    k = t[2]
                    if isinstance(rec, DictR):
                        if b:
                            e = rec.d.get(k)
                            if e is not None:
                                rec.d[k] = (e[0], True, e[2])
                            elif rec.opaque is not None:
                                rec.d[k] = (rec.opaque, True, '-')
                        elif k in rec.d:
                            del rec.d[k]
            st.facts[('truth', t)] = b
        return st

    def join_eval(self, thunks, st):
        """evaluate several alternatives on forks and join; thunk(st)->value"""
        res = None
        val = None
        for i, th in enumerate(thunks):
            s2 = st.fork()
            try:
                v = th(s2)
            except Dead:
                continue
            if res is None:
                res, val = s2, v
            else:
                res = join_states(res, s2)
                val = jv(val, v)
        if res is None:
            raise Dead()
        st.become(res)
        return val

    # -------------------------------------------------------------- expressions
    def ev(self, e, fr, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (type(e).__name__,
                                                       self.loc()))
        if hasattr(e, 'lineno'):
            fr.line = e.lineno
        return m(e, fr, st)

    def e_Constant(self, e, fr, st):
        return Const(e.value)

    def e_Tuple(self, e, fr, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(v for v, _ in self.to_list(
                    self.ev(x.value, fr, st), st))
            else:
                out.append(self.ev(x, fr, st))
        return Tup(out)

    def e_List(self, e, fr, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.to_list(self.ev(x.value, fr, st), st))
            else:
                out.append((self.ev(x, fr, st), True))
        return self.alloc(st, ListR(out))

    def e_Set(self, e, fr, st):
        r = self.new_list(st, (), 'set')
        for x in e.elts:
            self.nat.set_add(st, r, self.ev(x, fr, st))
        return r

    def e_Dict(self, e, fr, st):
        r = self.new_dict(st)
        for k, x in zip(e.keys, e.values):
            if k is None:
                self.nat.dict_update(st, r, [self.ev(x, fr, st)], {})
            else:
                kv = self.ev(k, fr, st)
                self.nat.dict_set(st, r, kv, self.ev(x, fr, st))
        return r

    def e_JoinedStr(self, e, fr, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, fr, st)
                if x.conversion == 114:
                    parts.append(self.nat.repr_(v, st))
                else:
                    spec = None
                    if x.format_spec is not None:
                        spec = self.ev(x.format_spec, fr, st)
                    if spec is not None and spec != Const(''):
                        parts.append(self.nat.format_spec(v, spec, st))
                    else:
                        parts.append(self.nat.str_(v, st))
        return mkcat([self._strpart(p) for p in parts])

    def _strpart(self, p):
        if isinstance(p, V) and not is_str(p):
            return Sym(('str', term_of(p)), 'str')
        return p

    def e_FormattedValue(self, e, fr, st):
        return self.nat.str_(self.ev(e.value, fr, st), st)

    def e_NamedExpr(self, e, fr, st):
        v = self.ev(e.value, fr, st)
        # comprehension scopes: bind in the nearest function scope
        env = fr.env
        while st.get(env).kind == 'comp':
            env = st.get(env).parent
        st.mut(env).vars[e.target.id] = v
        return v

    def e_IfExp(self, e, fr, st):
        t, f = self.branch(e.test, fr, st)
        return self.merge2(t, lambda s: self.ev(e.body, fr, s), f,
                           lambda s: self.ev(e.orelse, fr, s), st)

    def merge2(self, t, ft, f, ff, st):
        vt = vf = None
        if t is not None:
            try:
                vt = ft(t)
            except Dead:
                t = None
        if f is not None:
            try:
                vf = ff(f)
            except Dead:
                f = None
        j = join_states(t, f)
        if j is None:
            raise Dead()
        if j is not st:
            st.become(j)
        if t is None:
            return vf
        if f is None:
            return vt
        return jv(vt, vf)

    def staying(self, v, isand, st):
        """the value of an operand at which and/or stops"""
        if isinstance(v, Alt):
            out = []
            for o in sorted(v.opts, key=repr):
                if self.truth(o, st) is not isand:
                    o = self.staying(o, isand, st)
                    if o not in out:
                        out.append(o)
            return out[0] if len(out) == 1 else Alt(out) if out else v
        if isinstance(v, Sym) and self.truth(v, st) is None:
            if v.kind == 'bool':
                return FALSE if isand else TRUE
            if isand and v.kind in ('str', 'int', 'num'):
                return Const('' if v.kind == 'str' else 0)
        return v

    def e_BoolOp(self, e, fr, st):
        isand = isinstance(e.op, ast.And)

        def rec(i, s):
            x = e.values[i]
            if i == len(e.values) - 1:
                return self.ev(x, fr, s)
            if not isinstance(x, (ast.Compare, ast.UnaryOp, ast.BoolOp, ast.Call)):
                v = self.ev(x, fr, s)
                if isinstance(v, Alt):
                    # split by truthiness
                    tr, fa = [], []
                    for o in sorted(v.opts, key=repr):
                        b = self.truth(o, s)
                        if b is not False:
                            tr.append(o)
                        if b is not True:
                            fa.append(o)
                    mk = lambda l: l[0] if len(l) == 1 else Alt(l)  # noqa
                    if isand:
                        stay, go = fa, tr
                    else:
                        stay, go = tr, fa
                    if not stay:
                        return rec(i + 1, s)
                    if not go:
                        return v
                    # refine the tested variable on the continuing side
                    s1, s2 = s.fork(), s.fork()
                    if self.peek(x, fr, s2) == v:
                        self.poke(x, mk(go), fr, s2)
                    return self.merge2(s1, lambda q: mk(stay), s2,
                                       lambda q: rec(i + 1, q), s)
                b = self.truth(v, s)
                if b is None:
                    s1 = self.refine(v, not isand, s.fork())
                    s2 = self.refine(v, isand, s.fork())
                    w = self.staying(v, isand, s)
                    return self.merge2(s1, lambda q: w, s2,
                                       lambda q: rec(i + 1, q), s)
                if b == isand:
                    return rec(i + 1, s)
                return v
            # predicates: value matters only when it is the result
            v = None
            t, f = None, None
            if isinstance(x, ast.Call):
                v = self.ev(x, fr, s)
                b = self.truth(v, s)
                if b is None:
                    s1 = self.refine(v, not isand, s.fork())
                    s2 = self.refine(v, isand, s.fork())
                    w = self.staying(v, isand, s)
                    return self.merge2(s1, lambda q: w, s2,
                                       lambda q: rec(i + 1, q), s)
                if b == isand:
                    return rec(i + 1, s)
                return v
            if isinstance(x, ast.BoolOp):
                v = self.ev(x, fr, s)
                b = self.truth(v, s)
                if b is None:
                    kv = self.staying(v, isand, s)
                    return self.merge2(s.fork(), lambda q: kv, s.fork(),
                                       lambda q: rec(i + 1, q), s)
                if b == isand:
                    return rec(i + 1, s)
                return v
            t, f = self.branch(x, fr, s)
            stay, go = (f, t) if isand else (t, f)
            return self.merge2(stay, lambda q: FALSE if isand else TRUE, go,
                               lambda q: rec(i + 1, q), s)

        return rec(0, st)

    def e_UnaryOp(self, e, fr, st):
        if isinstance(e.op, ast.Not):
            v = self.ev(e.operand, fr, st)
            b = self.truth(v, st)
            if b is not None:
                return Const(not b)
            if isinstance(v, Alt) or isinstance(v, TopV):
                return Alt([TRUE, FALSE])
            return Sym(('not', term_of(v)), 'bool')
        v = self.ev(e.operand, fr, st)
        if isinstance(v, Const):
            if isinstance(e.op, ast.USub):
                return Const(-v.v)
            if isinstance(e.op, ast.UAdd):
                return Const(+v.v)
            if isinstance(e.op, ast.Invert):
                return Const(~v.v)
        if isinstance(v, Sym):
            return Sym(('neg', term_of(v)), v.kind)
        return self.top('unary')

    def e_BinOp(self, e, fr, st):
        a = self.ev(e.left, fr, st)
        b = self.ev(e.right, fr, st)
        return self.binop(BINOPS[type(e.op)], a, b, st)

    def binop(self, op, a, b, st):
        return self.nat.binop(op, a, b, st)

    def e_Compare(self, e, fr, st):
        l = self.ev(e.left, fr, st)
        if len(e.ops) == 1:
            return self.compare(e.ops[0], l, self.ev(e.comparators[0], fr, st),
                                st)
        cur = l
        vals = []
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, fr, st)
            v = self.compare(op, cur, r, st)
            b = self.truth(v, st)
            if b is False:
                return FALSE
            vals.append((v, b))
            cur = r
        for v, b in vals:
            if b is None:
                return v
        return TRUE

    def compare(self, op, a, b, st):
        if isinstance(op, ast.Is):
            return self.nat.is_(a, b, st)
        if isinstance(op, ast.IsNot):
            return self.negate(self.nat.is_(a, b, st), st)
        if isinstance(op, ast.Eq):
            return self.nat.eq(a, b, st)
        if isinstance(op, ast.NotEq):
            return self.negate(self.nat.eq(a, b, st, neq=True), st)
        if isinstance(op, ast.In):
            return self.nat.contains(b, a, st)
        if isinstance(op, ast.NotIn):
            return self.negate(self.nat.contains(b, a, st), st)
        return self.nat.order(type(op).__name__, a, b, st)

    def negate(self, v, st):
        b = self.truth(v, st)
        if b is not None:
            return Const(not b)
        if isinstance(v, Sym):
            return Sym(('not', v.term), 'bool')
        return Alt([TRUE, FALSE])

    def e_Attribute(self, e, fr, st):
        o = self.ev(e.value, fr, st)
        fr.line = e.lineno
        return self.getattr(o, self.mangle(e.attr, fr), st)

    def e_Subscript(self, e, fr, st):
        o = self.ev(e.value, fr, st)
        k = self.ev(e.slice, fr, st)
        fr.line = e.lineno
        return self.getitem(o, k, st)

    def e_Slice(self, e, fr, st):
        return NObj('slice', (
            self.ev(e.lower, fr, st) if e.lower else NONE,
            self.ev(e.upper, fr, st) if e.upper else NONE,
            self.ev(e.step, fr, st) if e.step else NONE,
        ))

    def e_Lambda(self, e, fr, st):
        return self.make_func(e, fr, st, '<lambda>')

    def e_Starred(self, e, fr, st):
        raise Unsupported('starred')

    def e_Yield(self, e, fr, st):
        v = self.ev(e.value, fr, st) if e.value is not None else NONE
        if fr.yield_cb is None:
            raise Unsupported('yield outside generator')
        out = fr.yield_cb(st, v)
        if out is None:
            raise Dead()
        if out is not st:
            st.become(out)
        return NONE

    def e_YieldFrom(self, e, fr, st):
        v = self.ev(e.value, fr, st)
        out = self.iterate(v, st, lambda s, x: fr.yield_cb(s, x))
        if out is None:
            raise Dead()
        if out is not st:
            st.become(out)
        return NONE

    def e_Call(self, e, fr, st):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            if self.lookup('super', fr, st) == self.builtins['super']:
                return self.zero_super(fr, st)
        f = self.ev(e.func, fr, st)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                lst = self.to_list(self.ev(a.value, fr, st), st)
                for v, m in lst:
                    args.append(v)
            else:
                args.append(self.ev(a, fr, st))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr, st)
                if isinstance(d, Ref) and isinstance(st.get(d.id), DictR):
                    for kk, ent in st.get(d.id).d.items():
                        if isinstance(kk, Const):
                            kwargs[kk.v] = ent[0]
                else:
                    self.top('** of unknown mapping')
            else:
                kwargs[k.arg] = self.ev(k.value, fr, st)
        fr.line = e.lineno
        return self.call(f, args, kwargs, st)

    def zero_super(self, fr, st):
        f = fr
        env = st.get(fr.env)
        node = fr.func
        if node is None or not node.args.args:
            raise Unsupported('super() without self')
        name = node.args.args[0].arg
        self_ = self.lookup(name, fr, st)
        # find class by lexical name through module/env: use defining class
        cls = self.find_defining_class(fr, self_, st)
        return SuperV(cls, self_)

    def find_defining_class(self, fr, self_, st):
        c = self_
        if isinstance(self_, Ref):
            r = st.get(self_.id)
            if isinstance(r, InstR):
                c = r.cls
        for k in self.mro_of(c, st):
            if isinstance(k, Ref):
                kr = st.get(k.id)
                for v in kr.attrs.values():
                    for w in (v, getattr(v, 'func', None), getattr(
                            v, 'fget', None), getattr(v, 'fset', None)):
                        if isinstance(w, Ref):
                            fr2 = st.get(w.id)
                            if isinstance(fr2, FuncR) and fr2.node is fr.func:
                                return k
        raise Unsupported('super(): defining class not found')

    # comprehension
    def comp(self, gens, elt, fr, st):
        """elt(frame, st) called for every element"""
        env = self.alloc(st, EnvR({}, fr.env, 'comp'))
        f2 = Frame(env.id, fr.mod, fr.qual, fr.cls, fr.genv)
        f2.line = fr.line
        f2.yield_cb = fr.yield_cb
        f2.func = fr.func

        def run(i, s):
            if i == len(gens):
                try:
                    elt(f2, s)
                except Dead:
                    return None
                return s
            g = gens[i]
            try:
                it = self.ev(g.iter, f2 if i else fr, s)
            except Dead:
                return None

            def cb(s2, v):
                try:
                    self.assign(g.target, v, f2, s2)
                except Dead:
                    return None
                skip = None
                cur = s2
                for c in g.ifs:
                    try:
                        t, f = self.branch(c, f2, cur)
                    except Dead:
                        t = f = None
                    skip = join_states(skip, f)
                    cur = t
                    if cur is None:
                        break
                if cur is not None:
                    cur = run(i + 1, cur)
                return join_states(cur, skip)

            return self.iterate(it, s, cb)

        self.stack.append(f2)
        try:
            out = run(0, st)
        finally:
            self.stack.pop()
        if out is None:
            raise Dead()
        if out is not st:
            st.become(out)

    def e_ListComp(self, e, fr, st):
        r = self.new_list(st)

        def elt(f, s):
            v = self.ev(e.elt, f, s)
            self.nat.list_append(s, r, v)

        self.comp(e.generators, elt, fr, st)
        return r

    def e_GeneratorExp(self, e, fr, st):
        if any(isinstance(x, (ast.Call, )) for x in ast.walk(e.elt)) and False:
            pass
        r = self.e_ListComp(e, fr, st)
        self.mut(st, r).kind = 'iter'
        return r

    def e_SetComp(self, e, fr, st):
        r = self.new_list(st, (), 'set')

        def elt(f, s):
            self.nat.set_add(s, r, self.ev(e.elt, f, s))

        self.comp(e.generators, elt, fr, st)
        return r

    def e_DictComp(self, e, fr, st):
        r = self.new_dict(st)

        def elt(f, s):
            k = self.ev(e.key, f, s)
            self.nat.dict_set(s, r, k, self.ev(e.value, f, s))

        self.comp(e.generators, elt, fr, st)
        return r

    # -------------------------------------------------------------- iteration
    def iterate(self, v, st, cb):
        """cb(st, elem) -> State|None for every element; returns final state"""
        if isinstance(v, Alt):
            out = None
            for o in sorted(v.opts, key=repr):
                try:
                    out = join_states(out, self.iterate(o, st.fork(), cb))
                except Dead:
                    pass
            return out
        if isinstance(v, Ref):
            r = st.get(v.id)
            if isinstance(r, GenR):
                # nothing is left afterwards
                st.put(v.id, ListR([], None, 'iter'))
                return r.run(st, cb)
            if isinstance(r, InstR):
                m = self.lookup_class(r.cls, '__iter__', st)
                if m is not None and not isinstance(m, Native):
                    it = self.call(m, [v], {}, st)
                    if it == v:
                        return self.iterate_next(v, st, cb)
                    return self.iterate(it, st, cb)
                if r.payload is not None:
                    return self.iterate(r.payload, st, cb)
                m = self.lookup_class(r.cls, '__getitem__', st)
                if m is not None:
                    self.top('iteration by __getitem__')
            if isinstance(r, ListR) and r.kind == 'iter':
                # consuming
                items = r.items
                op = r.opaque
                rr = self.mut(st, v)
                rr.items = []
                rr.opaque = None
                return self.iter_items(items, op, st, cb)
            if isinstance(r, ListR) and r.kind in ('list', 'deque'):
                # live list: index based
                i = 0
                while True:
                    r = st.get(v.id)
                    if r.opaque is not None or any(
                            not m for _, m in r.items[i:]):
                        return self.iter_items(r.items[i:], r.opaque, st, cb)
                    if i >= len(r.items):
                        return st
                    st = cb(st, r.items[i][0])
                    if st is None:
                        return None
                    i += 1
                    if i > MAXLOOP:
                        raise Unsupported('loop bound at ' + self.loc())
        items, op = self.elements(v, st)
        return self.iter_items(items, op, st, cb, src=v)

    def iterate_next(self, v, st, cb):
        for _ in range(MAXLOOP):
            sink = []
            self.sinks.append(sink)
            m = self.getattr(v, '__next__', st)
            stop = None
            try:
                try:
                    x = self.call(m, [], {}, st)
                except Dead:
                    st = None
            finally:
                self.sinks.pop()
            for s2, e in sink:
                if self.isinstance(e, NType(StopIteration), s2):
                    stop = join_states(stop, s2)
                else:
                    self.sinks[-1].append((s2, e))
            if st is None:
                return stop
            st = cb(st, x)
            if st is None:
                return stop
            if stop is not None:
                st = join_states(st, stop)
                return st
        raise Unsupported('iterator bound')

    def elements(self, v, st):
        """-> ([(value, must)], opaque)"""
        if isinstance(v, Tup):
            return [(x, True) for x in v.items], None
        if isinstance(v, Const) and isinstance(v.v, str):
            return [(Const(c), True) for c in v.v], None
        if isinstance(v, Const) and isinstance(v.v, (tuple, list)):
            return [(Const(c), True) for c in v.v], None
        if isinstance(v, Const):
            self.raise_native(st, TypeError, 'not iterable: %r' % (v.v, ))
        if isinstance(v, Ref):
            r = st.get(v.id)
            if isinstance(r, ListR):
                return list(r.items), r.opaque
            if isinstance(r, DictR):
                its = [(k, e[1]) for k, e in r.d.items()]
                if r.opaque is not None:
                    return its, self.top('keys of unknown mapping')
                return its, None
            if isinstance(r, InstR):
                if self.lookup_class(r.cls, '__iter__', st) is None and \
                        r.payload is None:
                    self.raise_native(st, TypeError, 'not iterable: %s' %
                                      self.cls_name(r.cls, st))
        if isinstance(v, NObj) and v.kind == 'range':
            return [(Const(i), True) for i in range(*v.data)], None
        if isinstance(v, Sym) and v.kind in ('num', 'bool', 'int'):
            self.raise_native(st, TypeError, 'not iterable')
        if isinstance(v, TopV):
            return [], v
        if isinstance(v, (Sym, Cat)):
            return [], Sym(('elem', term_of(v)), 'any')
        return [], self.top('iteration over %r' % (v, ))

    def iter_items(self, items, op, st, cb, src=None):
        cur = st
        n = 0
        for v, must in items:
            if must:
                cur = cb(cur, v)
            else:
                a, b = cur.fork(), cur.fork()
                if isinstance(src, Ref) and isinstance(
                        a.get(src.id), DictR):
                    ra = a.mut(src.id)
                    if v in ra.d:
                        e = ra.d[v]
                        ra.d[v] = (e[0], True, e[2])
                    rb = b.mut(src.id)
                    rb.d.pop(v, None)
                try:
                    a = cb(a, v)
                except Dead:
                    a = None
                cur = join_states(a, b)
            if cur is None:
                return None
            n += 1
            if n > MAXLOOP:
                raise Unsupported('loop bound at ' + self.loc())
        if op is not None:
            # unknown number of further elements: fixpoint
            for i in range(8):
                prev = cur
                a = cur.fork()
                try:
                    a = cb(a, op)
                except Dead:
                    a = None
                j = join_states(prev, a)
                if states_equal(j, prev):
                    cur = j
                    break
                cur = j if i < 3 else self.widen(prev, j)
            else:
                self.tops.append('loop without fixpoint at ' + self.loc())
        return cur

    def to_list(self, v, st):
        """eager list of (value, must) -- raises Unsupported if unknown length"""
        out = self.new_list(st)

        def cb(s, x):
            self.nat.list_append(s, out, x)
            return s

        if isinstance(v, (Tup, Const)):
            items, op = self.elements(v, st)
            return items
        fin = self.iterate(v, st, cb)
        if fin is None:
            raise Dead()
        if fin is not st:
            st.become(fin)
        r = st.get(out.id)
        if r.opaque is not None:
            raise Unsupported('sequence of unknown length at ' + self.loc())
        return list(r.items)

    def to_listrec(self, v, st, kind='list'):
        out = self.alloc(st, ListR([], None, 'list'))

        def cb(s, x):
            self.nat.list_append(s, out, x)
            return s

        items = None
        if isinstance(v, Tup) or (isinstance(v, Const)
                                  and isinstance(v.v, str)):
            items, op = self.elements(v, st)
            self.mut(st, out).items = items
        elif isinstance(v, Ref) and isinstance(
                st.get(v.id), ListR) and st.get(v.id).kind != 'iter':
            r = st.get(v.id)
            w = self.mut(st, out)
            w.items = list(r.items)
            w.opaque = r.opaque
        elif isinstance(v, Ref) and isinstance(st.get(v.id), ListR):
            r = st.get(v.id)
            w = self.mut(st, out)
            w.items = list(r.items)
            w.opaque = r.opaque
            q = self.mut(st, v)
            q.items = []
            q.opaque = None
        elif isinstance(v, Ref) and isinstance(st.get(v.id), DictR):
            items, op = self.elements(v, st)
            w = self.mut(st, out)
            w.items = items
            w.opaque = op
        elif isinstance(v, TopV) or isinstance(v, (Sym, Cat)):
            w = self.mut(st, out)
            _, w.opaque = self.elements(v, st)
        else:
            fin = self.iterate(v, st, cb)
            if fin is None:
                raise Dead()
            if fin is not st:
                st.become(fin)
        if kind != 'list':
            self.mut(st, out).kind = kind
        return out

    # -------------------------------------------------------------- attributes
    def lookup_class(self, cls, name, st):
        """raw attribute through the MRO"""
        for k in self.mro_of(cls, st):
            if isinstance(k, Ref):
                v = st.get(k.id).attrs.get(name)
                if v is not None and v != UNBOUND:
                    return v
            else:
                v = self.nat.type_attr(k, name)
                if v is not None:
                    return v
        return None

    def bind(self, raw, self_, cls, st):
        """descriptor protocol for a raw class attribute accessed through self_"""
        if isinstance(raw, Alt):
            return self.join_eval([
                (lambda s, o=o: self.bind(o, self_, cls, s))
                for o in sorted(raw.opts, key=repr)
            ], st)
        if isinstance(raw, PropV):
            if raw.fget == NONE:
                self.raise_native(st, AttributeError, 'unreadable')
            return self.call(raw.fget, [self_], {}, st)
        if isinstance(raw, Wrap):
            if raw.kind == 'classmethod':
                return Bound(raw.func, cls)
            return raw.func
        if isinstance(raw, Ref):
            r = st.get(raw.id)
            if isinstance(r, FuncR):
                return Bound(raw, self_)
            if isinstance(r, InstR):
                g = self.lookup_class(r.cls, '__get__', st)
                if g is not None:
                    return self.call(g, [raw, self_, cls], {}, st)
        if isinstance(raw, Native) and raw.self_ is None and not raw.name.startswith(
                '='):
            return Native(raw.name, raw.fn, self_)
        return raw

    def getattr(self, o, name, st, default=None):
        """default: V or None (raise AttributeError)"""
        if isinstance(o, Ref):
            r = st.get(o.id)
            if isinstance(r, InstR):
                return self.inst_getattr(o, r, name, st, default)
            if isinstance(r, ClassR):
                return self.class_getattr(o, r, name, st, default)
            if isinstance(r, ModR):
                v = st.get(r.env).vars.get(name)
                if v is not None and v != UNBOUND:
                    return v
                sub = r.name + '.' + name
                if sub in self.modules:
                    return self.modules[sub]
                if default is not None:
                    return default
                self.raise_native(st, AttributeError, name)
            if isinstance(r, FuncR):
                if name == '__dict__':
                    return self.live_dict(o, st)
                v = self.own_attr(r, name, st)
                if v is not None and v != UNBOUND:
                    return v
                if name == '__qualname__':
                    return Const(r.qual)
                if name == '__module__':
                    return Const(r.mod)
                if name == '__doc__':
                    return Const(ast.get_docstring(r.node) if not isinstance(
                        r.node, ast.Lambda) else None)
                if name == '__class__':
                    return self.nat.FUNC
                if name == '__wrapped__':
                    pass
                if name == '__get__':
                    return Native('func.__get__', lambda i, s, a, k: Bound(
                        o, a[0]))
                if default is not None:
                    return default
                self.raise_native(st, AttributeError, name)
        if isinstance(o, Alt):
            return self.join_eval([
                (lambda s, x=x: self.getattr(x, name, s, default))
                for x in sorted(o.opts, key=repr)
            ], st)
        if isinstance(o, Bound):
            if name == '__func__':
                return o.func
            if name == '__self__':
                return o.self_
            return self.getattr(o.func, name, st, default)
        if isinstance(o, SuperV):
            return self.super_getattr(o, name, st, default)
        v = self.nat.getattr(o, name, st)
        if v is None:
            if default is not None:
                return default
            self.raise_native(st, AttributeError, '%r.%s' % (o, name))
        return v

    def live_dict(self, o, st):
        """o.__dict__ of an instance or function: from then on it has the
        attributes"""
        r = st.get(o.id)
        v = r.attrs.get('__dict__')
        if isinstance(v, Ref):
            return v
        if v is not None:
            return self.top('__dict__')
        d = self.new_dict(st, [(Const(k), x) for k, x in r.attrs.items()
                               if x != UNBOUND])
        self.mut(st, o).attrs['__dict__'] = d
        return d

    def own_attr(self, r, name, st):
        live = r.attrs.get('__dict__')
        if live is None:
            return r.attrs.get(name)
        if not isinstance(live, Ref):
            return self.top('__dict__')
        e = st.get(live.id).d.get(Const(name))
        if e is None:
            return None
        return e[0] if e[1] else jv(e[0], UNBOUND)

    def own_set(self, o, name, v, st):
        r = self.mut(st, o)
        live = r.attrs.get('__dict__')
        if isinstance(live, Ref):
            d = self.mut(st, live).d
            if v is None:
                d.pop(Const(name), None)
            else:
                d[Const(name)] = (v, True, self.loc())
        if v is None:
            r.attrs.pop(name, None)
        else:
            r.attrs[name] = v

    def inst_getattr(self, o, r, name, st, default):
        ga = self.lookup_class(r.cls, '__getattribute__', st)
        if ga is not None and not isinstance(ga, Native):
            return self.call(ga, [o, Const(name)], {}, st)
        raw = self.lookup_class(r.cls, name, st)
        if isinstance(raw, PropV):
            if default is not None:
                # getattr(o, n, d): AttributeError raised inside is caught
                return self.catch_attr(lambda s: self.bind(raw, o, r.cls, s),
                                       default, st)
            return self.bind(raw, o, r.cls, st)
        if name == '__class__':
            return r.cls
        if name == '__dict__':
            return self.live_dict(o, st)
        v = self.own_attr(r, name, st)
        if v is not None and v != UNBOUND:
            if isinstance(v, Alt) and UNBOUND in v.opts:
                rest = v.opts - {UNBOUND}
                w = next(iter(rest)) if len(rest) == 1 else Alt(rest)
                if default is not None:
                    return jv(w, default)
                self.raise_native(st, AttributeError, name, maybe=True)
                return w
            return v
        if raw is not None:
            return self.bind(raw, o, r.cls, st)
        if r.payload is not None:
            v = self.nat.getattr(r.payload, name, st)
            if v is not None:
                return v
        g = self.lookup_class(r.cls, '__getattr__', st)
        if g is not None and not isinstance(g, Native):
            if default is not None:
                return self.catch_attr(
                    lambda s: self.call(g, [o, Const(name)], {}, s), default,
                    st)
            return self.call(g, [o, Const(name)], {}, st)
        if default is not None:
            return default
        self.raise_native(st, AttributeError, '%s.%s' % (self.cls_name(
            r.cls, st), name))

    def catch_attr(self, thunk, default, st):
        sink = []
        self.sinks.append(sink)
        val = None
        alive = True
        try:
            try:
                val = thunk(st)
            except Dead:
                alive = False
        finally:
            self.sinks.pop()
        caught = None
        for s2, e in sink:
            m = self.isinstance(e, NType(AttributeError), s2)
            if m is not False:
                caught = join_states(caught, s2)
            if m is not True:
                self.sinks[-1].append((s2, e))
        if caught is None:
            if not alive:
                raise Dead()
            return val
        if not alive:
            st.become(caught)
            return default
        j = join_states(st.fork(), caught)
        st.become(j)
        return jv(val, default)

    def class_getattr(self, o, r, name, st, default):
        if name == '__mro__':
            return Tup(r.mro)
        if name == '__name__' and '__name__' not in r.attrs:
            return Const(r.name)
        if name == '__bases__':
            return Tup(r.bases)
        if name == '__class__':
            return r.meta
        if name == '__dict__':
            return self.new_dict(st, [(Const(k), v)
                                      for k, v in r.attrs.items()])
        if name == '__subclasses__':
            return self.top('__subclasses__')
        raw = self.lookup_class(o, name, st)
        if raw is not None and not (isinstance(raw, Native)
                                    and raw.name.startswith('object.')):
            if isinstance(raw, Wrap):
                return Bound(raw.func, o) if raw.kind == 'classmethod' else raw.func
            if isinstance(raw, Ref):
                rr = st.get(raw.id)
                if isinstance(rr, InstR):
                    g = self.lookup_class(rr.cls, '__get__', st)
                    if g is not None:
                        return self.call(g, [raw, NONE, o], {}, st)
            return raw
        if isinstance(r.meta, Ref):
            raw = self.lookup_class(r.meta, name, st)
            if raw is not None:
                return self.bind(raw, o, r.meta, st)
        if name == 'mro':
            return Native('mro', lambda i, s, a, k: i.new_list(s, r.mro))
        if name == '__doc__':
            return NONE
        if name == '__module__':
            return Const(r.mod)
        if name in ('__init__', '__new__'):
            return Native('object.' + name, self.nat.object_init)
        if default is not None:
            return default
        self.raise_native(st, AttributeError, 'type object %s.%s' % (r.name,
                                                                      name))

    def super_getattr(self, o, name, st, default):
        s = o.self_
        start = None
        if isinstance(s, Ref):
            r = st.get(s.id)
            if isinstance(r, InstR):
                start = r.cls
            elif isinstance(r, ClassR):
                mro = self.mro_of(s, st)
                start = s if o.cls in mro else r.meta
        if start is None:
            return self.top('super')
        mro = self.mro_of(start, st)
        i = mro.index(o.cls) if o.cls in mro else -1
        for k in mro[i + 1:]:
            if isinstance(k, Ref):
                raw = st.get(k.id).attrs.get(name)
            else:
                raw = self.nat.type_attr(k, name)
            if raw is not None and raw != UNBOUND:
                if name == '__new__':
                    return raw.func if isinstance(raw, Wrap) else raw
                if isinstance(s, Ref) and isinstance(
                        st.get(s.id), ClassR) and isinstance(raw, Wrap):
                    return Bound(raw.func, s)
                return self.bind(raw, s, start, st)
            if isinstance(k, NType) and isinstance(s, Ref):
                r = st.get(s.id)
                if isinstance(r, InstR) and r.payload is not None:
                    v = self.nat.getattr(r.payload, name, st)
                    if v is not None:
                        return v
        if name in ('__init__', '__init_subclass__'):
            return Native('object.' + name, self.nat.object_init)
        if name == '__new__':
            return Native('type.__new__', self.nat.type_dunder_new)
        if default is not None:
            return default
        self.raise_native(st, AttributeError, 'super.' + name)

    def setattr(self, o, name, v, st):
        if isinstance(o, Alt):
            for x in sorted(o.opts, key=repr):
                s1 = st.fork()
                s2 = st.fork()
                try:
                    self.setattr(x, name, v, s1)
                except Dead:
                    s1 = None
                st.become(join_states(s1, s2))
            return
        if isinstance(o, Ref):
            r = st.get(o.id)
            if isinstance(r, InstR):
                raw = self.lookup_class(r.cls, name, st)
                if isinstance(raw, PropV):
                    if raw.fset == NONE:
                        self.raise_native(st, AttributeError,
                                          "can't set attribute " + name)
                    self.call(raw.fset, [o, v], {}, st)
                    return
                sa = self.lookup_class(r.cls, '__setattr__', st)
                if sa is not None and not isinstance(sa, Native):
                    self.call(sa, [o, Const(name), v], {}, st)
                    return
                self.own_set(o, name, v, st)
                return
            if isinstance(r, (ClassR, FuncR)):
                self.own_set(o, name, v, st)
                return
            if isinstance(r, ModR):
                if self.frozen is not None and o.id in self.frozen:
                    self.global_writes.append((self.loc(), o.id, 'module'))
                st.mut(r.env).vars[name] = v
                return
        if isinstance(o, TopV) or isinstance(o, NObj) or isinstance(o, Sym):
            self.tops.append('attribute write on unknown object at ' +
                             self.loc())
            return
        self.raise_native(st, AttributeError, 'cannot set ' + name)

    def delattr(self, o, name, st):
        if isinstance(o, Ref):
            r = self.mut(st, o)
            if isinstance(r, (InstR, ClassR, FuncR)):
                if name in r.attrs or not isinstance(
                        r, ClassR) and self.own_attr(r, name, st) not in (
                            None, UNBOUND):
                    self.own_set(o, name, None, st)
                    return
        self.raise_native(st, AttributeError, name)

    def getitem(self, o, k, st):
        if isinstance(o, Alt):
            return self.join_eval([
                (lambda s, x=x: self.getitem(x, k, s))
                for x in sorted(o.opts, key=repr)
            ], st)
        if isinstance(k, Alt):
            return self.join_eval([
                (lambda s, x=x: self.getitem(o, x, s))
                for x in sorted(k.opts, key=repr)
            ], st)
        if isinstance(o, Ref):
            r = st.get(o.id)
            if isinstance(r, InstR):
                m = self.lookup_class(r.cls, '__getitem__', st)
                if m is not None and not isinstance(m, Native):
                    return self.call(m, [o, k], {}, st)
                if r.payload is not None:
                    return self.nat.getitem(r.payload, k, st, self_=o)
                self.raise_native(st, TypeError, 'not subscriptable')
        return self.nat.getitem(o, k, st)

    def setitem(self, o, k, v, st):
        if isinstance(o, Ref):
            r = st.get(o.id)
            if isinstance(r, InstR):
                m = self.lookup_class(r.cls, '__setitem__', st)
                if m is not None and not isinstance(m, Native):
                    self.call(m, [o, k, v], {}, st)
                    return
                if r.payload is not None:
                    return self.nat.setitem(r.payload, k, v, st)
                self.raise_native(st, TypeError, 'no item assignment')
        if isinstance(o, Alt):
            for x in sorted(o.opts, key=repr):
                s1, s2 = st.fork(), st.fork()
                try:
                    self.setitem(x, k, v, s1)
                except Dead:
                    s1 = None
                st.become(join_states(s1, s2))
            return
        self.nat.setitem(o, k, v, st)

    def delitem(self, o, k, st):
        if isinstance(o, Ref):
            r = st.get(o.id)
            if isinstance(r, InstR):
                m = self.lookup_class(r.cls, '__delitem__', st)
                if m is not None and not isinstance(m, Native):
                    self.call(m, [o, k], {}, st)
                    return
                if r.payload is not None:
                    return self.nat.delitem(r.payload, k, st)
        self.nat.delitem(o, k, st)

    # -------------------------------------------------------------- types
    def type_of(self, v, st):
        if isinstance(v, Const):
            return NType(type(v.v))
        if isinstance(v, Cat):
            return NType(str)
        if isinstance(v, Tup):
            return NType(tuple)
        if isinstance(v, Sym):
            return {
                'str': NType(str), 'bool': NType(bool), 'int': NType(int)
            }.get(v.kind, None)
        if isinstance(v, Ref):
            r = st.get(v.id)
            if isinstance(r, InstR):
                return r.cls
            if isinstance(r, ClassR):
                return r.meta
            if isinstance(r, ListR):
                return NType({'list': list, 'set': set, 'iter': type(iter([])),
                              'deque': __import__('collections').deque,
                              'frozenset': frozenset}[r.kind])
            if isinstance(r, DictR):
                return NType(dict)
            if isinstance(r, FuncR):
                return self.nat.FUNC
            if isinstance(r, ModR):
                return self.nat.MODULE
            if isinstance(r, GenR):
                return self.nat.GEN
        if isinstance(v, NType):
            return NType(type)
        if isinstance(v, Bound):
            return self.nat.METHOD
        if isinstance(v, Native):
            return self.nat.BUILTIN
        if isinstance(v, PropV):
            return NType(property)
        if isinstance(v, Wrap):
            return NType(classmethod if v.kind == 'classmethod' else staticmethod)
        if isinstance(v, NObj) and v.kind == 'bytes':
            return NType(bytes)
        if isinstance(v, NObj):
            return NType(type('N_' + v.kind, (object, ), {}), 'N_' + v.kind)
        return None

    def issubclass(self, c, k, st):
        if isinstance(k, Tup):
            res = False
            for x in k.items:
                b = self.issubclass(c, x, st)
                if b is True:
                    return True
                if b is None:
                    res = None
            return res
        if isinstance(c, NType):
            if isinstance(k, NType):
                try:
                    return issubclass(c.host, k.host)
                except TypeError:
                    return None
            return False
        if isinstance(c, Ref) and isinstance(st.get(c.id), ClassR):
            mro = st.get(c.id).mro
            if k in mro:
                return True
            if isinstance(k, NType):
                import collections.abc as cabc
                if k.host.__module__ in ('collections.abc', '_collections_abc'):
                    return None
            return False
        return None

    def isinstance(self, v, k, st):
        if isinstance(k, Tup):
            res = False
            for x in k.items:
                b = self.isinstance(v, x, st)
                if b is True:
                    return True
                if b is None:
                    res = None
            return res
        if isinstance(k, Alt) or isinstance(k, TopV):
            return None
        if isinstance(v, Alt):
            bs = {self.isinstance(o, k, st) for o in v.opts}
            return bs.pop() if len(bs) == 1 else None
        if isinstance(v, TopV):
            return None
        if isinstance(v, Sym):
            if not isinstance(k, NType):
                return False
            return self.sym_isinstance(v, k, st)
        t = self.type_of(v, st)
        if t is None:
            return None
        return self.issubclass(t, k, st)

    def sym_isinstance(self, v, k, st):
        kinds = {
            'str': (str, ), 'int': (int, ), 'bool': (bool, ),
            'num': (int, float), 'any': (str, int, float, bool, list, dict),
        }[v.kind]
        excl = [p[1] for p in v.props
                if isinstance(p, tuple) and p[0] == 'nottype']
        known = st.facts.get(('types', v.term))
        if known is not None:
            kinds = known
        kinds = [h for h in kinds if h.__name__ not in excl]
        bs = set()
        for h in kinds:
            try:
                bs.add(issubclass(h, k.host))
            except TypeError:
                bs.add(None)
        if len(bs) == 1:
            return bs.pop()
        return None

    # -------------------------------------------------------------- calls
    def call(self, f, args, kwargs, st):
        self.calls += 1
        if not self.calls & 255:
            self.check_budget()
        if isinstance(f, Ref):
            r = st.get(f.id)
            if isinstance(r, FuncR):
                return self.call_user(f, r, args, kwargs, st)
            if isinstance(r, ClassR):
                return self.instantiate(f, r, args, kwargs, st)
            if isinstance(r, InstR):
                m = self.lookup_class(r.cls, '__call__', st)
                if m is not None:
                    return self.call(self.bind(m, f, r.cls, st), args, kwargs,
                                     st)
            self.raise_native(st, TypeError, 'not callable')
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs, st)
        if isinstance(f, Native):
            a = list(args) if f.self_ is None else [f.self_] + list(args)
            return f.fn(self, st, a, kwargs)
        if isinstance(f, NType):
            return self.nat.construct(f, args, kwargs, st)
        if isinstance(f, Alt):
            return self.join_eval([
                (lambda s, x=x: self.call(x, args, kwargs, s))
                for x in sorted(f.opts, key=repr)
            ], st)
        if isinstance(f, Wrap):
            return self.call(f.func, args, kwargs, st)
        if isinstance(f, (NObj, NMod)):
            return self.nat.call_obj(f, args, kwargs, st)
        if isinstance(f, Const):
            self.raise_native(st, TypeError, '%r is not callable' % (f.v, ))
        if isinstance(f, Sym):
            st.events = st.events + (('call', term_of(f), self.loc()), )
            if 'callback' in f.props:
                return Sym(('app', f.term) + tuple(term_of(a) for a in args),
                           'any', frozenset(['truthy']))
        self.unknown_calls.append('%r at %s' % (f, self.loc()))
        return self.top('call of unknown %r' % (f, ))

    def fi(self, node):
        x = self.finfo.get(id(node))
        if x is None:
            if isinstance(node, ast.Lambda):
                x = _scan_scope([ast.Expr(node.body)], node.args)
            else:
                x = _scan_scope(node.body, node.args)
            self.finfo[id(node)] = x
            # keep the node alive
            self.finfo[('k', id(node))] = node
        return x

    def bind_args(self, r, args, kwargs, st):
        a = r.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        for n, v in zip(names, args):
            out[n] = v
        extra = args[len(names):]
        if extra and not a.vararg:
            self.raise_native(st, TypeError, '%s(): too many arguments' %
                              r.qual)
        if a.vararg:
            out[a.vararg.arg] = Tup(extra)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kwargs:
                if n in out:
                    self.raise_native(st, TypeError, 'multiple values for ' + n)
                out[n] = kwargs.pop(n)
        nd = len(r.defaults)
        for n, d in zip(names[len(names) - nd:], r.defaults):
            out.setdefault(n, d)
        for n, d in r.kwdefaults.items():
            out.setdefault(n, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                self.raise_native(st, TypeError, '%s(): missing argument %s' %
                                  (r.qual, n))
        if a.kwarg:
            out[a.kwarg.arg] = self.new_dict(st, [(Const(k), v)
                                                  for k, v in kwargs.items()])
        elif kwargs:
            self.raise_native(st, TypeError, '%s(): unexpected %s' % (
                r.qual, sorted(kwargs)))
        return out

    def call_user(self, f, r, args, kwargs, st):
        q = '%s.%s' % (r.mod, r.qual)
        if q in self.overrides:
            return self.overrides[q](self, st, list(args), kwargs)
        if len(self.stack) > MAXDEPTH:
            raise Unsupported('call depth exceeded in %s' % q)
        info = self.fi(r.node)
        loc = bound = self.bind_args(r, args, kwargs, st)
        w = self.watch.get(q)
        if w is not None:
            w(self, st, bound, self.loc())
        self.visited_funcs.add(q)
        genv = st.get(self.modules[r.mod].id).env if r.mod in self.modules else r.env
        if info.is_gen:
            # bind now, run when iterated
            def run(s, cb):
                return self.run_body(r, info, bound, genv, s, cb)[0]

            return self.alloc(st, GenR(run))
        out, val = self.run_body(r, info, bound, genv, st, None)
        if out is None:
            raise Dead()
        if out is not st:
            st.become(out)
        return val

    def run_body(self, r, info, bound, genv, st, cb):
        env = self.alloc(st, EnvR(bound, r.env, 'func'))
        fr = Frame(env.id, r.mod, r.qual, r.cls, genv)
        fr.locals = info.locals
        fr.globals_decl = info.globals_
        fr.nonlocals = info.nonlocals
        fr.yield_cb = cb
        fr.func = r.node
        fr.line = r.node.lineno
        self.stack.append(fr)
        try:
            if isinstance(r.node, ast.Lambda):
                try:
                    v = self.ev(r.node.body, fr, st)
                    return st, v
                except Dead:
                    return None, None
            out = self.block(r.node.body, fr, st)
        finally:
            self.stack.pop()
        rets = fr.rets
        if out is not None:
            rets = rets + [(out, NONE)]
        if not rets:
            return None, None
        s, v = rets[0]
        for s2, v2 in rets[1:]:
            s = join_states(s, s2)
            v = jv(v, v2)
        return s, v

    def instantiate(self, c, r, args, kwargs, st):
        # metaclass call?
        if NType(type) in r.mro:
            nm = args[0]
            return self.make_class(c, nm.v if isinstance(nm, Const) else '?',
                                   [x for x, _ in self.to_list(args[1], st)],
                                   args[2], st)
        if isinstance(r.meta, Ref):
            mc = self.lookup_class(r.meta, '__call__', st)
            if mc is not None and not isinstance(mc, Native):
                return self.call(mc, [c] + list(args), kwargs, st)
        new = self.lookup_class(c, '__new__', st)
        if new is not None and not isinstance(new, Native):
            if isinstance(new, Wrap):
                new = new.func
            o = self.call(new, [c] + list(args), kwargs, st)
            if self.isinstance(o, c, st) is not True:
                return o
        else:
            o = self.bare_instance(c, r, args, kwargs, st)
        init = self.lookup_class(c, '__init__', st)
        if init is not None and not isinstance(init, Native):
            self.call(init, [o] + list(args), kwargs, st)
        elif isinstance(init, Native):
            pass
        return o

    def bare_instance(self, c, r, args, kwargs, st):
        payload = None
        attrs = {}
        for k in r.mro:
            if isinstance(k, NType):
                if issubclass(k.host, BaseException):
                    attrs['args'] = Tup(args)
                    break
                if issubclass(k.host, dict):
                    payload = self.new_dict(st)
                    # dict.__init__ runs only when not overridden
                    init = self.lookup_class(c, '__init__', st)
                    if init is None or isinstance(init, Native):
                        self.nat.dict_update(st, payload, args, kwargs)
                    break
                if issubclass(k.host, list):
                    payload = self.new_list(st)
                    break
                if k.host.__name__ == 'namedtuple':
                    break
        return self.alloc(st, InstR(c, attrs, payload, self.loc()))
