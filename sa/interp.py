"""Forward abstract interpreter over the exported AST.

Abstract domain: every location maps to a provenance term; branches join with gated phi terms; loops are
analysed once with the assigned locations havocked; conditions on the current path are kept as a set of
must-hold literals.  Calls of repository functions are analysed in the caller's context (helper extraction
does not change the result), everything else is an opaque, logged event.  Nothing is executed and no solver
is consulted."""
import sys
from term import *
import term as _t

sys.setrecursionlimit(20000)


def _children(t):
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            st.extend(x)


_t.children = _children
children = _children


LISTALG = {'iota', 'reverse', 'fill', 'memcpy', 'memmove', 'copy', 'copy_n'}


class Program:
    def __init__(self, raw):
        self.funcs = raw['funcs']
        self.decls = raw['decls']
        self.classes = raw['classes']
        self.enums = raw['enums']
        self.gvars = raw['gvars']
        self.tus = raw['tus']
        self.by_name = {}
        self.by_short = {}
        for r in self.funcs.values():
            self.by_name.setdefault(r['fn'], []).append(r)
            self.by_short.setdefault(r['n'], []).append(r)
        self.fields = {n: {f['n']: f for f in c['fields']} for n, c in self.classes.items()}
        self.derived = {}
        for n, c in self.classes.items():
            for b in c['bases']:
                self.derived.setdefault(b, []).append(n)
        self.overriders = {}
        for r in self.funcs.values():
            for o in r.get('over', ()):
                self.overriders.setdefault(o, []).append(r)

    def sig(self, u):
        return self.funcs.get(u) or self.decls.get(u)

    def find(self, qual, **kw):
        return [r for r in self.by_name.get(qual, []) if all(r.get(k) == v for k, v in kw.items())]

    def subclasses(self, n):
        out, st = set(), [n]
        while st:
            x = st.pop()
            for d in self.derived.get(x, ()):
                if d not in out:
                    out.add(d)
                    st.append(d)
        return out


def strip_cvref(t):
    t = t.strip()
    while True:
        if t.endswith('&'): t = t[:-1].strip()
        elif t.startswith('const '): t = t[6:]
        elif t.endswith(' const'): t = t[:-6]
        else: return t


def is_ref(t):
    return t.endswith('&')


def is_nonconst_ref(t):
    return t.endswith('&') and not t.endswith('&&') and not t.startswith('const ')


def is_mut_ptr(t):
    t = t.strip()
    return t.endswith('*') and not t.startswith('const ')


SMART = ('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<', 'std::__shared_ptr<', 'std::__shared_ptr_access<', 'std::optional<')
PASS = {'std::move', 'std::forward', 'std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::as_const', 'std::addressof_',
        'std::ref', 'std::cref', 'std::launder', 'std::const_pointer_cast', 'std::move_if_noexcept'}
ACC = {'operator[]', 'at', 'front', 'back', 'data', 'begin', 'end', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'get',
       'operator->', 'operator*', 'value', 'top', 'c_str', 'load', 'cbegin', 'cend', 'count'}
NORETURN = {'abort', 'exit', 'std::abort', 'std::exit', '__builtin_trap', 'std::terminate', '__builtin_unreachable', '_Exit', 'quick_exit'}
LOCKCLS = ('std::lock_guard<', 'std::unique_lock<', 'std::scoped_lock<', 'std::shared_lock<')


class Ev:
    __slots__ = ('kind', 'fn', 'u', 'obj', 'objloc', 'args', 'alocs', 'ret', 'node', 'rec', 'fid', 'guard', 'gl', 'loops', 'held', 'seq',
                 'chain', 'extra', 'sig')

    def line(self):
        return self.node.get('l', 0) if self.node else 0

    def where(self):
        return '%s:%s (%s)' % (self.rec.get('file', '?'), self.line(), self.rec['fn'])

    def __repr__(self):
        return '<%s %s%s(%s)%s L%s%s>' % (self.kind, (show(self.obj) + '.') if self.obj is not None else '', self.fn,
                                          ', '.join(map(show, self.args or ())), ' -> ' + show(self.ret) if self.ret is not None else '',
                                          self.line(), ' | ' + ' & '.join(('' if p else '!') + show(t) for t, p in self.gl) if self.gl else '')


class State:
    __slots__ = ('mem', 'gl', 'gs', 'held')

    def __init__(self):
        self.mem = {}
        self.gl = ()
        self.gs = frozenset()
        self.held = frozenset()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.gl, s.gs, s.held = self.gl, self.gs, self.held
        return s


class Frame:
    __slots__ = ('rec', 'id', 'vars', 'rets', 'this', 'depth', 'chain', 'scopes', 'reflike', 'brk', 'cont', 'u', 'parent')


class Closure:
    def __init__(self, node, vars, this, rec):
        self.node, self.vars, self.this, self.rec = node, vars, this, rec


class Policy:
    """decides which repository callees are analysed inline"""
    depth = 14

    def __init__(self, opaque=None, inline=None, virt=None, compound=False):
        self._o, self._i = opaque, inline
        self.virt = virt            # resolves virtual callees for a fixed dynamic class
        self.compound = compound    # x op= y on handles read as x = x op y

    NOISE = ('tinytorch::Logger::', 'tinytorch::SmallVector<', 'tinytorch::ArrayView<', 'tinytorch::SmallVector::', 'tinytorch::ArrayView::')

    def inline(self, rec, node):
        if rec['fn'].startswith(self.NOISE):
            return bool(self._i and self._i(rec) is True)
        if self._o and self._o(rec):
            return False
        if self._i:
            return self._i(rec)
        return True


COMPOUND = {'operator+=', 'operator-=', 'operator*=', 'operator/='}
VALUECLS = {'tinytorch::IValue', 'tinytorch::Scalar'}   # constructors that copy their argument
HANDLE_REBIND = {'operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'swap', 'reset', 'inplaceSet'}


class Interp:
    def __init__(self, prog, policy=None, handles=('tinytorch::Tensor',)):
        self.p = prog
        self.policy = policy or Policy()
        self.handles = set(handles)
        self.nf = 0
        self.evs = []
        self.mute = 0
        self.seq = 0
        self.loops = ()
        self.loopinfo = {}
        self.nloop = 0
        self.lams = {}
        self.lamst = {}
        self.evby = {}
        self.st = None
        self.stack = []
        self.hooks = []
        self.unk = 0
        self.steps = 0

    # ------------------------------------------------------------------ API
    def run(self, rec, this=None, args=None):
        """analyse function rec as a root; returns list of (guard literals, value) return edges; events in self.evs"""
        self.st = State()
        f = self.frame(rec, 0, ())
        f.this = this if this is not None else mk('this')
        for i, p in enumerate(rec['ps']):
            v = args[i] if args else mk('param', i, p['n'])
            loc = mk('V', f.id, p['id'], p['n'])
            f.vars[p['id']] = loc
            if p['t'].endswith('*') or not is_ref(p['t']):
                self.st.mem[loc] = v
            else:
                self.st.mem[loc] = v
        self.root = f
        rets = self.body(f, rec)
        self.rets = rets
        return rets

    def apply(self, lam, args):
        """value of a closure (or function reference) applied to argument terms, in the state it was created in"""
        if lam.op == 'fnref':
            rec = self.p.funcs.get(lam.a[0])
            if rec is None: return UNK
            I = Interp(self.p, self.policy, self.handles)
            rets = I.run(rec, args=args)
            return I.merge(rets)
        cl = self.lams[lam]
        n = cl.node
        spec = (n['specs'][0] if n.get('specs') else None) if 'specs' in n else n
        if spec is None: return UNK
        rec = {'fn': cl.rec['fn'] + '::(lambda)', 'n': '(lambda)', 'u': 'lam:%s' % n['lam'], 'ps': spec['ps'], 'ret': spec.get('ret') or '',
               'body': spec['body'], 'file': cl.rec.get('file'), 'l': n.get('l', 0), 'k': 'lam'}
        self.st = self.lamst[lam].fork()
        self.stack = []
        self.loops = ()
        self.ap_first = len(self.evs)
        v = self.inline(self.frame(cl.rec, 0, ()), rec, n, list(args), [], this=cl.this, closure=cl)
        if v.op in ('addr',) and self.st is not None: v = self.read(v.a[0])
        return v

    def merge(self, rets):
        if not rets: return UNK
        v = rets[-1][1]
        for s2, v2, _ in reversed(rets[:-1]):
            c = TRUE
            for t, p in s2.gl:
                if (t, p) not in rets[-1][0].gs:
                    c = t_and(c, t if p else neg(t))
            v = phi(c, v2, v)
        return v

    def final(self, rec, this=None, args=None):
        rets = self.run(rec, this, args)
        return rets

    def frame(self, rec, depth, chain):
        self.nf += 1
        f = Frame()
        f.rec, f.id, f.vars, f.rets, f.this, f.depth, f.chain = rec, self.nf, {}, [], None, depth, chain
        f.scopes = []
        f.brk, f.cont = [], []
        f.u = rec['u']
        f.reflike = is_ref(rec.get('ret') or '')
        f.parent = None
        return f

    def body(self, f, rec):
        self.stack.append(f)
        f.scopes.append([])
        if rec.get('inits'):
            self.ctor_inits(f, rec)
        self.stmt(f, rec['body'])
        if self.st is not None:
            self.ret(f, VOID, rec)
        f.scopes.pop()
        self.stack.pop()
        return f.rets

    def ctor_inits(self, f, rec):
        for i in rec['inits']:
            e = i['e']
            if 'm' in i:
                loc = mk('F', self.thisloc(f), i['m'])
                v = self.eval(f, e)
                if self.st is None: return
                self.write(loc, v, e, f, init=True)
            elif 'base' in i or i.get('del'):
                if e.get('k') == 'Construct':
                    self.construct_into(f, e, self.thisloc(f))
                else:
                    self.eval(f, e)
            if self.st is None:
                return

    def thisloc(self, f):
        return self.deref(f.this)

    # ------------------------------------------------------------------ state helpers
    def deref(self, p):
        if p.op == 'addr':
            return p.a[0]
        if p.op == '+' and len(p.a) == 2:
            # pointer arithmetic: pick the pointer-like operand
            x, y = p.a
            if self.ptrish(x) and not self.ptrish(y): return mk('E', self.deref(x), y)
            if self.ptrish(y) and not self.ptrish(x): return mk('E', self.deref(y), x)
        return mk('D', p)

    def ptrish(self, t):
        if t.op in ('addr',): return True
        if t.op == 'call' and t.a[0].split('::')[-1] in ('dataPtr', 'data', 'begin', 'end', 'allocate', 'malloc', 'c_str', 'cbegin'): return True
        if t.op == 'castp': return True
        if t.op == '+': return any(self.ptrish(x) for x in t.a)
        if t.op == 'ptr': return True
        return False

    def read(self, loc):
        m = self.st.mem
        v = m.get(loc)
        if v is not None:
            return v
        op = loc.op
        if op == 'F':
            return self.field_of(self.read(loc.a[0]), loc.a[1])
        if op == 'E':
            return self.elem_of(self.read(loc.a[0]), loc.a[1])
        if op == 'D':
            p = loc.a[0]
            if p.op == 'phi':
                return phi(p.a[0], self.read(self.deref(p.a[1])), self.read(self.deref(p.a[2])))
            return mk('deref', p)
        if op == 'G':
            return mk('glob', loc.a[0])
        return mk('uninit', loc)

    def field_of(self, v, f):
        while v.op == 'rec':
            for k, x in v.a[1]:
                if k == f:
                    return x
            v = v.a[0]
        if v.op == 'phi':
            return phi(v.a[0], self.field_of(v.a[1], f), self.field_of(v.a[2], f))
        if v.op == 'new' and not v.a[1]:
            c = self.p.fields.get(v.a[0], {}).get(f)
            if c is not None and 'init' in c:
                r = self.const_init(c['init'])
                if r is not None:
                    return r
        if v.op == 'list' and f in ('first', 'second'):
            i = 0 if f == 'first' else 1
            if len(v.a[0]) == 2: return v.a[0][i]
        if v.op == 'new' and v.a[0].startswith('std::pair<') and len(v.a[1]) == 2 and f in ('first', 'second'):
            return v.a[1][0 if f == 'first' else 1]
        return mk('fld', v, f)

    def const_init(self, e):
        if e is None: return None
        k = e['k']
        if k in ('ICast', 'Cast'): return self.const_init(e['e'])
        if k in ('Int', 'Bool'): return C(e['v'], 'bool' if k == 'Bool' else 'int')
        if k == 'Float': return C(float(e['v']), 'flt')
        if k == 'Null': return NULL
        if k == 'Enum': return mk('enum', e['n'], e['v'])
        if 'cv' in e: return C(e['cv'])
        if k == 'InitList' and len(e['a']) == 1: return self.const_init(e['a'][0])
        if k == 'Construct' and not e['a']: return mk('new', self.cls_of(e), (), None)
        return None

    def elem_of(self, v, i):
        if v.op == 'list' and i.op == 'c' and isinstance(i.a[0], int) and 0 <= i.a[0] < len(v.a[0]):
            return v.a[0][i.a[0]]
        if v.op == 'st':
            if v.a[1] is i:
                return v.a[2]
            if v.a[1].op == 'c' and i.op == 'c':
                return self.elem_of(v.a[0], i)
        if v.op == 'phi' :
            a, b = self.elem_of(v.a[1], i), self.elem_of(v.a[2], i)
            return phi(v.a[0], a, b)
        return mk('elem', v, i)

    def setfield(self, old, f, v):
        if old.op == 'rec':
            d = dict(old.a[1])
            d[f] = v
            return mk('rec', old.a[0], tuple(sorted(d.items(), key=lambda kv: kv[0])))
        return mk('rec', old, ((f, v),))

    def write(self, loc, v, node, f, init=False):
        self._write(loc, v)
        self.ev('init' if init else 'write', node, f, fn='', obj=None, objloc=loc, args=(v,))

    def _write(self, loc, v):
        op = loc.op
        if op == 'F':
            base = loc.a[0]
            self._write(base, self.setfield(self.read(base), loc.a[1], v))
        elif op == 'E':
            base = loc.a[0]
            root = base
            while root.op in ('F', 'E'):
                root = root.a[0]
            if root.op == 'D' and base.op == 'D':
                self.st.mem[base] = mk('mutd', base, self.seq)
            else:
                self._write(base, mk('st', self.read(base), loc.a[1], v))
        elif op == 'D' and loc.a[0].op == 'phi':
            p = loc.a[0]
            la, lb = self.deref(p.a[1]), self.deref(p.a[2])
            self._write(la, phi(p.a[0], v, self.read(la)))
            self._write(lb, phi(p.a[0], self.read(lb), v))
        else:
            self.st.mem[loc] = v

    # ------------------------------------------------------------------ events
    def ev(self, kind, node, f, fn='', u=None, obj=None, objloc=None, args=(), alocs=(), ret=None, extra=None, sig=None):
        self.seq += 1
        if self.mute:
            return None
        e = Ev()
        e.kind, e.fn, e.u, e.obj, e.objloc, e.args, e.alocs, e.ret, e.node = kind, fn, u, obj, objloc, tuple(args), tuple(alocs), ret, node
        e.rec, e.fid, e.guard, e.gl, e.loops, e.held, e.seq = f.rec, f.id, self.st.gs, self.st.gl, self.loops, self.st.held, self.seq
        e.chain, e.extra, e.sig = f.chain, extra, sig
        self.evs.append(e)
        self.evby[e.seq] = e
        return e

    # ------------------------------------------------------------------ guards
    def lits(self, t, pol):
        t = truth(t)
        if t.op == 'not':
            return self.lits(t.a[0], not pol)
        if t.op == 'and' and pol:
            return self.lits(t.a[0], True) + self.lits(t.a[1], True)
        if t.op == 'or' and not pol:
            return self.lits(t.a[0], False) + self.lits(t.a[1], False)
        return [(t, pol)]

    def decide(self, t):
        """truth of t under current must-literals: True/False/None"""
        t = truth(t)
        v = cval(t)
        if v is not None:
            return bool(v)
        gs = self.st.gs
        if (t, True) in gs: return True
        if (t, False) in gs: return False
        if t.op == 'not':
            r = self.decide(t.a[0])
            return None if r is None else not r
        if t.op == 'and':
            a, b = self.decide(t.a[0]), self.decide(t.a[1])
            if a is False or b is False: return False
            if a and b: return True
            return None
        if t.op == 'or':
            a, b = self.decide(t.a[0]), self.decide(t.a[1])
            if a or b: return True
            if a is False and b is False: return False
            return None
        if t.op == '==' and t.a[0] is not t.a[1]:
            # enum/constant disequality from another equality on the same term
            x, y = t.a
            if cval(x) is not None: x, y = y, x
            if cval(y) is not None:
                for (l, p) in gs:
                    if p and l.op == '==' and (l.a[0] is x or l.a[1] is x):
                        o = l.a[1] if l.a[0] is x else l.a[0]
                        if cval(o) is not None and cval(o) != cval(y):
                            return False
        return None

    def assume(self, t, pol):
        """returns False if infeasible"""
        d = self.decide(t)
        if d is not None:
            if d != pol:
                return False
            return True
        for l in self.lits(t, pol):
            if l in self.st.gs:
                continue
            if (l[0], not l[1]) in self.st.gs:
                return False
            self.st.gl = self.st.gl + (l,)
            self.st.gs = self.st.gs | {l}
        return True

    def join(self, c, a, b):
        """join of then-state a and else-state b under condition c"""
        if a is None: return b
        if b is None: return a
        s = State()
        common = a.gs & b.gs
        s.gl = tuple(l for l in a.gl if l in common)
        s.gs = frozenset(s.gl)
        s.held = a.held & b.held
        am, bm = a.mem, b.mem
        m = dict(am)
        for k, v in bm.items():
            av = am.get(k)
            if av is v:
                continue
            if av is None:
                # location unknown on one side: initial value there (locals declared in one branch keep theirs)
                if k.op == 'V':
                    m[k] = v
                else:
                    save = self.st
                    self.st = a
                    av = self.read(k)
                    self.st = save
                    m[k] = phi(c, av, v)
            else:
                m[k] = self.join_val(c, av, v)
        for k, v in am.items():
            if k not in bm and k.op != 'V':
                save = self.st
                self.st = b
                bv = self.read(k)
                self.st = save
                m[k] = phi(c, v, bv)
        s.mem = m
        return s

    def join_val(self, c, a, b):
        if a is b: return a
        if a.op == 'rec' or b.op == 'rec':
            ba = a.a[0] if a.op == 'rec' else a
            bb = b.a[0] if b.op == 'rec' else b
            if ba is bb:
                da = dict(a.a[1]) if a.op == 'rec' else {}
                db = dict(b.a[1]) if b.op == 'rec' else {}
                out = {}
                for k in set(da) | set(db):
                    out[k] = self.join_val(c, da.get(k) or self.field_of(ba, k), db.get(k) or self.field_of(ba, k))
                return mk('rec', ba, tuple(sorted(out.items(), key=lambda kv: kv[0])))
        return phi(c, a, b)

    # ------------------------------------------------------------------ statements
    def stmt(self, f, s):
        if s is None or self.st is None:
            return
        self.steps += 1
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m:
            m(f, s)
        else:
            self.eval(f, s)

    def s_Compound(self, f, s):
        f.scopes.append([])
        for c in s['c']:
            if self.st is None:
                break
            self.stmt(f, c)
        sc = f.scopes.pop()
        if self.st is not None:
            self.end_scope(f, sc, s)

    def end_scope(self, f, sc, node):
        for loc, t, dnode in reversed(sc):
            self.scope_end_var(f, loc, t, dnode)

    def scope_end_var(self, f, loc, t, dnode):
        rm = [h for h in self.st.held if h[1] is loc]
        if rm:
            self.st.held = self.st.held - set(rm)
        self.ev('dtor', dnode, f, fn=t, objloc=loc, obj=self.read(loc))

    def s_DeclStmt(self, f, s):
        for v in s['c']:
            self.decl(f, v)
            if self.st is None:
                return

    def classy(self, t):
        return t in self.p.classes or t.startswith(LOCKCLS) or t.startswith('std::unique_ptr<') or t.startswith('std::ifstream') or \
            t.startswith('std::basic_')

    def decl(self, f, v):
        t = v['t']
        if v.get('st'):
            loc = mk('G', 'static:%s::%s' % (f.rec['fn'], v['n']))
            f.vars[v['id']] = loc
            self.ev('staticvar', v, f, fn=v['n'], objloc=loc)
            return
        loc = mk('V', f.id, v['id'], v['n'])
        init = v.get('init')
        if is_ref(t) and 'binds' not in v:
            l = self.lval(f, init) if init else loc
            if self.st is None: return
            f.vars[v['id']] = l
            self.ev('refdecl', v, f, fn=v['n'], objloc=l)
            return
        f.vars[v['id']] = loc
        if 'binds' in v:
            if is_ref(t) and init is not None:
                src = self.lval(f, init)
            else:
                val = self.eval(f, init)
                if self.st is None: return
                self.st.mem[loc] = val
                src = loc
            if self.st is None: return
            self.bind(f, v, src)
            return
        if init is None:
            self.st.mem.pop(loc, None)
            self.ev('decl', v, f, fn=v['n'], objloc=loc)
            self.register_raii(f, loc, t, v)
            return
        if init['k'] == 'Construct' and not init.get('cp') and not init.get('mv'):
            self.construct_into(f, init, loc)
        elif init['k'] == 'InitList':
            val = self.eval(f, init)
            if self.st is None: return
            self.st.mem[loc] = val
        else:
            val = self.eval(f, init)
            if self.st is None: return
            self.st.mem[loc] = val
        if self.st is None: return
        self.ev('decl', v, f, fn=v['n'], objloc=loc, args=(self.read(loc),))
        self.register_raii(f, loc, t, v)

    def register_raii(self, f, loc, t, node):
        if self.classy(strip_cvref(t)) and not t.endswith('*'):
            f.scopes[-1].append((loc, strip_cvref(t), node))

    def bind(self, f, v, src):
        bt = strip_cvref(v['t'])
        fl = self.p.classes.get(bt)
        for i, b in enumerate(v['binds']):
            if bt.startswith('std::pair<'):
                l = mk('F', src, ('first', 'second')[i])
            elif bt.startswith('std::tuple<'):
                l = mk('F', src, 'tuple%d' % i)
            elif fl:
                l = mk('F', src, fl['fields'][i]['n'])
            else:
                l = mk('F', src, ('first', 'second')[i]) if 'pair' in bt else mk('E', src, C(i))
            f.vars[b['id']] = l

    def s_If(self, f, s):
        if s.get('init'):
            self.stmt(f, s['init'])
        if s.get('var'):
            self.decl(f, s['var'])
        if self.st is None: return
        c = self.eval(f, s['cond'])
        if self.st is None: return
        c = truth(c)
        base = self.st
        self.ev('branch', s, f, args=(c,))
        self.st = base.fork()
        if self.assume(c, True):
            self.stmt(f, s['then'])
            a = self.st
        else:
            a = None
        self.st = base.fork()
        if self.assume(c, False):
            if s.get('else'):
                self.stmt(f, s['else'])
            b = self.st
        else:
            b = None
        self.st = self.join(c, a, b)

    def s_Return(self, f, s):
        e = s.get('e')
        v = VOID
        if e is not None:
            if f.reflike:
                l = self.lval(f, e)
                if self.st is None: return
                v = mk('addr', l)
            else:
                v = self.eval(f, e)
                if self.st is None: return
        self.ret(f, v, s)

    def ret(self, f, v, node):
        self.ev('return', node, f, args=(v,), extra=len(self.stack))
        for sc in reversed(f.scopes):
            self.end_scope(f, sc, node)
        f.rets.append((self.st, v, node))
        self.st = None

    def s_Break(self, f, s):
        f.brk[-1].append(self.st)
        self.st = None

    def s_Continue(self, f, s):
        f.cont[-1].append(self.st)
        self.st = None

    def s_Nop(self, f, s):
        pass

    def s_Asm(self, f, s):
        if 'int3' in s.get('s', '') or 'trap' in s.get('s', ''):
            self.ev('trap', s, f)
            self.st = None

    def s_Try(self, f, s):
        self.stmt(f, s['body'])

    def s_Label(self, f, s):
        self.stmt(f, s['s'])

    def s_S(self, f, s):
        self.ev('unknown-stmt', s, f, fn=s.get('cls', ''))

    # -- switch
    def s_Switch(self, f, s):
        c = self.eval(f, s['cond'])
        if self.st is None: return
        items = []

        def flat(n):
            labels = []
            while n is not None and n['k'] in ('Case', 'Default'):
                labels.append(n)
                n = n['s']
            items.append((labels, n))
        body = s['body']
        for n in (body['c'] if body['k'] == 'Compound' else [body]):
            flat(n)
        base = self.st
        allcases = []
        for labels, _ in items:
            for l in labels:
                if l['k'] == 'Case':
                    st = self.st
                    self.st = base
                    allcases.append(self.eval(f, l['v']))
                    self.st = st
        self.ev('switch', s, f, args=(c,) + tuple(allcases), extra=any(l['k'] == 'Default' for ls, _ in items for l in ls))
        f.brk.append([])
        f.scopes.append([])
        cur = None
        ci = 0
        hasdef = False
        ends = []
        for labels, n in items:
            if labels:
                conds = None
                for l in labels:
                    if l['k'] == 'Case':
                        t = binop('==', c, allcases[ci])
                        ci += 1
                    else:
                        hasdef = True
                        t = TRUE
                        for cc in allcases:
                            t = t_and(t, neg(binop('==', c, cc)))
                    conds = t if conds is None else t_or(conds, t)
                self.st = base.fork()
                ok = self.assume(conds, True)
                entry = self.st if ok else None
                cur = self.join(conds, entry, cur) if cur is not None else entry
            self.st = cur
            if n is not None:
                self.stmt(f, n)
            cur = self.st
        ends = []
        if cur is not None:
            ends.append(cur)
        if not hasdef:
            self.st = base.fork()
            ok = True
            for cc in allcases:
                if not self.assume(binop('==', c, cc), False):
                    ok = False
                    break
            if ok:
                ends.append(self.st)
        ends += f.brk.pop()
        f.scopes.pop()
        self.st = self.join_many(base, ends)

    def join_many(self, base, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        r = sts[-1]
        bset = base.gs if base is not None else frozenset()
        for s in reversed(sts[:-1]):
            extra = [l for l in s.gl if l not in bset and l not in r.gs]
            c = TRUE
            if extra:
                for t, p in extra:
                    c = t_and(c, t if p else neg(t))
            else:
                extra = [l for l in r.gl if l not in s.gs]
                if extra:
                    c = TRUE
                    for t, p in extra:
                        c = t_and(c, t if p else neg(t))
                    c = neg(c)
                else:
                    self.unk += 1
                    c = mk('nd', self.unk)
            r = self.join(c, s, r)
        return r

    # -- loops
    def s_For(self, f, s):
        f.scopes.append([])
        if s.get('init'):
            self.stmt(f, s['init'])
        if self.st is not None:
            self.loop(f, s, s.get('cond'), s['body'], s.get('inc'))
        sc = f.scopes.pop()
        if self.st is not None:
            self.end_scope(f, sc, s)

    def s_While(self, f, s):
        self.loop(f, s, s.get('cond'), s['body'], None, var=s.get('var'))

    def s_Do(self, f, s):
        c = s['cond']
        if self.const_false(c):
            f.brk.append([])
            f.cont.append([])
            base = self.st
            self.stmt(f, s['body'])
            outs = [self.st] + f.brk.pop() + f.cont.pop()
            outs = [o for o in outs if o is not None]
            if len(outs) > 1:
                self.st = self.join_many(base, outs)
            else:
                self.st = outs[0] if outs else None
            return
        self.loop(f, s, c, s['body'], None, dowhile=True)

    def const_false(self, c):
        if c.get('cv') == 0: return True
        while c['k'] in ('ICast', 'Cast'):
            c = c['e']
        return c['k'] in ('Int', 'Bool') and c['v'] == 0

    def s_RangeFor(self, f, s):
        src = self.lval(f, s['range'])
        if self.st is None: return
        self.loop(f, s, None, s['body'], None, rangevar=(s['var'], src))

    def one_iter(self, f, s, lid, cond, body, inc, rangevar, var, dowhile):
        """runs one abstract iteration from self.st; returns (exit-states, endstate)"""
        f.brk.append([])
        f.cont.append([])
        exits = []
        c = TRUE
        if not dowhile:
            if rangevar:
                v, src = rangevar
                idx = mk('hav', lid, 'idx', 0)
                self.loopinfo[lid]['idx'] = idx
                el = mk('E', src, idx)
                c = mk('inrange', idx, self.read(src))
            elif cond is not None:
                if var: self.decl(f, var)
                c = truth(self.eval(f, cond))
            head = self.st
            self.loopinfo[lid]['cond'] = c
            if self.st is not None:
                ex = self.st.fork()
                self.st = ex
                if self.assume(c, False):
                    if not (cond is None and not rangevar):
                        exits.append(self.st)
                self.st = head.fork()
                if not self.assume(c, True):
                    self.st = None
        if self.st is not None:
            if rangevar:
                v, src = rangevar
                f.scopes.append([])
                if 'binds' in v:
                    if is_ref(v['t']):
                        self.bind(f, v, el)
                    else:
                        loc = mk('V', f.id, v['id'], v['n'])
                        self.st.mem[loc] = self.read(el)
                        self.bind(f, v, loc)
                elif is_ref(v['t']):
                    f.vars[v['id']] = el
                else:
                    loc = mk('V', f.id, v['id'], v['n'])
                    f.vars[v['id']] = loc
                    self.st.mem[loc] = self.read(el)
                self.stmt(f, body)
                f.scopes.pop()
            else:
                self.stmt(f, body)
        conts = f.cont.pop()
        if conts:
            self.st = self.join_many(None, ([self.st] if self.st is not None else []) + conts)
        if self.st is not None and inc is not None:
            self.eval(f, inc)
        brks = f.brk.pop()
        if dowhile and self.st is not None:
            c = truth(self.eval(f, cond))
            if self.st is not None:
                ex = self.st.fork()
                keep = self.st
                self.st = ex
                if self.assume(c, False):
                    exits.append(self.st)
                self.st = keep
                if not self.assume(c, True):
                    self.st = None
        return exits, brks, self.st

    def loop(self, f, s, cond, body, inc, rangevar=None, var=None, dowhile=False):
        self.nloop += 1
        lid = '%s:%s#%d' % (f.rec.get('file', '?').split('/')[-1], s.get('l', 0), self.nloop)
        info = self.loopinfo[lid] = {'node': s, 'init': {}, 'next': {}, 'cond': TRUE, 'range': None, 'guard': self.st.gs}
        if rangevar:
            info['range'] = self.read(rangevar[1])
            info['rangeloc'] = rangevar[1]
        entry = self.st
        assigned = {}
        rets_mark = len(f.rets)
        all_marks = [(fr, len(fr.rets)) for fr in self.stack]
        # discovery: up to 3 rounds to reach the set of locations changed by the loop
        for _ in range(4):
            self.mute += 1
            self.st = entry.fork()
            for loc, hv in assigned.items():
                self.st.mem[loc] = hv
            start = dict(self.st.mem)
            loops = self.loops
            self.loops = loops + (lid,)
            seq = self.seq
            exits, brks, end = self.one_iter(f, s, lid, cond, body, inc, rangevar, var, dowhile)
            self.loops = loops
            self.mute -= 1
            for fr, n in all_marks:
                del fr.rets[n:]
            new = False
            for o in [end] + exits + brks:
                if o is None: continue
                for loc, v in o.mem.items():
                    old = start.get(loc)
                    if old is v: continue
                    if loc not in entry.mem and loc.op == 'V':
                        continue
                    if old is None:
                        self.st = entry
                        old = self.read(loc)
                        if old is v: continue
                    h = self.havoc(lid, loc, old, v, assigned.get(loc))
                    if h is not assigned.get(loc):
                        assigned[loc] = h
                        new = True
            if not new:
                break
        # real pass
        self.st = entry.fork()
        for loc, hv in assigned.items():
            info['init'][loc] = entry.mem.get(loc) or self._read_in(entry, loc)
            self.st.mem[loc] = hv
        loops = self.loops
        self.loops = loops + (lid,)
        if not self.mute:
            self.ev('loop', s, f, extra=lid)
        hmem = self.st.mem
        exits, brks, end = self.one_iter(f, s, lid, cond, body, inc, rangevar, var, dowhile)
        self.loops = loops
        if end is not None:
            for loc in assigned:
                info['next'][loc] = end.mem.get(loc)
        info['assigned'] = assigned
        info['brks'] = len(brks)
        info['brkgl'] = [tuple(o.gl) for o in brks]
        info['brkmem'] = [{loc: o.mem.get(loc) for loc in assigned} for o in brks]
        # exit guards: only literals about loop-exit plus those at entry survive
        outs = []
        for o in exits:
            outs.append(o)
        for o in brks:
            outs.append(o)
        self.st = self.join_many(entry, outs)
        if self.st is None:
            return

    def _read_in(self, st, loc):
        save = self.st
        self.st = st
        v = self.read(loc)
        self.st = save
        return v

    def havoc(self, lid, loc, old, new, prev):
        """havoc term for loc; objects changed only in some fields keep the others"""
        ob = old.a[0] if old.op == 'rec' else old
        nb = new.a[0] if new.op == 'rec' else new
        if ob is nb and (old.op == 'rec' or new.op == 'rec'):
            d = dict(old.a[1]) if old.op == 'rec' else {}
            n = dict(new.a[1]) if new.op == 'rec' else {}
            out = dict(d)
            for k in set(d) | set(n):
                a = d.get(k) or self.field_of(ob, k)
                b = n.get(k) or self.field_of(ob, k)
                if a is not b:
                    out[k] = mk('hav', lid, '%s.%s' % (self.locname(loc), k), loc, k)
                    self.loopinfo[lid].setdefault('fields', {})[out[k]] = (loc, k)
                elif k in d or k in n:
                    out[k] = a
            return mk('rec', ob, tuple(sorted(out.items(), key=lambda kv: kv[0])))
        return mk('hav', lid, self.locname(loc), loc)

    def locname(self, loc):
        if loc.op == 'V': return loc.a[2]
        return show(loc)

    def hav_sources(self, h):
        """(init term, next term) of a loop-varying term"""
        lid, loc = h.a[0], h.a[2]
        info = self.loopinfo.get(lid)
        if not info or not isinstance(loc, T):
            if info and info.get('range') is not None:
                return [info['range']]
            return []
        i, n = info['init'].get(loc), info['next'].get(loc)
        fk = info.get('fields', {}).get(h)
        out = []
        for x in (i, n):
            if x is None: continue
            if fk: x = self.field_of(x, fk[1])
            out.append(x)
        return out

    def deps(self, t, seen=None, cond=True, stop=None):
        """all terms t depends on (through loop-carried values, joins and mutation events)"""
        if seen is None:
            seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if stop and stop(x):
                continue
            if x.op == 'hav':
                st.extend(self.hav_sources(x))
                continue
            if x.op == 'mut':
                e = self.evby.get(x.a[1])
                if e:
                    st.extend(e.args)
                    if e.obj is not None: st.append(e.obj)
                st.append(x.a[0])
                continue
            if x.op == 'phi' and not cond:
                st.extend(x.a[1:])
                continue
            if x.op == 'lam':
                continue
            st.extend(children(x))
        return seen

    # ------------------------------------------------------------------ expressions
    def lval(self, f, e):
        """location denoted by expression e (a temporary is materialised for prvalues)"""
        k = e['k']
        if k == 'Ref':
            return self.refloc(f, e)
        if k == 'Member':
            if e.get('ar'):
                p = self.eval(f, e['b'])
                if self.st is None: return UNK
                return mk('F', self.deref(p), e['n'])
            b = self.lval(f, e['b'])
            if self.st is None: return UNK
            return mk('F', b, e['n'])
        if k == 'Sub':
            p = self.eval(f, e['b']) if e['b'].get('t', '').rstrip().endswith('*') else mk('addr', self.lval(f, e['b']))
            if self.st is None: return UNK
            i = self.eval(f, e['i'])
            if self.st is None: return UNK
            return self.index(p, i)
        if k == 'Un' and e['op'] == '*':
            p = self.eval(f, e['e'])
            if self.st is None: return UNK
            return self.deref(p)
        if k == 'Un' and e['op'] in ('++', '--') and not e.get('pf'):
            self.eval(f, e)
            return self.lval(f, e['e']) if self.st is not None else UNK
        if k == 'Un' and e['op'] in ('++', '--') and e.get('pf'):
            pass
        if k == 'Bin' and (e['op'] == '=' or (e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='))):
            self.assign(f, e)
            return self.last_assign if self.st is not None else UNK
        if k in ('Cast', 'ICast') and e.get('ek') in ('NoOp', 'LValueBitCast', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', None):
            return self.lval(f, e['e'])
        if k == 'Cast' and e['t'].find('&') >= 0:
            return self.lval(f, e['e'])
        if k == 'CondOp':
            v = self.condop(f, e, True)
            if self.st is None: return UNK
            return self.deref(v)
        if k == 'Call':
            r = self.call(f, e, want='loc')
            if self.st is None: return UNK
            return r
        if k == 'This':
            return mk('tmpthis')
        if k == 'Bin' and e['op'] == ',':
            self.eval(f, e['x'])
            return self.lval(f, e['y']) if self.st is not None else UNK
        if k == 'Construct' and not e.get('cp') and not e.get('mv'):
            loc = self.temp(f)
            self.construct_into(f, e, loc)
            return loc
        v = self.eval(f, e)
        if self.st is None: return UNK
        return self.materialise(f, v)

    def temp(self, f):
        self.unk += 1
        return mk('V', f.id, 't%d' % self.unk, 'tmp%d' % self.unk)

    def materialise(self, f, v):
        loc = self.temp(f)
        self.st.mem[loc] = v
        return loc

    def index(self, p, i):
        if p.op == 'addr' and p.a[0].op == 'E' and i.op != 'c' or (p.op == 'addr' and p.a[0].op == 'E'):
            b = p.a[0]
            return mk('E', b.a[0], binop('+', b.a[1], i)) if cval(i) != 0 else b
        d = self.deref(p)
        if d.op == 'E' and p.op == '+':
            return mk('E', d.a[0], binop('+', d.a[1], i))
        return mk('E', d, i)

    def refloc(self, f, e):
        if 'g' in e:
            n = e['g']
            if e.get('gc'):
                n = e['gc'] + '::' + e['n']
            return mk('G', n)
        d = e['d']
        l = f.vars.get(d)
        if l is None:
            # static local or captured variable not seen (e.g. enclosing frame)
            for fr in reversed(self.stack):
                if d in fr.vars:
                    return fr.vars[d]
            l = mk('V', f.id, d, e['n'])
        return l

    def eval(self, f, e):
        if e is None:
            return VOID
        if self.st is None:
            return UNK
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return mk('x', k)
        v = m(f, e)
        return v

    def e_Int(self, f, e): return C(e['v'])
    def e_Float(self, f, e):
        try:
            return C(float(e['v']), 'flt')
        except ValueError:
            return mk('str', e['v'])
    def e_Bool(self, f, e): return TRUE if e['v'] else FALSE
    def e_Str(self, f, e): return mk('str', e['v'])
    def e_Null(self, f, e): return NULL
    def e_ZeroInit(self, f, e):
        t = e.get('t', '')
        if t in self.p.classes: return mk('new', t, (), None)
        if t == 'bool': return FALSE
        if t.endswith('*'): return NULL
        return C(0)
    def e_Enum(self, f, e): return mk('enum', e['n'], e['v'])
    def e_This(self, f, e): return f.this if f.this is not None else mk('this')
    def e_FnRef(self, f, e): return mk('fnref', e['u'], e.get('fn', ''))
    def e_SizeOf(self, f, e): return C(e['cv']) if 'cv' in e else mk('sizeof', e.get('at', ''))
    def e_TypeId(self, f, e): return mk('typeid', e.get('at', ''))
    def e_Throw(self, f, e):
        self.eval(f, e.get('e'))
        if self.st is not None:
            self.ev('throw', e, f)
        self.st = None
        return UNK

    def e_StmtExpr(self, f, e):
        self.stmt(f, e['body'])
        return UNK

    def e_X(self, f, e):
        if 'cv' in e and not e.get('c'): return C(e['cv'])
        vs = tuple(self.eval(f, c) for c in e.get('c', ()))
        return mk('x', e.get('cls', ''), vs)

    def e_Ref(self, f, e):
        if 'cv' in e and 'g' in e:
            return C(e['cv'])
        loc = self.refloc(f, e)
        if e.get('t', '').endswith(']'):
            return mk('addr', loc)
        if loc.op == 'G' and loc not in self.st.mem:
            gv = self.p.gvars.get((e.get('g'), e.get('gc', '')))
            if gv and (gv.get('ce') or gv.get('const')) and 'init' in gv:
                c = self.const_init(gv['init'])
                if c is not None:
                    return c
        return self.read(loc)

    def e_Member(self, f, e):
        l = self.lval(f, e)
        if self.st is None: return UNK
        if e.get('t', '').endswith(']'):
            return mk('addr', l)
        return self.read(l)

    def e_Sub(self, f, e):
        l = self.lval(f, e)
        if self.st is None: return UNK
        self.ev('load', e, f, objloc=l)
        return self.read(l)

    def e_Un(self, f, e):
        op = e['op']
        if op == '&':
            if e['e']['k'] == 'FnRef': return self.eval(f, e['e'])
            l = self.lval(f, e['e'])
            if l.op == 'D': return l.a[0]
            return mk('addr', l)
        if op == '*':
            l = self.lval(f, e)
            if self.st is None: return UNK
            self.ev('load', e, f, objloc=l)
            return self.read(l)
        if op in ('++', '--'):
            l = self.lval(f, e['e'])
            if self.st is None: return UNK
            old = self.read(l)
            new = binop('+', old, C(1)) if op == '++' else binop('-', old, C(1))
            self.write(l, new, e, f)
            return old if e.get('pf') else new
        v = self.eval(f, e['e'])
        if self.st is None: return UNK
        if op == '!': return neg(truth(v))
        if op == '-':
            c = cval(v)
            if isinstance(c, int): return C(-c)
            if isinstance(c, float): return C(-c, 'flt')
            return mk('neg', v)
        if op == '+': return v
        return mk('u' + op, v)

    def e_Bin(self, f, e):
        op = e['op']
        if op == '=' or (op.endswith('=') and op not in ('==', '!=', '<=', '>=')):
            return self.assign(f, e)
        if op == ',':
            self.eval(f, e['x'])
            return self.eval(f, e['y'])
        if op in ('&&', '||'):
            x = self.eval(f, e['x'])
            if self.st is None: return UNK
            x = truth(x)
            base = self.st
            self.st = base.fork()
            if not self.assume(x, op == '&&'):
                self.st = base
                return x
            y = truth(self.eval(f, e['y']))
            a = self.st
            other = base.fork()
            self.st = other
            ok = self.assume(x, op != '&&')
            self.st = self.join(x if op == '&&' else neg(x), a, other if ok else None)
            if self.st is None: return UNK
            return t_and(x, y) if op == '&&' else t_or(x, y)
        if 'cv' in e:
            return C(e['cv'])
        x = self.eval(f, e['x'])
        if self.st is None: return UNK
        y = self.eval(f, e['y'])
        if self.st is None: return UNK
        if op in ('->*', '.*'): return mk('x', op, (x, y))
        if op in ('/', '%') :
            self.ev('div', e, f, args=(x, y))
        return binop(op, x, y)

    def assign(self, f, e):
        op = e['op']
        if op == '=':
            v = self.eval(f, e['y'])
            if self.st is None: return UNK
            l = self.lval(f, e['x'])
            if self.st is None: return UNK
        else:
            l = self.lval(f, e['x'])
            if self.st is None: return UNK
            y = self.eval(f, e['y'])
            if self.st is None: return UNK
            v = binop(op[:-1], self.read(l), y)
            if op in ('/=', '%='):
                self.ev('div', e, f, args=(self.read(l), y))
        self.write(l, v, e, f)
        self.last_assign = l
        return v

    def condop(self, f, e, loc=False):
        c = self.eval(f, e['c'][0])
        if self.st is None: return UNK
        c = truth(c)
        base = self.st
        g = (lambda n: mk('addr', self.lval(f, n))) if loc else (lambda n: self.eval(f, n))
        self.st = base.fork()
        a = va = None
        if self.assume(c, True):
            va = g(e['c'][1])
            a = self.st
        self.st = base.fork()
        b = vb = None
        if self.assume(c, False):
            vb = g(e['c'][2])
            b = self.st
        self.st = self.join(c, a, b)
        if a is None: return vb if vb is not None else UNK
        if b is None: return va
        return phi(c, va, vb)

    def e_CondOp(self, f, e):
        return self.condop(f, e)

    def e_ICast(self, f, e):
        v = self.eval(f, e['e'])
        return self.cast(f, e, v)

    def cast(self, f, e, v):
        ek = e.get('ek')
        if self.st is None: return UNK
        if ek == 'IntegralToBoolean':
            if isboolish(v): return v
            return neg(binop('==', v, C(0)))
        if ek in ('PointerToBoolean', 'MemberPointerToBoolean'): return truth(v)
        if ek == 'IntegralToFloating':
            self.ev('int2float', e, f, args=(v,))
            if v.op == 'c': return C(float(v.a[0]), 'flt')
            return mk('tofloat', v)
        if ek == 'FloatingToIntegral':
            self.ev('float2int', e, f, args=(v,))
            return mk('toint', v)
        if ek == 'IntegralCast':
            return v
        if ek == 'BitCast':
            return v
        return v

    def e_Cast(self, f, e):
        if e.get('ek') == 'ToVoid':
            self.eval(f, e['e'])
            return VOID
        v = self.eval(f, e['e'])
        if self.st is None: return UNK
        if e.get('ck') == 'reinterpret' or e.get('ek') in ('IntegralToPointer', 'PointerToIntegral'):
            self.ev('recast', e, f, args=(v,))
        return self.cast(f, e, v)

    def e_Lambda(self, f, e):
        vars = {}
        for c in e.get('cap', ()):
            if 'd' in c:
                if 'init' in c:
                    v = self.eval(f, c['init'])
                    loc = self.materialise(f, v)
                    vars[c['d']] = loc
                    continue
                l = self.refloc(f, {'d': c['d'], 'n': c['n']})
                if c.get('ref'):
                    vars[c['d']] = l
                else:
                    loc = self.temp(f)
                    self.st.mem[loc] = self.read(l)
                    vars[c['d']] = loc
        n = mk('lam', e['lam'], f.id, tuple(sorted((d, l) for d, l in vars.items())), f.this)
        self.lams[n] = Closure(e, vars, f.this, f.rec)
        self.lamst[n] = self.st.fork()
        self.ev('lambda', e, f, ret=n)
        return n

    def e_New(self, f, e):
        arr = None
        if 'arr' in e and e['arr'] is not None:
            arr = self.eval(f, e['arr'])
        args = ()
        self.seq += 1
        p = mk('newp', e['at'], arr, self.seq)
        if e.get('init') is not None and e['init']['k'] == 'Construct':
            self.construct_into(f, e['init'], mk('D', p))
        elif e.get('init') is not None:
            v = self.eval(f, e['init'])
            if self.st is None: return UNK
            self.st.mem[mk('D', p)] = v
        if self.st is None: return UNK
        self.ev('new', e, f, fn=e['at'], args=(arr,) if arr is not None else (), ret=p)
        return p

    def e_Delete(self, f, e):
        v = self.eval(f, e['e'])
        if self.st is not None:
            self.ev('delete', e, f, args=(v,), extra=e.get('arr'))
        return VOID

    def e_InitList(self, f, e):
        t = strip_cvref(e.get('t', ''))
        c = self.p.classes.get(t)
        vals = []
        for a in e['a']:
            v = self.eval(f, a)
            if self.st is None: return UNK
            vals.append(v)
        if c is not None and len(c['fields']) >= len(vals) and vals and not c['bases']:
            base = mk('new', t, (), None)
            return mk('rec', base, tuple(sorted(((c['fields'][i]['n'], v) for i, v in enumerate(vals)), key=lambda kv: kv[0])))
        return mk('list', tuple(vals))

    # -- construct
    def cls_of(self, e):
        return strip_cvref(e.get('t', ''))

    def e_Construct(self, f, e):
        if (e.get('cp') or e.get('mv')) and len(e['a']) >= 1:
            return self.eval(f, e['a'][0])
        loc = self.temp(f)
        self.construct_into(f, e, loc)
        if self.st is None: return UNK
        return self.read(loc)

    def construct_into(self, f, e, loc):
        if (e.get('cp') or e.get('mv')) and len(e['a']) >= 1:
            v = self.eval(f, e['a'][0])
            if self.st is not None:
                self._write(loc, v)
            return
        t = self.cls_of(e)
        sig = self.p.sig(e['u']) if e.get('u') else None
        rec = self.p.funcs.get(e['u']) if e.get('u') else None
        # smart pointers / std::function / wrappers constructed from one value keep the value
        if rec is not None and self.can_inline(f, rec, e):
            vals, locs = self.args(f, e['a'], rec)
            if self.st is None: return
            cls = rec.get('cls', t)
            if not (loc.op == 'D' and loc.a[0].op == 'this') and loc not in self.st.mem:
                self._write(loc, mk('new', cls, (), None))
            elif loc.op != 'V' and loc not in self.st.mem and loc.op != 'F':
                self._write(loc, mk('new', cls, (), None))
            self.default_fields(f, rec, loc)
            self.ev('ctor', e, f, fn=cls, u=e['u'], objloc=loc, args=vals, alocs=locs, sig=rec, extra='inline')
            self.inline(f, rec, e, vals, locs, this=mk('addr', loc) if loc.op != 'D' else loc.a[0])
            return
        vals, locs = self.args(f, e['a'], sig)
        if self.st is None: return
        if t.startswith(SMART) or t.startswith('std::function<'):
            v = vals[0] if vals else NULL
            self._write(loc, v)
            self.ev('ctor', e, f, fn=t, u=e.get('u'), objloc=loc, args=vals, alocs=locs, sig=sig)
            return
        if t.startswith(LOCKCLS):
            self._write(loc, mk('new', t, tuple(vals), None))
            m = locs[0] if locs and locs[0] is not None else (vals[0] if vals else UNK)
            deferred = len(vals) > 1
            if not deferred:
                self.ev('acquire', e, f, fn=t, objloc=loc, args=(m,))
                self.st.held = self.st.held | {(m, loc)}
            return
        tag = None
        if t in self.handles and vals:
            self.seq += 1
            tag = self.seq
        if len(vals) == 1 and (t.startswith('std::vector<') or t.startswith('std::initializer_list<')) and vals[0].op == 'list':
            v = vals[0]
        elif len(vals) == 1 and t.startswith('tinytorch::ArrayView<'):
            v = vals[0]      # a view denotes its source sequence
        elif len(vals) == 1 and t.startswith('tinytorch::SmallVector<') and vals[0].op in ('list',):
            v = vals[0]
        else:
            v = mk('new', t, tuple(vals), tag)
        ev = self.ev('ctor', e, f, fn=t, u=e.get('u'), objloc=loc, args=vals, alocs=locs, ret=v, sig=sig)
        if not vals and rec is None and t in self.p.classes:
            pass
        self._write(loc, v)
        if t not in VALUECLS: self.clobber_args(f, sig, e, vals, locs, ev)

    def default_fields(self, f, rec, loc):
        pass  # member initialisers (written or default) are all in rec['inits']

    # -- calls
    def args(self, f, argn, sig):
        vals, locs = [], []
        ps = sig['ps'] if sig else []
        for i, a in enumerate(argn):
            pt = ps[i]['t'] if i < len(ps) else None
            if pt is not None and is_ref(pt) and a['k'] not in ('Lambda', 'Int', 'Float', 'Bool', 'Str', 'Null', 'Enum', 'FnRef'):
                l = self.lval(f, a)
                if self.st is None: return vals, locs
                locs.append(l)
                v = self.read(l)
                if a.get('t', '').endswith(']'): v = mk('addr', l)
                vals.append(v)
            else:
                v = self.eval(f, a)
                if self.st is None: return vals, locs
                vals.append(v)
                locs.append(None)
        return vals, locs

    def can_inline(self, f, rec, node):
        if rec.get('body') is None: return False
        if f.depth + 1 > self.policy.depth: return False
        for fr in self.stack:
            if fr.u == rec['u'] and fr.rec.get('k') != 'lam':
                return False
        return self.policy.inline(rec, node)

    def inline(self, f, rec, node, vals, locs, this=None, closure=None):
        g = self.frame(rec, f.depth + 1, f.chain + ((f.rec['fn'], f.rec.get('file'), node.get('l', 0)),))
        g.this = this
        g.parent = f
        if closure is not None:
            g.vars.update(closure.vars)
            if g.this is None: g.this = closure.this
        for i, p in enumerate(rec['ps']):
            if i < len(vals):
                l = locs[i] if i < len(locs) else None
                if is_ref(p['t']) and l is not None:
                    g.vars[p['id']] = l
                else:
                    loc = mk('V', g.id, p['id'], p['n'])
                    g.vars[p['id']] = loc
                    self.st.mem[loc] = vals[i]
            else:
                loc = mk('V', g.id, p['id'], p['n'])
                g.vars[p['id']] = loc
        base = self.st
        held0 = base.held
        brk = g.brk
        rets = self.body(g, rec)
        if not rets:
            self.st = None
            return UNK
        if len(rets) == 1:
            self.st = rets[0][0]
            v = rets[0][1]
        else:
            # join returns: value = nested phi over distinguishing literals
            bset = base.gs
            st, v = rets[-1][0], rets[-1][1]
            for (s2, v2, _) in reversed(rets[:-1]):
                extra = [l for l in s2.gl if l not in bset and (l not in st.gs)]
                c = TRUE
                for t, p in extra:
                    c = t_and(c, t if p else neg(t))
                if not extra:
                    ex2 = [l for l in st.gl if l not in s2.gs]
                    if ex2:
                        c = TRUE
                        for t, p in ex2:
                            c = t_and(c, t if p else neg(t))
                        c = neg(c)
                    else:
                        self.unk += 1
                        c = mk('nd', self.unk)
                v = phi(c, v2, v)
                st = self.join(c, s2, st)
            self.st = st
        return v

    def e_Call(self, f, e):
        return self.call(f, e, want='val')

    def call(self, f, e, want):
        r = self.call_(f, e, want)
        return r

    def asloc(self, f, v, want):
        """adapt an rvalue result to the wanted category"""
        if want == 'loc':
            if v.op == 'addr': pass
            return self.materialise(f, v)
        return v

    def call_(self, f, e, want):
        fn = e.get('fn', '')
        u = e.get('u')
        sig = self.p.sig(u) if u else None
        short = fn.split('::')[-1] if '<' not in fn.split('::')[-1] else fn.split('::')[-1]
        if sig: short = sig['n']
        if fn in PASS or (sig and sig.get('std') and ('std::' + sig['n']) in PASS):
            if want == 'loc': return self.lval(f, e['a'][0])
            return self.eval(f, e['a'][0])
        if u is None and 'ce' in e:
            return self.icall(f, e, want)
        # lambda / functor call
        if e.get('lam') is not None:
            objv = self.eval(f, e['obj'])
            if self.st is None: return UNK
            return self.lamcall(f, e, objv, want)
        if short in ('__builtin_expect',):
            return self.eval(f, e['a'][0])
        # object
        obj = objloc = None
        if 'obj' in e:
            on = e['obj']
            if on is None or on.get('k') == 'This':
                objloc = self.thisloc(f)
            elif e.get('ar') or (on['k'] == 'Ref' and on.get('t', '').rstrip().endswith('*')) or on.get('t', '').rstrip().endswith('*'):
                pv = self.eval(f, on)
                if self.st is None: return UNK
                objloc = self.deref(pv)
            else:
                objloc = self.lval(f, on)
            if self.st is None: return UNK
            obj = self.read(objloc)
        cls = sig.get('cls', '') if sig else ''
        isstd = cls.startswith('std::') or (sig and sig.get('std'))
        # smart pointer accessors
        if obj is not None and cls.startswith(SMART) or (obj is not None and ('shared_ptr' in cls or 'unique_ptr' in cls)):
            if short in ('operator->', 'get', 'lock'):
                return obj if want == 'val' else self.deref(obj)
            if short in ('operator*', 'value'):
                l = self.deref(obj)
                return l if want == 'loc' else self.read(l)
            if short in ('operator bool', 'has_value'):
                return truth(obj)
            if short == 'operator=' and len(e['a']) == 1:
                v = self.eval(f, e['a'][0])
                if self.st is None: return UNK
                self.write(objloc, v, e, f)
                return objloc if want == 'loc' else v
            if short == 'reset':
                vals, locs = self.args(f, e['a'], sig)
                if self.st is None: return UNK
                v = vals[0] if vals else NULL
                self.write(objloc, v, e, f)
                self.ev('call', e, f, fn=fn, u=u, obj=obj, objloc=objloc, args=vals, sig=sig)
                return VOID
        if obj is not None and cls.startswith('std::function<') and short == 'operator()':
            return self.lamcall(f, e, obj, want)
        if obj is not None and short == 'operator bool' and isstd and cls.startswith('std::function'):
            return truth(obj)
        if isstd or cls.startswith('__gnu_cxx') or cls.startswith(('tinytorch::ArrayView<', 'tinytorch::SmallVector<')):
            r = self.stdcall(f, e, fn, short, sig, cls, obj, objloc, want)
            if r is not None or self.st is None:
                return r if r is not None else UNK
        # assignment operator of class types without a body in the program: plain copy
        if short == 'operator=' and obj is not None and len(e['a']) == 1:
            rec = self.p.funcs.get(u)
            argt = strip_cvref(e['a'][0].get('t', ''))
            if rec is None or cls in self.handles or not self.can_inline(f, rec, e):
                v = self.eval(f, e['a'][0])
                if self.st is None: return UNK
                if argt == strip_cvref(cls) or rec is None:
                    self.write(objloc, v, e, f)
                    return objloc if want == 'loc' else v
        # argument values
        rec = self.p.funcs.get(u)
        virt = e.get('virt')
        vals, locs = self.args(f, e['a'], sig)
        if self.st is None: return UNK
        if fn in NORETURN or (sig and sig.get('nr')):
            self.ev('noreturn', e, f, fn=fn, args=vals)
            self.st = None
            return UNK
        if virt and self.policy.virt is not None:
            r2 = self.policy.virt(fn, rec)
            if r2 is not None: rec, virt = r2, False
        if self.policy.compound and obj is not None and cls in self.handles and short in COMPOUND and objloc is not None:
            self.seq += 1
            v = mk('call', cls + '::operator' + short[8], obj, tuple(vals), self.seq)
            self.write(objloc, v, e, f)
            return objloc if want == 'loc' else v
        if rec is not None and not virt and self.can_inline(f, rec, e):
            this = None
            if obj is not None:
                this = objloc.a[0] if objloc.op == 'D' else mk('addr', objloc)
            self.ev('enter', e, f, fn=fn, u=u, obj=obj, objloc=objloc, args=vals, alocs=locs, sig=sig)
            v = self.inline(f, rec, e, vals, locs, this=this)
            if self.st is None: return UNK
            if is_ref(rec.get('ret') or ''):
                l = self.deref(v) if v is not VOID else UNK
                return l if want == 'loc' else self.read(l)
            return self.asloc(f, v, want)
        return self.opaque(f, e, fn, u, sig, obj, objloc, vals, locs, want)

    PURE_RET = None

    def opaque(self, f, e, fn, u, sig, obj, objloc, vals, locs, want):
        ret = sig['ret'] if sig else '?'
        rt = strip_cvref(ret)
        const = bool(sig and (sig.get('const') or 'obj' not in e))
        ver = None
        if obj is not None:
            ver = self.st.mem.get(mk('VER', obj))
        for v in vals:
            vv = self.st.mem.get(mk('VER', v))
            if vv is not None:
                ver = mk('vv', ver, vv) if ver is not None else vv
        fresh = rt in self.handles or (not const and rt != 'void') or 'shared_ptr' in rt
        if fresh and is_ref(ret) and const: fresh = False
        tag = None
        if fresh:
            self.seq += 1
            tag = self.seq
        name = fn
        v = VOID if rt == 'void' else mk('call', name, obj, tuple(vals), tag if tag is not None else ver)
        if ret.rstrip().endswith('*') and v is not VOID:
            pass
        ev = self.ev('call', e, f, fn=fn, u=u, obj=obj, objloc=objloc, args=vals, alocs=locs, ret=v, sig=sig)
        # effects on the object
        seq = self.seq
        if obj is not None and sig is not None and not sig.get('const') and not sig.get('static'):
            cls = sig.get('cls', '')
            if cls in self.handles and sig['n'] not in HANDLE_REBIND:
                if sig['n'] not in ('dataPtr', 'getImpl', 'storage', 'data'):
                    self.st.mem[mk('VER', obj)] = mk('ver', seq)
            elif sig['n'] not in ACC:
                self._write(objloc, mk('mut', obj, seq))
        self.clobber_args(f, sig, e, vals, locs, ev)
        if obj is None and fn.split('::')[-1] in LISTALG: self.listalg(f, e, fn.split('::')[-1], vals)
        elif obj is not None and fn.endswith('::insert') and len(e['a']) == 2 and objloc is not None: self.listinsert(f, e, obj, objloc, vals)
        if is_ref(ret):
            if v is VOID: v = mk('void')
            if sig is not None and sig['n'].startswith('operator') and sig['n'].endswith('=') and sig['n'] not in ('operator==', 'operator!=', 'operator<=', 'operator>=') and objloc is not None:
                return objloc if want == 'loc' else self.read(objloc)
            l = mk('D', mk('addrof', v)) if want == 'loc' else None
            if want == 'loc':
                self.st.mem.setdefault(l, v)
                return l
            return v
        return self.asloc(f, v, want)

    def listloc(self, f, node, val):
        """location of the local array a pointer or iterator argument designates, with its starting position"""
        if val is not None and val.op == 'addr': return val.a[0], C(0)
        if val is not None and val.op == '+' and len(val.a) == 2:
            for k in (0, 1):
                if val.a[k].op == 'addr': return val.a[k].a[0], val.a[1 - k]
        while node is not None and node.get('k') in ('ICast', 'Cast', 'Paren'): node = node.get('e')
        if node is not None and node.get('k') == 'Bin' and node.get('op') == '+' and val is not None and val.op == '+':
            i = [k for k in (0, 1) if val.a[k].op == 'call' and val.a[k].a[0].endswith(('::begin', '::data'))]
            r = self.listloc(f, node['x'], None) if len(i) == 1 else None
            return (r[0], val.a[1 - i[0]]) if r is not None else None
        if node is not None and node.get('k') == 'Call' and node.get('fn', '').endswith(('::begin', '::data')) and (node.get('obj') or {}).get('k') == 'Ref':
            on = node['obj']
            if on.get('t', '').rstrip().endswith('*'): return None
            return self.lval(f, on), C(0)
        return None

    def arrayloc(self, l):
        return l is not None and l.op in ('V', 'F', 'G', 'P', 'E') and not (l.op == 'E' and l.a[0].op == 'D')

    def listalg(self, f, e, n, vals):
        a = e['a']
        d = self.listloc(f, a[0], vals[0])
        if n in ('iota', 'reverse', 'fill'):
            if d is None or not self.arrayloc(d[0]) or cval(d[1]) != 0: return
            if not (a[1].get('fn', '').endswith('::end')): return
            old = self.read(d[0])
            while old.op == 'mut': old = old.a[0]
            new = mk('IOTA', old, vals[2]) if n == 'iota' else mk('REV', old) if n == 'reverse' else mk('FILL', old, vals[2])
            self._write(d[0], new)
            return
        if n in ('memcpy', 'memmove'): dst, src, cnt = d, self.listloc(f, a[1], vals[1]), (binop('/', vals[2], C(8)) if len(vals) == 3 else None)
        elif n == 'copy': dst, src, cnt = self.listloc(f, a[2], vals[2]), d, 'end' if a[1].get('fn', '').endswith('::end') else None
        elif n == 'copy_n': dst, src, cnt = self.listloc(f, a[2], vals[2]), d, vals[1]
        else: return
        if cnt is None or dst is None or src is None or not self.arrayloc(dst[0]): return
        if isinstance(cnt, T) and cnt.op == '/' and cnt.a[0].op == '*':
            for i in (0, 1):
                if cval(cnt.a[0].a[i]) == 8: cnt = cnt.a[0].a[1 - i]
        if cval(dst[1]) != 0 or cval(src[1]) != 0: return
        old, new = self.read(dst[0]), self.read(src[0])
        while old.op == 'mut': old = old.a[0]
        self._write(dst[0], mk('LCPY', old, new, cnt if isinstance(cnt, T) else mk('len', new)))

    def listinsert(self, f, e, obj, objloc, vals):
        d = self.listloc(f, e['a'][0], vals[0])
        n = e['a'][0]
        while n.get('k') in ('ICast', 'Cast', 'Paren', 'Ctor') and (n.get('e') or n.get('a')): n = n.get('e') or n['a'][0]
        if d is None and n.get('k') == 'Call' and n.get('fn', '').endswith('::end') and (n.get('obj') or {}).get('k') == 'Ref' and self.lval(f, n['obj']) is objloc:
            while obj.op == 'mut': obj = obj.a[0]
            self._write(objloc, mk('app', obj, vals[1]))
            return
        if d is None or d[0] is not objloc: return
        while obj.op == 'mut': obj = obj.a[0]
        self._write(objloc, mk('INS', obj, d[1], vals[1]))

    def clobber_args(self, f, sig, e, vals, locs, ev):
        if not sig: return
        seq = self.seq
        for i, p in enumerate(sig['ps']):
            if i >= len(vals): break
            t = p['t']
            if is_nonconst_ref(t) and i < len(locs) and locs[i] is not None:
                bt = strip_cvref(t)
                if bt in self.handles:
                    self.st.mem[mk('VER', vals[i])] = mk('ver', seq)
                else:
                    self._write(locs[i], mk('mut', vals[i], seq))
            elif is_mut_ptr(t):
                p0 = vals[i]
                if p0.op == 'addr':
                    l = p0.a[0]
                    if l.op == 'E': l = l.a[0]
                    self._write(l, mk('mut', self.read(l), seq))
                elif p0.op != 'null':
                    self.st.mem[mk('D', p0)] = mk('mutd', mk('D', p0), seq)

    def icall(self, f, e, want):
        c = self.eval(f, e['ce'])
        if self.st is None: return UNK
        while c.op == 'phi' and (c.a[1] is NULL or c.a[2] is NULL): c = c.a[2] if c.a[1] is NULL else c.a[1]     # calling null is not an execution
        if c.op == 'fnref':
            e2 = dict(e)
            e2['u'], e2['fn'] = c.a[0], c.a[1]
            e2.pop('ce', None)
            return self.call_(f, e2, want)
        if c.op == 'lam':
            return self.lamcall(f, e, c, want)
        vals = []
        locs = []
        for a in e['a']:
            if e.get('obj') is None or True:
                v = self.eval(f, a)
                if self.st is None: return UNK
                vals.append(v)
                locs.append(None)
        self.seq += 1
        v = mk('icall', c, tuple(vals), self.seq)
        self.ev('icall', e, f, fn='', obj=c, args=vals, alocs=locs, ret=v)
        return self.asloc(f, v, want)

    def lamcall(self, f, e, objv, want):
        if objv.op == 'phi':
            pass
        cl = self.lams.get(objv)
        if cl is None:
            if objv.op == 'fnref':
                e2 = dict(e)
                e2['u'], e2['fn'] = objv.a[0], objv.a[1]
                e2.pop('obj', None)
                e2.pop('lam', None)
                return self.call_(f, e2, want)
            sig = self.p.sig(e['u']) if e.get('u') else None
            vals, locs = self.args(f, e['a'], sig)
            if self.st is None: return UNK
            self.seq += 1
            v = mk('icall', objv, tuple(vals), self.seq)
            self.ev('icall', e, f, fn=e.get('fn', ''), obj=objv, args=vals, alocs=locs, ret=v, sig=sig)
            return self.asloc(f, v, want)
        n = cl.node
        spec = None
        if 'specs' in n:
            for s in n['specs']:
                if s['u'] == e.get('u'):
                    spec = s
            if spec is None and n['specs']:
                spec = n['specs'][0]
            if spec is None:
                return UNK
        else:
            spec = n
        rec = {'fn': cl.rec['fn'] + '::(lambda)', 'n': '(lambda)', 'u': 'lam:%s' % n['lam'], 'ps': spec['ps'], 'ret': spec.get('ret') or e.get('t', ''),
               'body': spec['body'], 'file': cl.rec.get('file'), 'l': n.get('l', 0), 'k': 'lam'}
        if any(fr.u == rec['u'] for fr in self.stack) or f.depth > self.policy.depth:
            return UNK
        vals, locs = self.args(f, e['a'], rec)
        if self.st is None: return UNK
        v = self.inline(f, rec, e, vals, locs, this=cl.this, closure=cl)
        if self.st is None: return UNK
        if is_ref(rec['ret']):
            l = self.deref(v)
            return l if want == 'loc' else self.read(l)
        return self.asloc(f, v, want)

    def stdcall(self, f, e, fn, short, sig, cls, obj, objloc, want):
        """models of standard containers/utilities; None = treat as opaque"""
        a = e['a']
        if obj is not None:
            if short in ('operator[]', 'at') and len(a) == 1:
                i = self.eval(f, a[0])
                if self.st is None: return UNK
                l = mk('E', objloc, i)
                le = self.ev('load', e, f, objloc=l, fn=fn) if short == 'operator[]' else None
                if want == 'loc': return l
                v = self.read(l)
                if le is not None: le.ret = v
                return v
            if short in ('front', 'back', 'top') and not a:
                i = C(0) if short == 'front' else mk('last')
                l = mk('E', objloc, i)
                return l if want == 'loc' else self.read(l)
            if short == 'data' and not a and not cls.startswith('std::basic_string'):
                v = mk('addr', objloc)
                return self.asloc(f, v, want)
            if short in ('push_back', 'emplace_back', 'pushBack', 'emplaceBack', 'push', 'emplace', 'insert') and len(a) == 1:
                v = self.eval(f, a[0])
                if self.st is None: return UNK
                self.ev('call', e, f, fn=fn, u=e.get('u'), obj=obj, objloc=objloc, args=(v,), sig=sig)
                self._write(objloc, mk('app', obj, v))
                return self.asloc(f, VOID, want)
            if short in ('emplace_back', 'emplaceBack') and len(a) == 2 and cls.startswith('std::vector<std::pair<'):
                vs = tuple(self.eval(f, x) for x in a)
                if self.st is None: return UNK
                self.ev('call', e, f, fn=fn, u=e.get('u'), obj=obj, objloc=objloc, args=vs, sig=sig)
                self._write(objloc, mk('app', obj, mk('new', 'std::pair', vs)))
                return self.asloc(f, VOID, want)
            if short in ('operator==', 'operator!=') and len(a) == 1:
                v = self.eval(f, a[0])
                if self.st is None: return UNK
                return self.asloc(f, binop('==' if short == 'operator==' else '!=', obj, v), want)
            if short == 'operator*' and not a:
                l = self.deref(obj)
                return l if want == 'loc' else self.read(l)
            if short == 'operator->' and not a:
                return obj if want == 'val' else self.deref(obj)
            if short in ('operator++', 'operator--'):
                new = mk('mut', obj, self.seq + 1)
                self.ev('call', e, f, fn=fn, u=e.get('u'), obj=obj, objloc=objloc, args=(), sig=sig)
                self._write(objloc, new)
                return objloc if want == 'loc' else new
            if short == 'lock' and cls.startswith(LOCKCLS):
                m = obj.a[1][0] if obj.op == 'new' and obj.a[1] else UNK
                for h in [h for h in self.unlocked if h[1] is objloc] if hasattr(self, 'unlocked') else []:
                    m = h[0]
                self.ev('acquire', e, f, fn=fn, objloc=objloc, args=(m,))
                self.st.held = self.st.held | {(m, objloc)}
                return VOID
            if short == 'unlock' and cls.startswith(LOCKCLS):
                rm = [h for h in self.st.held if h[1] is objloc]
                if not hasattr(self, 'unlocked'): self.unlocked = []
                self.unlocked += rm
                self.st.held = self.st.held - set(rm)
                self.ev('release', e, f, fn=fn, objloc=objloc)
                return VOID
            if short == 'lock' and cls == 'std::mutex':
                self.ev('acquire', e, f, fn=fn, objloc=objloc, args=(objloc,))
                self.st.held = self.st.held | {(objloc, objloc)}
                return VOID
            if short == 'unlock' and cls == 'std::mutex':
                self.st.held = frozenset(h for h in self.st.held if h[0] is not objloc)
                self.ev('release', e, f, fn=fn, objloc=objloc)
                return VOID
            if short == 'operator=' and len(a) == 1:
                v = self.eval(f, a[0])
                if self.st is None: return UNK
                self.write(objloc, v, e, f)
                return objloc if want == 'loc' else v
            if short == 'resize' and len(a) in (1, 2) and ('vector<' in cls or 'SmallVector' in cls):
                vals = [self.eval(f, x) for x in a]
                if self.st is None: return UNK
                self.ev('call', e, f, fn=fn, u=e.get('u'), obj=obj, objloc=objloc, args=tuple(vals), sig=sig)
                self._write(objloc, mk('RESZ', obj, *vals))
                return VOID
            if short == 'clear' and not a:
                self.ev('call', e, f, fn=fn, u=e.get('u'), obj=obj, objloc=objloc, args=(), sig=sig)
                self._write(objloc, mk('list', ()))
                return VOID
            if short.startswith('operator ') and not a:   # conversion
                if short == 'operator bool' or 'bool' in short:
                    return self.asloc(f, truth(obj), want)
                return self.asloc(f, obj, want)
            return None
        n = sig['n'] if sig else short
        if n in ('min', 'max') and len(a) == 2:
            x = self.eval(f, a[0])
            y = self.eval(f, a[1]) if self.st is not None else UNK
            if self.st is None: return UNK
            if y.id < x.id: x, y = y, x
            return self.asloc(f, mk(n, x, y), want)
        if n == 'get' and len(a) == 1 and fn.startswith('std::'):
            ta = sig.get('ta', [])
            l = self.lval(f, a[0])
            if self.st is None: return UNK
            i = ta[0] if ta else '0'
            t0 = strip_cvref(a[0].get('t', ''))
            if 'pair' in t0:
                l2 = mk('F', l, 'first' if i.startswith('0') else 'second')
            else:
                l2 = mk('F', l, 'tuple%s' % i[:1])
            return l2 if want == 'loc' else self.read(l2)
        if n in ('make_pair',) and len(a) == 2:
            x = self.eval(f, a[0])
            y = self.eval(f, a[1]) if self.st is not None else UNK
            return self.asloc(f, mk('list', (x, y)), want)
        if n == 'swap' and len(a) == 2:
            lx, ly = self.lval(f, a[0]), self.lval(f, a[1])
            if self.st is None: return UNK
            x, y = self.read(lx), self.read(ly)
            self.write(lx, y, e, f)
            self.write(ly, x, e, f)
            return VOID
        if n in ('make_shared', 'make_unique'):
            vals, locs = self.args(f, a, sig)
            if self.st is None: return UNK
            self.seq += 1
            at = (sig.get('ta') or ['?'])[0]
            p = mk('newp', at, tuple(vals), self.seq)
            self.ev('new', e, f, fn=at, args=vals, alocs=locs, ret=p, sig=sig)
            return self.asloc(f, p, want)
        if short in ('operator==', 'operator!=') and len(a) == 2:
            x = self.eval(f, a[0])
            y = self.eval(f, a[1]) if self.st is not None else UNK
            if self.st is None: return UNK
            return self.asloc(f, binop('==' if short == 'operator==' else '!=', x, y), want)
        return None


def guard_cover(guards, assumed=frozenset(), depth=0):
    """True if the disjunction of literal sets covers every path consistent with `assumed` (propositional, literal-wise)"""
    gs = []
    for g in guards:
        bad = False
        for (t, p) in g:
            if (t, not p) in assumed:
                bad = True
                break
        if bad:
            continue
        r = frozenset(l for l in g if l not in assumed)
        if not r:
            return True
        gs.append(r)
    if not gs or depth > 14:
        return False
    l = next(iter(min(gs, key=len)))
    return guard_cover(gs, assumed | {l}, depth + 1) and guard_cover(gs, assumed | {(l[0], not l[1])}, depth + 1)
