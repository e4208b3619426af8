"""A small abstract interpreter over the exported syntax tree for pointer-linked data structures.

The heap is a finite shape graph (blocks, containers, links); every integer is a linear form over symbols, constrained by a set of
linear facts (polyhedra, decided by Fourier-Motzkin elimination); raw addresses are linear forms over one base symbol per
region.  A guard that the facts decide is followed, any other guard forks; a container search (lower_bound) forks over
its possible outcomes.  Nothing of the analysed program is executed: all of it is read from the syntax tree of the current source.
"""
from fractions import Fraction as Fr
import re


class Unk(Exception):
    """construct outside the interpreted subset"""


class Fault(Exception):
    """the analysed code breaks a memory or container rule on this path"""


class Infeasible(Exception):
    pass


class Lin:
    __slots__ = ('t', 'c')

    def __init__(self, t=(), c=0):
        self.t = tuple(sorted((k, v) for k, v in dict(t).items() if v)); self.c = Fr(c)

    def __add__(a, b):
        d = dict(a.t)
        for k, v in b.t: d[k] = d.get(k, 0) + v
        return Lin(d, a.c + b.c)

    def scale(a, k): return Lin({x: v * k for x, v in a.t}, a.c * k)
    def __sub__(a, b): return a + b.scale(-1)
    def __eq__(a, b): return isinstance(b, Lin) and a.t == b.t and a.c == b.c
    def __hash__(a): return hash((a.t, a.c))
    def const(a): return not a.t
    def __repr__(a): return '+'.join(['%s*%s' % (v, k) if v != 1 else str(k) for k, v in a.t] + ([str(a.c)] if a.c or not a.t else []))


def K(n): return Lin((), n)
def S(n): return Lin({n: Fr(1)})


def feasible(facts):
    """rational feasibility of a conjunction of (form >= 0)"""
    fs = {f for f in facts}
    while True:
        out = set()
        for f in fs:
            if f.const():
                if f.c < 0: return False
            else: out.add(f)
        fs = out
        if not fs: return True
        cnt = {}
        for f in fs:
            for k, v in f.t:
                p = cnt.setdefault(k, [0, 0]); p[v > 0] += 1
        k = min(cnt, key=lambda k: cnt[k][0] * cnt[k][1] - cnt[k][0] - cnt[k][1])
        pos = [f for f in fs if dict(f.t).get(k, 0) > 0]; neg = [f for f in fs if dict(f.t).get(k, 0) < 0]
        rest = {f for f in fs if k not in dict(f.t)}
        if len(pos) * len(neg) > 3000: return True
        for a in pos:
            for b in neg:
                rest.add(a.scale(1 / Fr(dict(a.t)[k])) + b.scale(-1 / Fr(dict(b.t)[k])))
        fs = rest


class Obj:
    n = 0

    def __init__(self, cls, **f):
        self.cls, self.f, self.dead = cls, dict(f), False
        Obj.n += 1; self.id = Obj.n

    def __repr__(self): return '<%s#%s>' % (self.cls.split('::')[-1], self.f.get('_name', self.id))


class Clo:
    def __init__(self, n, v, refs, this): self.n, self.v, self.refs, self.this = n, v, refs, this


class Own:
    """a unique_ptr: pointer and deleter"""
    def __init__(self, p, d): self.p, self.d = p, d


class SetV:
    def __init__(self): self.m = []


class MapV:
    def __init__(self): self.m = []


class ListV:
    def __init__(self, m=()): self.m = list(m)


class It:
    def __init__(self, c, e): self.c, self.e = c, e


END = 'end'


class Loc:
    """an lvalue: a slot in a dict or list"""
    def __init__(self, h, k, own=None): self.h, self.k, self.own = h, k, own
    def get(self): return self.h[self.k]


class _Ret(Exception):
    def __init__(self, v): self.v = v


class _Brk(Exception): pass
class _Cont(Exception): pass


class Heap:
    """one path: choices are taken from a script, extended with the first option when it runs out"""
    def __init__(self, P, script):
        self.P, self.script, self.pos, self.opts = P, list(script), 0, []
        self.facts, self.mod, self.sym = [], {}, 0
        self.steps = 0
        self.log = []          # (what, payload)
        self.hooks = {}
        self.keyed = ()        # (field names) that form the key of members of ordered sets
        self.sets = []
        self.depth = 0
        self.held = []
        self.watch = None

    # -- forks
    def choose(self, n, what=''):
        if n == 1: return 0
        if self.pos == len(self.script): self.script.append(0)
        self.opts.append(n)
        c = self.script[self.pos]; self.pos += 1
        return c

    def fresh(self, hint):
        self.sym += 1
        return S('%s%d' % (hint, self.sym))

    def assume(self, f): self.facts.append(f)
    def entails(self, f):                      # f >= 0 for all integers satisfying the facts
        return not feasible(self.facts + [f.scale(-1) - K(1)])

    def ge(self, f, what=''):
        """truth of f >= 0: decided or forked"""
        if f.const(): return f.c >= 0
        if self.entails(f): return True
        if not feasible(self.facts + [f]): return False
        if self.choose(2, what) == 0:
            self.assume(f); return True
        self.assume(f.scale(-1) - K(1)); return False

    def eqv(self, a, b):
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return a == b
        if a is None or b is None:
            if a is None and b is None: return True
            o = b if a is None else a
            if isinstance(o, (Obj, It)): return False
            if isinstance(o, Lin):
                if any(k.startswith('mem') for k, _ in o.t): return False
            raise Unk('comparison with null')
        if isinstance(a, It) or isinstance(b, It):
            return a.e is b.e or (a.e == b.e if isinstance(a.e, str) or isinstance(b.e, str) else False)
        if isinstance(a, Obj) or isinstance(b, Obj): return a is b
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            if d.const(): return d.c == 0
            if any(k.startswith('mem') for k, _ in d.t): return False
            if not self.ge(d): return False
            return self.ge(d.scale(-1))
        raise Unk('comparison')

    # -- expressions
    def truth(self, v):
        if isinstance(v, bool): return v
        if v is None: return False
        if isinstance(v, (Obj,)): return True
        if isinstance(v, Lin):
            if v.const(): return v.c != 0
            if any(k.startswith('mem') for k, _ in v.t): return True
            return not self.eqv(v, K(0))
        raise Unk('truth of %r' % (v,))

    def live(self, o, what):
        if isinstance(o, Obj) and o.dead: raise Fault('%s of a deleted block' % what)
        return o

    def rd(self, x):
        return x.get() if isinstance(x, Loc) else x

    def val(self, n, env): return self.rd(self.ev(n, env))

    def ev(self, n, env):
        self.steps += 1
        if self.steps > 20000: raise Unk('too long')
        k = n['k']
        if 'cv' in n and k not in ('Str',):
            t = n.get('t', '')
            if 'bool' in t: return bool(n['cv'])
            return K(int(n['cv'])) if isinstance(n['cv'], (int, str)) and str(n['cv']).lstrip('-').isdigit() else self._unk(n)
        if k == 'Int': return K(int(n['v']))
        if k == 'Float' and float(n['v']) == int(float(n['v'])): return K(int(float(n['v'])))
        if k == 'Bool': return bool(n['v'])
        if k == 'Null': return None
        if k == 'Str': return n.get('v')
        if k == 'FnRef': return ('fn', n.get('u'))
        if k == 'Enum': return K(int(n['v']))
        if k in ('ICast', 'Cast', 'Paren', 'CastE'):
            v = self.ev(n['e'], env)
            ek = n.get('ek') or n.get('ck') or ''
            if 'ToBoolean' in ek: return self.truth(self.rd(v))
            return v
        if k == 'This': return self.live(env['this'], 'use of this')
        if k == 'Ref':
            if n.get('g') and n.get('d') not in env['v']:
                return self.glob(n)
            if n.get('d') in env['v']:
                x = env['v'][n['d']]
                if isinstance(x, Loc) and isinstance(x.h, dict) and 'v' in x.h and 'refs' in x.h:      # captured by reference
                    if x.h.get('gone'): raise Fault('a captured reference to local %s is used after its function returned' % n.get('n'))
                    return self.ev(dict(k='Ref', d=x.k, n=n.get('n')), x.h)
                return x if isinstance(x, Loc) and n['d'] in env['refs'] else Loc(env['v'], n['d'])
            raise Unk('variable %s' % n.get('n'))
        if k == 'Member':
            b = self.rd(self.ev(n['b'], env))
            if isinstance(b, It):
                b = self.deref(b)
                b = self.rd(b)
            if isinstance(b, tuple) and b and b[0] == 'pair':
                return Loc(b[1], {'first': 0, 'second': 1}[n['n']])
            if b is None: raise Fault('null pointer dereferenced (field %s)' % n['n'])
            if not isinstance(b, Obj): raise Unk('member of %r' % (b,))
            self.live(b, 'use of field %s' % n['n'])
            if n['n'] not in b.f: raise Unk('field %s' % n['n'])
            if self.watch is not None: self.watch(self, b, n)
            return Loc(b.f, n['n'], b)
        if k == 'Un':
            op = n['op']
            if op == '&':
                return self.rd(self.ev(n['e'], env)) if True else None
            if op == '*':
                v = self.val(n['e'], env)
                if v is None: raise Fault('null pointer dereferenced')
                if isinstance(v, It): return self.deref(v)
                if isinstance(v, Obj): return self.live(v, 'use')
                raise Unk('deref')
            if op == '!': return not self.truth(self.val(n['e'], env))
            if op == '-': return self.val(n['e'], env).scale(-1)
            if op in ('++', '--', 'p++', '++p'):
                l = self.ev(n['e'], env); v = l.get()
                if isinstance(v, Lin): self.store(l, v + K(1 if '+' in op else -1)); return l
            raise Unk('unary %s' % op)
        if k == 'Bin': return self.binop(n, env)
        if k == 'CondOp': return self.ev(n['c'][1] if self.truth(self.val(n['c'][0], env)) else n['c'][2], env)
        if k == 'Lambda':
            v, refs = {}, set()
            for c in n.get('cap', ()):
                if 'd' not in c: continue
                if 'init' in c: v[c['d']] = self.val(c['init'], env)
                elif c.get('ref'): v[c['d']] = Loc(env, c['d']); refs.add(c['d'])
                else: v[c['d']] = self.rd(self.ev(dict(k='Ref', d=c['d'], n=c.get('n')), env))
            return Clo(n, v, refs, env.get('this'))
        if k == 'New':
            o = self.val(n['init'], env)
            if isinstance(o, Obj): o.f['_heap'] = True; self.log.append(('new', o))
            return o
        if k == 'Delete':
            o = self.val(n['e'], env)
            if o is None: return None
            if o.dead: raise Fault('block deleted twice')
            if not o.f.get('_heap'): raise Fault('delete of a block that was not allocated with new')
            o.dead = True; self.log.append(('delete', o))
            return None
        if k == 'Construct': return self.construct(n, env)
        if k == 'InitList':
            a = n.get('a', [])
            if len(a) == 1 and a[0]['k'] == 'InitList': return self.ev(a[0], env)
            return ListV([self.val(x, env) for x in a])
        if k == 'Call': return self.call(n, env)
        if k in ('ExprWithCleanups', 'MaterializeTemporaryExpr'): return self.ev(n['e'], env)
        return self._unk(n)

    def glob(self, n):
        h = self.hooks.get('global')
        if h is None: raise Unk('global %s' % n['g'])
        return h(self, n)

    def invoke(self, f, vals):
        if not isinstance(f, Clo): raise Unk('call of %r' % (f,))
        v, refs = dict(f.v), set(f.refs)
        for p, x in zip(f.n.get('ps', []), vals): v[p['id']] = x
        e = dict(this=f.this, v=v, refs=refs)
        try:
            self.st(f.n['body'], e); return None
        except _Ret as x: return x.v

    def destroy(self, o):
        """end of the lifetime of an object: owned memory goes to its deleter"""
        for k, v in list(o.f.items()):
            if isinstance(v, Own) and v.p is not None: self.invoke(v.d, [v.p])
        o.dead = True
        o.f.clear()

    def _unk(self, n): raise Unk('%s %s' % (n.get('k'), n.get('n') or n.get('op') or n.get('fn') or ''))

    def store(self, l, v):
        if not isinstance(l, Loc): raise Unk('store to a value')
        if l.own is not None and l.k in self.keyed:
            for s in self.sets:
                if any(x is l.own for x in s.m) and not (l.get() is v or (isinstance(v, Lin) and l.get() == v)):
                    raise Fault('field %s of a block changes while the block is in a free list ordered by it' % l.k)
        l.h[l.k] = v

    def binop(self, n, env):
        op = n['op']
        if op == '&&': return self.truth(self.val(n['x'], env)) and self.truth(self.val(n['y'], env))
        if op == '||': return self.truth(self.val(n['x'], env)) or self.truth(self.val(n['y'], env))
        if op == ',': self.ev(n['x'], env); return self.ev(n['y'], env)
        if op == '=':
            v = self.val(n['y'], env); l = self.ev(n['x'], env); self.store(l, v); return l
        if len(op) >= 2 and op[-1] == '=' and op not in ('==', '!=', '<=', '>='):
            v = self.val(n['y'], env); l = self.ev(n['x'], env)
            self.store(l, self.arith(op[:-1], l.get(), v)); return l
        x, y = self.val(n['x'], env), self.val(n['y'], env)
        if op == '==': return self.eqv(x, y)
        if op == '!=': return not self.eqv(x, y)
        if op in ('<', '>', '<=', '>='):
            if not (isinstance(x, Lin) and isinstance(y, Lin)): raise Unk('order of pointers')
            if op == '<': return not self.ge(x - y)
            if op == '>': return not self.ge(y - x)
            if op == '<=': return self.ge(y - x)
            return self.ge(x - y)
        return self.arith(op, x, y)

    def arith(self, op, x, y):
        if isinstance(x, bool): x = K(int(x))
        if isinstance(y, bool): y = K(int(y))
        if not (isinstance(x, Lin) and isinstance(y, Lin)): raise Unk('arithmetic %s' % op)
        if op == '+': return x + y
        if op == '-': return x - y
        if op == '*':
            if x.const(): return y.scale(x.c)
            if y.const(): return x.scale(y.c)
            raise Unk('product')
        if op in ('/', '%', '&', '>>', '<<'):
            if op == '>>' and y.const(): op, y = '/', K(2 ** int(y.c))
            if op == '<<' and y.const(): return x.scale(2 ** int(y.c))
            if op == '&' and y.const():
                c = int(y.c) & (2 ** 64 - 1)
                inv = (2 ** 64 - 1) ^ c
                if inv & (inv + 1) == 0 and c:       # x & ~(2^k-1)
                    return self.div(x, inv + 1).scale(inv + 1)
                if c & (c + 1) == 0: op, y = '%', K(c + 1)
                else: raise Unk('mask')
            if y.const() and y.c > 0:
                q = self.div(x, y.c)
                return q if op == '/' else x - q.scale(y.c)
        raise Unk('arithmetic %s' % op)

    def div(self, x, c):
        if x.const(): return K(x.c // c)
        key = ('div', x, c)
        if key in self.hooks: return self.hooks[key]
        q = self.fresh('q')
        self.assume(x - q.scale(c)); self.assume(q.scale(c) + K(c - 1) - x)
        self.hooks[key] = q
        return q

    # -- containers
    def deref(self, it):
        if it.e is END: raise Fault('end() iterator dereferenced')
        if isinstance(it.c, MapV):
            for p in it.c.m:
                if p[1] is it.e[1]: return p[1]
            raise Fault('invalidated iterator dereferenced')
        if isinstance(it.c, SetV):
            if not any(x is it.e for x in it.c.m): raise Fault('iterator to an erased element dereferenced')
            return it.e
        raise Unk('deref')

    def nxt(self, it):
        if it.e is END: raise Fault('end() iterator advanced')
        if not isinstance(it.c, SetV): raise Unk('iterator')
        ix = [i for i, x in enumerate(it.c.m) if x is it.e]
        if not ix: raise Fault('iterator to an erased element advanced')
        return It(it.c, it.c.m[ix[0] + 1] if ix[0] + 1 < len(it.c.m) else END)

    def container(self, c, m, n, env):
        a = [self.val(x, env) for x in n.get('a', [])]
        if isinstance(c, SetV):
            if m in ('begin', 'cbegin'): return It(c, c.m[0] if c.m else END)
            if m in ('end', 'cend'): return It(c, END)
            if m == 'empty': return not c.m
            if m == 'size': return K(len(c.m))
            if m in ('insert', 'emplace'):
                o = a[0]
                if o is None: raise Fault('null block put into a free list')
                self.live(o, 'insertion')
                if not any(x is o for x in c.m): c.m.append(o)
                self.log.append(('insert', c, o))
                return It(c, o)
            if m == 'erase':
                o = a[0].e if isinstance(a[0], It) else a[0]
                if o is END: raise Fault('erase(end())')
                ix = [i for i, x in enumerate(c.m) if x is o]
                if isinstance(a[0], It):
                    if not ix: raise Fault('erase through an invalidated iterator')
                    r = self.nxt(It(c, o)); c.m.pop(ix[0]); return r
                if isinstance(o, Obj) and o.dead: raise Fault('erase by key of a deleted block (the comparison reads freed memory)')
                if ix: c.m.pop(ix[0])
                return K(len(ix))
            if m in ('lower_bound', 'upper_bound', 'find'):
                key = a[0]
                if not isinstance(key, Obj): raise Unk('search key')
                self.live(key, 'search')
                self.log.append(('search', c, key, m))
                if m == 'find': return It(c, key if any(x is key for x in c.m) else END)
                i = self.choose(len(c.m) + 1, 'lower_bound')
                if i == 0:
                    return It(c, END)
                o = c.m[i - 1]
                f = o.f['size'] - key.f['size']
                self.assume(f)
                if not feasible(self.facts): raise Infeasible()
                return It(c, o)
        if isinstance(c, MapV):
            if m in ('end', 'cend'): return It(c, END)
            if m == 'empty': return not c.m
            if m == 'size': return K(len(c.m))
            if m in ('find', 'count', 'contains', 'at', '[]', 'erase', 'insert', 'emplace', 'insert_or_assign', 'try_emplace'):
                if m == 'erase' and isinstance(a[0], It):
                    ix = [i for i, p in enumerate(c.m) if a[0].e is not END and p[1] is a[0].e[1]]
                    if not ix: raise Fault('erase through an invalidated iterator')
                    c.m.pop(ix[0]); return None
                if m in ('insert',) : raise Unk('map insert')
                ix = [i for i, p in enumerate(c.m) if self.eqv(p[0], a[0])]
                if m == 'find': return It(c, c.m[ix[0]] if ix else END)
                if m == 'count': return K(len(ix))
                if m == 'contains': return bool(ix)
                if m == 'erase':
                    if ix: c.m.pop(ix[0])
                    return K(len(ix))
                if m == '[]' and not ix:
                    cell = ('pair', [a[0], None]); c.m.append((a[0], cell)); return Loc(cell[1], 1)
                if m in ('emplace', 'try_emplace', 'insert_or_assign'):
                    if ix:
                        if m == 'insert_or_assign': c.m[ix[0]][1][1][1] = a[1]
                        return None
                    c.m.append((a[0], ('pair', [a[0], a[1]]))); return None
                if not ix: raise Fault('at() of a missing key')
                return Loc(c.m[ix[0]][1][1], 1)
        if isinstance(c, ListV):
            if m in ('push_back', 'emplace_back'): c.m.append(a[0]); return None
            if m == 'empty': return not c.m
            if m == 'size': return K(len(c.m))
            if m in ('[]', 'at') and isinstance(a[0], Lin) and a[0].const() and 0 <= a[0].c < len(c.m): return Loc(c.m, int(a[0].c))
            if m == 'reserve': return None
            if m == 'clear': c.m.clear(); return None
        raise Unk('container operation %s' % m)

    def call(self, n, env):
        fn = n.get('fn') or ''
        m = n.get('op') or fn.split('::')[-1]
        if fn.endswith('Logger::log'): return None
        if m in ('move', 'forward') and fn.startswith('std::') and len(n.get('a', [])) == 1: return self.ev(n['a'][0], env)
        if n.get('op') in ('==', '!=') and not n.get('obj'):
            r = self.eqv(self.val(n['a'][0], env), self.val(n['a'][1], env)); return r if n['op'] == '==' else not r
        if n.get('obj') is not None:
            lo = self.ev(n['obj'], env); o = self.rd(lo)
            if isinstance(o, It):
                if m in ('*',): return self.deref(o)
                if m == '->': return o
                if m == '++':
                    old = It(o.c, o.e)
                    self.store(lo, self.nxt(o)); return old if n.get('a') else lo
                if m in ('==', '!='):
                    r = self.eqv(o, self.val(n['a'][0], env)); return r if m == '==' else not r
                raise Unk('iterator %s' % m)
            if isinstance(o, Own):
                if m == '=':
                    w = self.val(n['a'][0], env)
                    if o.p is not None and o.d is not None: self.invoke(o.d, [o.p])
                    if isinstance(w, Own): o.p, o.d = w.p, w.d; w.p = None
                    elif w is None: o.p = None
                    else: raise Unk('unique_ptr =')
                    return lo
                if m in ('get', '->', '*'): return o.p
                if m in ('reset', 'release'):
                    p, o.p = o.p, (self.val(n['a'][0], env) if n.get('a') else None)
                    if m == 'release': return p
                    if p is not None: self.invoke(o.d, [p])
                    return None
                if m == 'operator bool': return o.p is not None
                raise Unk('unique_ptr %s' % m)
            if isinstance(o, tuple) and o and o[0] == 'lock': raise Unk('lock operation')
            if isinstance(o, Obj) and m in ('->', '*', 'get') and 'unique_ptr' in fn: return o
            if isinstance(o, Clo) and m == '()': return self.invoke(o, [self.val(x, env) for x in n['a']])
            if isinstance(o, (SetV, MapV, ListV)): return self.container(o, m, n, env)
            if isinstance(o, Obj) and o.cls in self.hooks:
                return self.hooks[o.cls](self, o, m, [self.val(x, env) for x in n.get('a', [])])
            if o is None: raise Fault('call through a null pointer')
            if isinstance(o, Obj):
                self.live(o, 'use')
                return self.apply(self.resolve(n, o), o, n.get('a', []), env)
            raise Unk('call %s' % fn)
        r = self.resolve(n, None)
        if r is None or r.get('body') is None:
            if m in ('max', 'min') and len(n.get('a', [])) == 2:
                x, y = self.val(n['a'][0], env), self.val(n['a'][1], env)
                return x if self.ge(x - y) == (m == 'max') else y
            if 'ext' in self.hooks: return self.hooks['ext'](self, fn, n, [self.val(x, env) for x in n.get('a', [])])
            raise Unk('call %s' % fn)
        this = env.get('this') if (r.get('cls') and not r.get('static')) else None
        return self.apply(r, this, n.get('a', []), env)

    def resolve(self, n, o):
        u = n.get('u')
        r = self.P.funcs.get(u) if u else None
        if r is not None and r.get('body') is None and o is not None: r = None
        if r is None and o is not None and n.get('virt'):
            c = [x for x in self.P.by_name.get(o.cls + '::' + n['fn'].split('::')[-1], [])]
            r = c[0] if len(c) == 1 else None
        if r is None:
            if o is None: return None
            raise Unk('call %s' % n.get('fn'))
        return r

    def apply(self, r, this, args, env, pre=None):
        if r.get('body') is None: raise Unk('no body %s' % r['fn'])
        self.depth += 1
        if self.depth > 30: raise Unk('recursion')
        ps = r.get('ps') or []
        v, refs = {}, set()
        vals = pre if pre is not None else [self.ev(a, env) for a in args]
        if len(vals) > len(ps): raise Unk('arguments')
        for i, p in enumerate(ps):
            if i >= len(vals): raise Unk('default argument')
            pid = p.get('id', p.get('d'))
            if '&' in p['t'] and isinstance(vals[i], Loc) and not isinstance(vals[i].get(), (Obj, SetV, MapV, ListV)):
                v[pid] = vals[i]; refs.add(pid)
            else: v[pid] = self.rd(vals[i])
        e = dict(this=this, v=v, refs=refs)
        nh = len(self.held)
        try:
            if r.get('ctor'):
                for ini in r.get('inits') or []:
                    if 'm' in ini: this.f[ini['m']] = self.initval(ini['m'], this, ini.get('e'), e)
            self.st(r['body'], e)
            out = None
        except _Ret as x:
            out = x.v if (r.get('ret') or '').endswith('&') else self.rd(x.v)
        self.depth -= 1
        e['gone'] = True
        del self.held[nh:]
        return out

    def initval(self, m, this, e, env):
        fld = [f for f in self.P.classes[this.cls]['fields'] if f['n'] == m]
        t = fld[0]['t'] if fld else ''
        c = self.empty(t)
        if c is not None: return c
        if e is None: return None
        v = self.val(e, env)
        return v

    def empty(self, t):
        if re.match(r'(const )?std::set<', t):
            s = SetV(); self.sets.append(s); return s
        if 'unordered_dense' in t or re.match(r'(const )?std::(unordered_)?map<', t):
            if t.strip().endswith(('*', '&')): return None
            return MapV()
        if re.match(r'(const )?std::vector<', t) and not t.endswith(('*', '&')): return ListV()
        if 'mutex' in t: return 'mutex'
        return None

    def construct(self, n, env):
        t = re.sub(r'^const ', '', n.get('t', ''))
        a = n.get('a', [])
        c = self.empty(t)
        if c is not None and not isinstance(c, str) and not n.get('cp'): return c
        if 'lock_guard' in t or 'unique_lock' in t or 'scoped_lock' in t:
            x = a[0] if len(a) == 1 else None
            while x is not None and x['k'] in ('ICast', 'Cast'): x = x['e']
            if x is None or x['k'] not in ('Member', 'Ref'): raise Unk('lock')
            return ('lock', x['n'] if x['k'] == 'Member' or x.get('g') else None)
        if 'unique_ptr<' in t:
            w = [self.val(y, env) for y in a]
            if len(w) == 1 and isinstance(w[0], Own):
                o = w[0]
                if not n.get('cp'): r = Own(o.p, o.d); o.p = None; return r
            return Own(w[0] if w else None, w[1] if len(w) > 1 else None)
        if 'std::function<' in t and len(a) == 1: return self.val(a[0], env)
        if 'initializer_list' in t: raise Unk('list')
        if n.get('cp') or n.get('mv'): 
            v = self.val(a[0], env)
            if isinstance(v, (Obj, SetV, MapV, ListV)): 
                if isinstance(v, ListV): return ListV(v.m)
                raise Unk('copy')
            return v
        cls = self.P.classes.get(t)
        if cls is None: raise Unk('construct %s' % t[:60])
        r = self.P.funcs.get(n.get('u'))
        o = Obj(t)
        for f in cls['fields']:
            c = self.empty(f['t'])
            o.f[f['n']] = c
        if r is None:
            if a: raise Unk('constructor of %s' % t)
            return o
        self.apply(r, o, a, env)
        return o

    # -- statements
    def st(self, s, env):
        if s is None: return
        self.steps += 1
        if self.steps > 20000: raise Unk('too long')
        k = s['k']
        if k == 'Nop': return
        if k == 'Compound':
            nh = len(self.held)
            for x in s.get('c', []): self.st(x, env)
            del self.held[nh:]
        elif k == 'DeclStmt':
            for x in s['c']:
                if x['k'] != 'Var': continue
                if x.get('init') is None:
                    env['v'][x['id']] = self.empty(x['t']); continue
                v = self.ev(x['init'], env)
                if isinstance(v, tuple) and v and v[0] == 'lock':
                    if v[1]: self.held.append(v[1])
                    env['v'][x['id']] = v
                    continue
                if x.get('static'):
                    env['v'][x['id']] = self.rd(v); continue
                if x['t'].rstrip().endswith('&') and isinstance(v, Loc) and not isinstance(v.get(), (Obj, SetV, MapV, ListV)):
                    env['v'][x['id']] = v; env['refs'].add(x['id'])
                else:
                    env['v'][x['id']] = self.rd(v)
        elif k == 'If':
            for y in ('init', 'var'):
                if s.get(y): self.st(s[y] if s[y]['k'] == 'DeclStmt' else dict(k='DeclStmt', c=[s[y]]) if s[y]['k'] == 'Var' else s[y], env)
            if self.truth(self.val(s['cond'], env)): self.st(s.get('then'), env)
            else: self.st(s.get('else'), env)
        elif k == 'Return':
            v = self.ev(s['e'], env) if s.get('e') else None
            x = self.rd(v)
            raise _Ret(v if isinstance(v, Loc) and v.h is not env['v'] else x)
        elif k in ('While', 'For', 'Do'):
            if s.get('init'): self.st(s['init'], env)
            first = k == 'Do'
            n = 0
            while True:
                if not first and s.get('cond') is not None and not self.truth(self.val(s['cond'], env)): break
                first = False
                n += 1
                if n > 40: raise Unk('loop')
                try: self.st(s['body'], env)
                except _Brk: break
                except _Cont: pass
                if s.get('inc'): self.ev(s['inc'], env)
                elif s.get('next'): self.ev(s['next'], env)
        elif k == 'RangeFor':
            c = self.val(s['range'], env)
            if isinstance(c, SetV): items = None
            elif isinstance(c, ListV): items = list(c.m)
            else: raise Unk('range')
            var = s['var']['id']
            if items is None:
                it = It(c, c.m[0] if c.m else END)
                while it.e is not END:
                    env['v'][var] = self.deref(it)
                    try: self.st(s['body'], env)
                    except _Brk: return
                    except _Cont: pass
                    it = self.nxt(it)
            else:
                for x in items:
                    env['v'][var] = x
                    try: self.st(s['body'], env)
                    except _Brk: return
                    except _Cont: pass
        elif k == 'Break': raise _Brk()
        elif k == 'Continue': raise _Cont()
        elif k == 'Asm': raise Fault('an assertion fails')
        elif k in ('Null', 'Empty'): pass
        else: self.ev(s, env)


def explore(P, setup, limit=4000, heap=None):
    """run setup(heap) along every path; yields (heap, result or exception)"""
    script = []
    n = 0
    while True:
        n += 1
        if n > limit: raise Unk('too many paths')
        h = (heap or Heap)(P, script)
        try: out = setup(h)
        except Infeasible: out = Infeasible
        except Fault as e: out = e
        if out is not Infeasible and not feasible(h.facts): out = Infeasible
        if out is not Infeasible: yield h, out
        sc, op = h.script[:h.pos], h.opts
        while sc and sc[-1] + 1 >= op[len(sc) - 1]: sc.pop()
        if not sc: return
        sc[-1] += 1
        script = sc
