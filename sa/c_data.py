"""Data loading: which indices samplers and loaders visit, how batches are put together, transforms and the MNIST reader.
The list effects of a function (resize, iota, shuffle, append, assign, store) and the closed forms of its loops are taken from the
abstract interpretation; a finite model of sizes, replicas, epochs and flags is then pushed through them and compared with the definition."""
import random
import struct
from kern import Unk
from model import *
from c_module import Visit, bare, fget, evloc, guards

D = 'tinytorch::data::'
DIST = 'tinytorch::distributed::'
THIS = mk('this')
OPQ = ('tinytorch::op::', 'tinytorch::Tensor::', 'tinytorch::RandomGenerator', DIST + 'DistributedProcessGroup')
ABSTR = {D + 'Dataset::size', D + 'Dataset::getItem', D + 'Sampler::indices', D + 'Sampler::size', D + 'transforms::Transform::process'}


class Bad(Exception): pass      # the function does something undefined in this model


def policy(): return Policy(opaque=lambda r: r['fn'].startswith(OPQ) or r['fn'] in ABSTR)


def f32(x): return struct.unpack('f', struct.pack('f', x))[0]


class Eng:
    """a random engine: everything a shuffle with it depends on"""
    def __init__(self, key): self.key, self.n = key, 0


class Obj:
    """state of an object: scalar fields by name, lists by name"""
    def __init__(self): self.s, self.l, self.e = {}, {}, {}


class It:
    def __init__(self, loc, i): self.loc, self.i = loc, i


class Opt:
    def __init__(self, v): self.v = v


def shuffled(l, eng):
    eng.n += 1
    l = list(l)
    random.Random(repr((eng.key, eng.n, len(l)))).shuffle(l)
    return l


class Replay:
    """effects of one function in one model"""
    def __init__(self, I, params, obj, ext=None, limit=200000):
        self.I, self.ps, self.obj, self.ext, self.left = I, params, obj, ext or {}, limit
        self.entry = dict(obj.s)
        self.vals, self.locs, self.eng = {}, {}, {}        # term -> value of calls; local lists by location; engines
        self.hav = {}
        self.loclists = {}
        self.ftype = {}
        for e in I.evs:
            if e.kind == 'int2float': self.ftype[e.args[0]] = (e.node or {}).get('t', '')
        self.result = None

    # -- locations
    def key(self, l):
        l0 = l
        while l.op in ('mut',): l = l.a[0]
        f = fget(l)
        if f is not None: return ('f', f)
        if l.op in ('F', 'fld') and isinstance(l.a[0], T):
            o = self.base(l.a[0])
            if o is not None: return ('o', o, l.a[1])
        if l.op in ('E', 'elem') :
            b = self.key(l.a[0])
            i = self.v(l.a[1])
            return ('e', b, int(i))
        if l.op == 'hav' and isinstance(l.a[2], T): return self.key(l.a[2])
        if l.op in ('deref', 'D') and l.a[0].op in ('addr', 'addrof'): return self.key(l.a[0].a[0])
        return ('l', l)

    def base(self, t):
        try: o = self.v(t)
        except Unk: return None
        return o if isinstance(o, Obj) else None

    def get(self, k):
        if k[0] == 'o':
            if k[2] in k[1].l: return k[1].l[k[2]]
            raise Unk('list %s' % k[2])
        if k[0] == 'f':
            if k[1] in self.obj.l: return self.obj.l[k[1]]
            raise Unk('list %s' % k[1])
        if k[0] == 'e':
            l = self.get(k[1])
            if not 0 <= k[2] < len(l): raise Bad('element %d of a list of %d is used' % (k[2], len(l)))
            return l[k[2]]
        if k in self.locs: return self.locs[k]
        raise Unk('list %s' % show(k[1])[:60])

    def put(self, k, l):
        if k[0] == 'f': self.obj.l[k[1]] = l
        elif k[0] == 'o': k[1].l[k[2]] = l
        elif k[0] == 'e':
            b = list(self.get(k[1]))
            if not 0 <= k[2] < len(b): raise Bad('element %d of a list of %d is stored' % (k[2], len(b)))
            b[k[2]] = l
            self.put(k[1], b)
        else: self.locs[k] = l

    # -- values
    def v(self, t):
        t = bare(t)
        if t in self.vals: return self.vals[t]
        c = cval(t)
        if c is not None: return c
        op = t.op
        if op == 'param':
            if t.a[1] in self.ps or t.a[0] in self.ps: return self.ps.get(t.a[1], self.ps.get(t.a[0]))
            raise Unk('parameter ' + str(t.a[1]))
        if op == 'hav':
            if t in self.hav: return self.hav[t]
            f = fget(t)
            if f is not None and f in self.obj.s: return self.obj.s[f]
            k = self.key(t.a[2]) if isinstance(t.a[2], T) else None
            if k is not None:
                try: return self.get(k)
                except Unk: pass
            raise Unk('value %s' % show(t)[:60])
        f = fget(t)
        if f is not None:
            if f in self.entry: return self.entry[f]
            if f in self.obj.l: return self.obj.l[f]
            if ('f', f) in self.ext: return self.ext[('f', f)]
            raise Unk('field ' + f)
        if op in ('F', 'fld') and isinstance(t.a[0], T):
            o = self.base(t.a[0])
            if o is not None:
                if t.a[1] in o.s: return o.s[t.a[1]]
                if t.a[1] in o.l: return o.l[t.a[1]]
            raise Unk('field ' + t.a[1])
        if op == 'phi': return self.v(t.a[1]) if self.truth(t.a[0]) else self.v(t.a[2])
        if op in ('and', 'or'):
            a = self.truth(t.a[0])
            return (a and self.truth(t.a[1])) if op == 'and' else (a or self.truth(t.a[1]))
        if op == 'not': return not self.truth(t.a[0])
        if op in ('deref', 'D'):
            x = self.v(t.a[0])
            if isinstance(x, Opt):
                if x.v is None: raise Bad('an absent argument is read')
                return x.v
            return x
        if op == 'tofloat':
            x = self.v(t.a[0])
            return float(x) if 'double' in self.ftype.get(t.a[0], 'float') else f32(float(x))
        if op == 'toint': return int(self.v(t.a[0]))
        if op in ('+', '-', '*', '/', '%') and len(t.a) == 2:
            x, y = self.v(t.a[0]), self.v(t.a[1])
            if not all(isinstance(z, (int, float)) for z in (x, y)): raise Unk('arithmetic')
            if op in '/%' and not isinstance(x, float) and not isinstance(y, float):
                if y == 0: raise Bad('division by zero')
                return x // y if op == '/' else x % y
            r = x + y if op == '+' else x - y if op == '-' else x * y if op == '*' else x / y
            return f32(r) if isinstance(r, float) else r
        if op in ('<', '<=', '>', '>=', '==', '!='):
            x, y = self.v(t.a[0]), self.v(t.a[1])
            if isinstance(x, Opt): x = x.v
            return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
        if op == 'neg': return -self.v(t.a[0])
        if op in ('elem', 'E'):
            try: l = self.listof(t.a[0])
            except Unk: return self.get(self.key(t))
            i = len(l) - 1 if t.a[1].op == 'last' else self.v(t.a[1])
            if not 0 <= i < len(l): raise Bad('element %s of a list of %d is read' % (i, len(l)))
            return l[i]
        if op == 'call':
            f = t.a[0].split('::')[-1] if not t.a[0].split('<')[0].startswith('std::') else t.a[0].split('::')[-1]
            if t.a[0] in ('std::min', 'std::max') and len(t.a[2]) == 2: return (min if f == 'min' else max)(self.v(t.a[2][0]), self.v(t.a[2][1]))
            if f in ('ceil', 'ceilf') and len(t.a[2]) == 1:
                import math
                return float(math.ceil(self.v(t.a[2][0])))
            if f in ('floor', 'floorf') and len(t.a[2]) == 1:
                import math
                return float(math.floor(self.v(t.a[2][0])))
            if f in ('value', 'operator*') and t.a[1] is not None and not t.a[2]:
                x = self.v(t.a[1])
                return x.v if isinstance(x, Opt) else x
            if f == 'value_or':
                x = self.v(t.a[1])
                return x.v if isinstance(x, Opt) and x.v is not None else self.v(t.a[2][0])
            if f in ('has_value', 'operator bool'):
                x = self.v(t.a[1])
                return x.v is not None if isinstance(x, Opt) else bool(x)
            if f == 'move' and len(t.a[2]) == 1: return self.v(t.a[2][0])
            if t.a[0] in self.ext: return self.ext[t.a[0]](self, t)
        if op in ('min', 'max'): return (min if op == 'min' else max)(self.v(x) for x in t.a)
        if op in ('RESZ', 'IOTA', 'app', 'new', 'rec'):
            if op == 'new' and t.a[0].split('<')[0] in ('std::tuple', 'std::pair', 'std::optional', 'std::reference_wrapper', 'tinytorch::Scalar'):
                return tuple(self.v(x) for x in t.a[1])
            raise Unk('list value ' + show(t)[:60])
        if op == 'null': return None
        raise Unk('value %s' % show(t)[:80])

    def truth(self, t):
        if t.op == 'not': return not self.truth(t.a[0])
        x = self.v(t)
        return x.v is not None if isinstance(x, Opt) else bool(x)

    def holds(self, e, base):
        for g, p in e.gl[base:] if base else e.gl:
            if self.loopcond(g): continue
            if self.truth(g) != p: return False
        return True

    def loopcond(self, g):
        return g.op == 'inrange' or any(g is c or c.op in ('and', 'not') and g in c.a for c in self.conds)

    # -- effects
    def run(self):
        self.conds = [i['cond'] for i in self.I.loopinfo.values() if i.get('cond') is not None]
        self.block(self.I.evs, 0)
        return self.result

    def block(self, evs, depth):
        n = 0
        while n < len(evs):
            e = evs[n]
            if len(e.loops) > depth:
                lid = e.loops[depth]
                m = n
                while m < len(evs) and len(evs[m].loops) > depth and evs[m].loops[depth] == lid: m += 1
                self.loop(lid, evs[n:m], depth)
                n = m
            else:
                if e.kind in ('call', 'write', 'init', 'decl', 'ctor', 'load', 'return', 'trap', 'div', 'refdecl') and self.holds(e, 0): self.effect(e)
                n += 1

    def loop(self, lid, evs, depth):
        i = self.I.loopinfo[lid]
        if i.get('brks') or any(e.kind in ('return', 'trap') and e.loops and e.rec is evs[0].rec for e in evs): raise Unk('a loop that is left early')
        pre = [e for e in evs if e.kind != 'loop']
        lead = [e for e in evs if e.kind == 'loop' and e.loops[-1] == lid]
        if lead and not self.holds(lead[0], 0): return
        c = i['cond']
        hs = {}
        for nm, a in i['init'].items():
            h = [x for x in {y for q in [c] + [a_ for e in evs for a_ in e.args] for y in subterms(q)} if x.op == 'hav' and x.a[0] == lid and x.a[2] is nm]
            for x in h:
                if len(x.a) > 3: continue
                try: hs[x] = (self.v(a), i['next'].get(nm))
                except Unk: pass
        cur = {h: v for h, (v, _) in hs.items()}
        k = 0
        while True:
            self.left -= 1 + len(evs)
            if self.left < 0: raise Unk('too many steps')
            self.hav.update(cur)
            if c.op == 'inrange':
                r = i.get('rangeloc')
                l = self.get(self.key(r)) if r is not None else self.v(i['range'])
                if k >= len(l): break
                self.hav[c.a[0]] = k
                self.vals.pop(c.a[0], None)
            else:
                self.calls([e for e in evs if e.kind == 'call' and e.loops[-1:] == (lid,) and e.ret is not None and any(e.ret is y for y in subterms(c))])
                if not self.truth(c): break
            self.block([e for e in evs if not (e.kind == 'loop' and e.loops[-1] == lid)], depth + 1)
            self.hav.update(cur)
            cur = {h: self.v(hs[h][1]) if hs[h][1] is not None else cur[h] for h in cur}
            k += 1

    def calls(self, es):
        for e in es: self.effect(e)

    def iter(self, t):
        t = bare(t)
        if t in self.vals and isinstance(self.vals[t], It): return self.vals[t]
        if t.op == 'call' and t.a[0].split('::')[-1] in ('operator+', 'operator-'):
            b = t.a[1] if t.a[1] is not None else t.a[2][0]
            d = t.a[2][0] if t.a[1] is not None else t.a[2][1]
            x = self.iter(b)
            n = self.v(d)
            return It(x.loc, x.i + (n if t.a[0].endswith('+') else -n))
        if t.op == 'phi': return self.iter(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if t.op in ('+', '-'):
            x = self.iter(t.a[0])
            n = self.v(t.a[1])
            return It(x.loc, x.i + (n if t.op == '+' else -n))
        if t.op == 'new' and len(t.a[1]) == 1: return self.iter(t.a[1][0])
        raise Unk('iterator ' + show(t)[:60])

    def span(self, a, b):
        x, y = self.iter(a), self.iter(b)
        if x.loc != y.loc: raise Bad('a range from one list to another')
        l = self.get(x.loc)
        if not 0 <= x.i <= y.i <= len(l): raise Bad('the range [%d, %d) of a list of %d' % (x.i, y.i, len(l)))
        return x.loc, int(x.i), int(y.i)

    def listof(self, t, node=None):
        """the list a term denotes at this moment"""
        t0 = t
        while t.op == 'mut': t = t.a[0]
        if t in self.vals and isinstance(self.vals[t], (list, range)): return self.vals[t]
        if t.op == 'call' and t.a[0].split('::')[-1] == 'move' and len(t.a[2]) == 1: return self.listof(t.a[2][0], node)
        if t.op == 'phi': return self.listof(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if t.op == 'param' and isinstance(self.ps.get(t.a[1]), (list, range)): return self.ps[t.a[1]]
        if t.op == 'new' and t.a[0].split('<')[0] in ('std::vector', 'tinytorch::ArrayView', 'tinytorch::SmallVector'):
            a = [x for x in t.a[1] if not (x.op == 'new' and 'allocator' in x.a[0].split('<')[0])]
            if not a: return []
            if len(a) == 1 and a[0].op == 'list': return [self.v(x) for x in a[0].a[0]]
            if len(a) in (1, 2) and not self.islist(a[0]):
                n = self.v(a[0])
                if isinstance(n, int): return [self.v(a[1])] * n if len(a) == 2 else [self.zero(t.a[0])] * n
            if len(a) == 1: return self.listof(a[0])
            if len(a) == 2:
                k, i, j = self.span(*a)
                return self.get(k)[i:j]
        f = fget(t)
        if f is not None and f in self.obj.l: return self.obj.l[f]
        if t.op == 'call' and t.a[0] in self.ext:
            x = self.ext[t.a[0]](self, t)
            if isinstance(x, (list, range)): return x
        if node is not None:
            for r in refs(node):
                ks = [k for k in self.locs if k[0] == 'l' and k[1].op == 'V' and r in k[1].a]
                if len(ks) == 1: return self.get(ks[0])
        if t.op == 'hav' and isinstance(t.a[2], T): return self.get(self.key(t.a[2]))
        if t.op in ('elem', 'E'): return self.get(self.key(t))
        raise Unk('list value ' + show(t0)[:60])

    def islist(self, t): return t.op in ('RESZ', 'IOTA', 'app', 'list') or t.op == 'new' and t.a[0].startswith('std::vector') or t.op == 'call' and t.a[0].split('::')[-1] in ('begin', 'end') or t in self.vals and isinstance(self.vals[t], (It, list, range))

    def zero(self, ty): return [] if ty.count('vector<') > 1 else 0

    def isvec(self, ty): return (ty or '').replace('const ', '').startswith(('std::vector', 'tinytorch::SmallVector'))

    def effect(self, e):
        k, fn = e.kind, e.fn
        short = fn.split('::')[-1]
        if k == 'trap': raise Bad('an assertion fails')
        if k == 'return':
            self.ret = e
            if not e.loops: self.result = e.args[0] if e.args else None
            return
        if k == 'div':
            if self.v(e.args[1]) == 0: raise Bad('division by zero')
            return
        if k == 'load':
            if e.objloc is not None:
                try: x = self.get(self.key(e.objloc))
                except Unk: return
                if e.ret is not None: self.vals[bare(e.ret)] = x
            return
        if k in ('init', 'write', 'decl'):
            l = e.objloc
            if l is None or not e.args: return
            t = e.args[0]
            ty = (e.node or {}).get('t', '')
            if t.op == 'new' and 'engine' in t.a[0] or t.op == 'call' and t.a[0].endswith('getGenerator'):
                if k != 'decl' or t.op == 'new':
                    self.eng[self.key(l)] = self.engine(t)
                return
            f = fget(l)
            try: val = self.listof(t, e.node)
            except Unk:
                try: val = self.v(t)
                except Unk: val = None
                if isinstance(val, (list, range)): pass
                else:
                    if f is not None:
                        if val is None: self.obj.s.pop(f, None)
                        else: self.obj.s[f] = val
                    elif k == 'write' and self.key(l)[0] == 'e': self.put(self.key(l), self.v(t))
                    return
            self.put(self.key(l), list(val) if isinstance(val, list) else val)
            return
        if k == 'ctor':
            return
        if k != 'call': return
        if short in ('begin', 'cbegin', 'end', 'cend') and e.objloc is not None:
            kk = self.key(e.objloc)
            try: l = self.get(kk)
            except Unk: return
            if e.ret is not None: self.vals[e.ret] = It(kk, 0 if short.endswith('begin') else len(l))
            return
        if short == 'size' and e.objloc is not None and not e.args and fn.startswith('std::'):
            try: l = self.get(self.key(e.objloc))
            except Unk: return
            if e.ret is not None: self.vals[e.ret] = len(l)
            return
        if short == 'empty' and e.objloc is not None and not e.args and fn.startswith('std::'):
            try: l = self.get(self.key(e.objloc))
            except Unk: return
            if e.ret is not None: self.vals[e.ret] = len(l) == 0
            return
        if fn in self.ext:
            x = self.ext[fn](self, e)
            if e.ret is not None: self.vals[bare(e.ret)] = x
            return
        if short == 'seed' and e.objloc is not None and 'engine' in fn:
            kk = self.key(e.objloc)
            self.eng[kk] = Eng(('seed', self.v(e.args[0])))
            if kk[0] == 'f': self.obj.e[kk[1]] = self.eng[kk]
            return
        if fn.split('<')[0] == 'std::iota':
            kk, i, j = self.span(e.args[0], e.args[1])
            l, v0 = self.get(kk), self.v(e.args[2])
            self.put(kk, range(v0, v0 + len(l)) if (i, j) == (0, len(l)) else list(l[:i]) + list(range(v0, v0 + j - i)) + list(l[j:]))
            return
        if fn.split('<')[0] in ('std::shuffle',):
            kk, i, j = self.span(e.args[0], e.args[1])
            l = list(self.get(kk))
            g = self.engineof(e)
            l[i:j] = shuffled(l[i:j], g)
            self.put(kk, l)
            return
        if fn.split('<')[0] in ('std::reverse', 'std::sort', 'std::rotate', 'std::copy', 'std::copy_n', 'std::fill', 'std::generate', 'std::transform', 'std::sample'): raise Unk(fn)
        if e.objloc is None or not fn.startswith(('std::vector', 'tinytorch::SmallVector')): return
        kk = self.key(e.objloc)
        if short in ('reserve', 'operator[]', 'at', 'data', 'capacity', 'back', 'front', 'shrink_to_fit'): return
        l = self.get(kk)
        if short == 'clear': l = []
        elif short == 'resize':
            n = self.v(e.args[0])
            fill = self.v(e.args[1]) if len(e.args) > 1 else self.zero(fn)
            if not isinstance(n, int) or n < 0: raise Unk('resize')
            l = range(n) if isinstance(l, range) and n <= len(l) and l == range(n) else list(l[:n]) + ([fill] * (n - len(l)) if n > len(l) else [])
        elif short in ('push_back', 'emplace_back') and len(e.args) == 1:
            try: x = self.v(e.args[0])
            except Unk: x = list(self.listof(e.args[0]))
            if isinstance(l, list) and kk[0] != 'e': l.append(x)
            else: l = list(l) + [x]
        elif short == 'pop_back':
            if not len(l): raise Bad('pop_back of an empty list')
            l = list(l[:-1])
        elif short == 'assign' and len(e.args) == 2:
            if self.isit(e.args[0]):
                k2, i, j = self.span(e.args[0], e.args[1])
                l = list(self.get(k2)[i:j])
            else: l = [self.v(e.args[1])] * self.v(e.args[0])
        elif short == 'insert' and len(e.args) == 3:
            p = self.iter(e.args[0])
            k2, i, j = self.span(e.args[1], e.args[2])
            l = list(l)
            l[p.i:p.i] = list(self.get(k2)[i:j])
        elif short == 'erase' and len(e.args) == 2:
            k2, i, j = self.span(e.args[0], e.args[1])
            l = list(l[:i]) + list(l[j:])
        elif short == 'operator=':
            l = list(self.listof(e.args[0], e.node))
        elif short == 'swap': raise Unk(short)
        else: raise Unk('list operation ' + short)
        self.put(kk, l)

    def isit(self, t):
        try:
            self.iter(t)
            return True
        except Unk: return False

    def engine(self, t):
        if t.op == 'new':
            if not t.a[1]: return Eng(('default', t.a[0]))
            x = t.a[1][0]
            return Eng(('seed', self.v(x)))
        return Eng(('shared',))

    def engineof(self, e):
        """the engine a shuffle draws from"""
        l = e.alocs[2] if len(e.alocs) > 2 else None
        if l is not None:
            k = self.key(l)
            if k in self.eng: return self.eng[k]
            if k[0] == 'f' and k[1] in self.obj.e: return self.obj.e[k[1]]
        t = e.args[2]
        m = bare(t)
        if m.op == 'call' and m.a[0].endswith('getGenerator') or any(x.op == 'call' and x.a[0].endswith('getGenerator') for x in subterms(m)): return self.ext.get('generator') or Eng(('shared',))
        if m.op == 'new' and 'engine' in m.a[0]: return self.engine(m)
        if m.op == 'new' and 'random_device' in m.a[0]: raise Unk('random device')
        raise Unk('engine %s' % show(t)[:60])


def refs(n):
    out = []
    if isinstance(n, dict):
        if n.get('k') == 'Ref' and n.get('n'): out.append(n['n'])
        for v in n.values():
            if isinstance(v, (dict, list)): out += refs(v)
    elif isinstance(n, list):
        for v in n: out += refs(v)
    return out


# ---- the checks

def interp(res, rec):
    I = Interp(res.p, policy())
    I.run(rec)
    res.fn(rec)
    return I


class Cls:
    """a class under analysis: constructor and methods pushed through models"""
    def __init__(self, res, name, nargs=1):
        self.res, self.name = res, name
        P = res.p
        short = name.split('::')[-1]
        c = [r for r in P.by_name.get(name + '::' + short, []) if len(r['ps']) >= nargs]
        if len(c) != 1: raise Unk('constructor of ' + name)
        self.ctor = c[0]
        self.I = {}

    def rec(self, m):
        if m is None: return self.ctor
        r = [x for x in self.res.p.by_name.get(self.name + '::' + m, [])]
        if len(r) != 1: raise Unk('%s::%s' % (self.name, m))
        return r[0]

    def call(self, m, args, obj, ext=None):
        r = self.rec(m)
        if m not in self.I: self.I[m] = interp(self.res, r)
        R = Replay(self.I[m], {p['n']: a for p, a in zip(r['ps'], args)}, obj, ext)
        t = R.run()
        return R, t

    def make(self, args, ext=None):
        o = Obj()
        self.call(None, args, o, ext)
        return o

    def value(self, m, args, obj, ext=None):
        """what a method returns"""
        R, t = self.call(m, args, obj, ext)
        if t is None: raise Unk('result of ' + m)
        try: return R.listof(t)
        except Unk: return R.v(t)


def attempt(f):
    """(value, None) or (None, what is undefined)"""
    try: return f(), None
    except Bad as b: return None, str(b)


def ranges(res, P):
    with res.instance('SequentialSampler'):
        C_ = Cls(res, D + 'SequentialSampler')
        for n in (0, 1, 2, 7):
            def one():
                o = C_.make([n])
                return list(C_.value('indices', [], o)), C_.value('size', [], o)
            v, b = attempt(one)
            res.check(b is None and v == (list(range(n)), n), 'SequentialSampler', loc_of(C_.ctor), 'SequentialSampler of %d: %s' % (n, b or 'indices %s, size %s' % v), 'SequentialSampler gives every index in order')
    with res.instance('RandomSampler'):
        C_ = Cls(res, D + 'RandomSampler')
        ext = {'generator': Eng(('shared',))}
        for n in (0, 1, 2, 9):
            for seed in (0, 5):
                def one():
                    o = C_.make([n, seed], ext)
                    a = [list(C_.value('indices', [], o))]
                    for ep in (1, 2, 1, 0):
                        C_.call('setEpoch', [ep], o, ext)
                        a.append(list(C_.value('indices', [], o)))
                    return a + [C_.value('size', [], o)], list(C_.value('indices', [], C_.make([n, seed], ext)))
                v, b = attempt(one)
                if not res.check(b is None, 'RandomSampler/defined', loc_of(C_.ctor), 'RandomSampler of %d: %s' % (n, b), 'RandomSampler defined'): continue
                a, again = v
                res.check(a[5] == n and all(sorted(x) == list(range(n)) for x in a[:5]), 'RandomSampler/permutation', loc_of(C_.ctor), 'RandomSampler of %d gives %s, size %s' % (n, a[:5], a[5]), 'RandomSampler gives permutations')
                if n == 9:
                    res.check(a[0] == a[4] == again and a[1] == a[3], 'RandomSampler/reproducible', loc_of(C_.rec('setEpoch')), 'RandomSampler: the order of an epoch does not depend on seed and epoch alone', 'the order of an epoch is a function of seed and epoch')
                    res.check(a[0] != a[1] and a[1] != a[2], 'RandomSampler/epochs', loc_of(C_.rec('setEpoch')), 'RandomSampler: setEpoch does not change the order', 'epochs differ in order')


def distributed(res, P):
    with res.instance('DistributedSampler'):
        C_ = Cls(res, DIST + 'DistributedSampler')
        for shuffle in (0, 1):
            for drop in (0, 1):
                for n, R in ((0, 2), (1, 1), (6, 3), (7, 3), (8, 3), (2, 5), (1, 4), (5, 1), (9, 2)):
                    for given in (1, 0) if (n, R) == (7, 3) else (1,):
                        for ep in (None, 1):
                            tag = 'DistributedSampler of %d over %d replicas%s%s%s' % (n, R, ', shuffled' if shuffle else '', ', dropLast' if drop else '', '' if ep is None else ', after setEpoch')
                            def one():
                                out = []
                                for rank in range(R):
                                    ext = {DIST + 'DistributedProcessGroup::getInstance': lambda *a: 'dpg', DIST + 'DistributedProcessGroup::getWorldSize': lambda *a: R, DIST + 'DistributedProcessGroup::getRank': lambda *a: rank,
                                           'generator': Eng(('shared', rank))}
                                    o = C_.make([n, Opt(R if given else None), Opt(rank if given else None), shuffle, 3, drop], ext)
                                    if ep is not None: C_.call('setEpoch', [ep], o, ext)
                                    out.append(list(C_.value('indices', [], o)))
                                    if C_.value('size', [], o) != len(out[-1]): return None
                                return out
                            v, b = attempt(one)
                            if not res.check(b is None, 'DistributedSampler/defined', loc_of(C_.rec('generateIndices') if P.by_name.get(C_.name + '::generateIndices') else C_.ctor), '%s: %s' % (tag, b), 'defined'): continue
                            if not res.check(v is not None, 'DistributedSampler/size', loc_of(C_.rec('size')), tag + ': size() is not the number of indices', 'size'): continue
                            lens = [len(x) for x in v]
                            want = n // R if drop else -(-n // R)
                            res.check(all(x == want for x in lens), 'DistributedSampler/equal', loc_of(C_.ctor), '%s: the replicas get %s indices instead of %d each' % (tag, lens, want), 'every replica gets the same number of indices')
                            flat = [x for y in v for x in y]
                            ok = set(flat) <= set(range(n)) and (len(set(flat)) == len(flat) if drop else set(flat) == set(range(n)) and all(abs(flat.count(a) - flat.count(c)) <= 1 for a in set(flat) for c in set(flat)))
                            res.check(ok, 'DistributedSampler/cover', loc_of(C_.ctor), '%s: the indices of the replicas %s do not %s' % (tag, v, 'form a part of the dataset without repetition' if drop else 'cover the dataset'), 'the replicas together cover the dataset')
        # the seed decides the order, the epoch changes it
        def two():
            ext = {DIST + 'DistributedProcessGroup::getInstance': lambda *a: 'dpg', 'generator': Eng(('shared',))}
            o = C_.make([40, Opt(1), Opt(0), 1, 3, 0], ext)
            a = [list(C_.value('indices', [], o))]
            for ep in (1, 2, 1, 0):
                C_.call('setEpoch', [ep], o, ext)
                a.append(list(C_.value('indices', [], o)))
            return a
        a, b = attempt(two)
        if b is None:
            res.check(a[0] == a[4] and a[1] == a[3], 'DistributedSampler/reproducible', loc_of(C_.rec('setEpoch')), 'DistributedSampler: the order of an epoch does not depend on seed and epoch alone', 'the order is a function of seed and epoch')
            res.check(a[0] != a[1] and a[1] != a[2], 'DistributedSampler/epochs', loc_of(C_.rec('setEpoch')), 'DistributedSampler: setEpoch does not change the order', 'epochs differ')
        big = 2 ** 24 + 1
        def large(): return len(C_.value('indices', [], C_.make([big, Opt(1), Opt(0), 0, 0, 0], {DIST + 'DistributedProcessGroup::getInstance': lambda *a: 'dpg'})))
        v, b = attempt(large)
        res.check(b is None and v == big, 'DistributedSampler/large', loc_of(C_.ctor), 'DistributedSampler of %d over 1 replica has %s' % (big, b or '%s indices' % v), 'large datasets')


def loader(res, P):
    with res.instance('DataLoader'):
        C_ = Cls(res, D + 'DataLoader', 3)
        It_ = Cls(res, D + 'DataLoader::Iterator', 2)
        for n, bs, nf in ((0, 2, 2), (1, 1, 2), (1, 4, 1), (6, 3, 2), (7, 3, 2), (8, 3, 3), (5, 5, 2), (4, 1, 2), (5, 2, 1), (4, 2, 4)):
            for samp in (None, [3, 0, 0, 9, 4][:n]):
                for shuffle in (0, 1):
                    for drop in (0, 1):
                        ext = {D + 'Dataset::size': lambda *a: n, D + 'Sampler::indices': lambda *a: list(samp), D + 'Sampler::size': lambda *a: len(samp), 'generator': Eng(('shared',)),
                               D + 'Dataset::getItem': lambda R, e: [('item', R.v((e.args if not isinstance(e, T) else e.a[2])[0]), j) for j in range(nf)],
                               'tinytorch::op::stack': lambda R, e: ('stack', tuple(R.listof((e.args if not isinstance(e, T) else e.a[2])[0])), R.v((e.args if not isinstance(e, T) else e.a[2])[1]))}
                        tag = 'DataLoader of %d items (%d fields) by %d%s%s%s' % (n if samp is None else len(samp), nf, bs, '' if samp is None else ' with a sampler', ', shuffled' if shuffle else '', ', dropLast' if drop else '')
                        def one():
                            o = C_.make(['dataset', bs, None if samp is None else 'sampler', shuffle, drop], ext)
                            size = C_.value('size', [], o)
                            ends = [start(C_, m, o, ext) for m in ('begin', 'end')]
                            out = []
                            it, fld = ends[0]
                            while it.s[fld] != ends[1][0].s[fld]:
                                if len(out) > 20: return size, None
                                if not It_.value('operator!=', [ends[1][0]], it, ext): return size, None
                                out.append(It_.value('operator*', [], it, ext))
                                It_.call('operator++', [], it, ext)
                            if It_.value('operator!=', [ends[1][0]], it, ext): return size, None
                            return size, out
                        v, b = attempt(one)
                        if not res.check(b is None, 'DataLoader/defined', loc_of(C_.ctor), '%s: %s' % (tag, b), 'defined'): continue
                        size, out = v
                        if not res.check(out is not None, 'DataLoader/ends', loc_of(C_.rec('end')), tag + ': iteration does not end after the last batch', 'iteration ends'): continue
                        m = n if samp is None else len(samp)
                        cnt = m // bs if drop else -(-m // bs)
                        res.check(size == cnt == len(out), 'DataLoader/count', loc_of(C_.rec('size')), '%s: size() is %s, %d batches are visited, expected %d' % (tag, size, len(out), cnt), 'the number of batches')
                        res.check([x[0] for x in out] == list(range(len(out))), 'DataLoader/number', loc_of(It_.rec('operator*')), '%s: batches are numbered %s' % (tag, [x[0] for x in out]), 'batches are numbered from 0')
                        seen, ok = [], True
                        for q, (_, batch) in enumerate(out):
                            if not all(isinstance(x, tuple) and x[0] == 'stack' for x in batch): raise Unk('batch ' + str(batch)[:80])
                            ids = [x[1] for x in batch[0][1]] if batch else []
                            ok = ok and len(batch) == nf and all(x[2] == 0 and list(x[1]) == [('item', i, j) for i in ids] for j, x in enumerate(batch))
                            ok = ok and len(ids) == (bs if (q + 1) * bs <= m else m - q * bs)
                            seen += ids
                        res.check(ok, 'DataLoader/batch', loc_of(It_.rec('operator*')), '%s: a batch is not the stack of the fields of its items in order' % tag, 'batches stack the fields of their items')
                        k = min(cnt * bs, m)
                        if samp is not None: good = seen == samp[:k]
                        elif not shuffle: good = seen == list(range(k))
                        else: good = len(set(seen)) == len(seen) == k and set(seen) <= set(range(n))
                        res.check(good, 'DataLoader/indices', loc_of(It_.rec('operator*')), '%s: visits the indices %s' % (tag, seen), 'every index is visited once, in order')
        big = 2 ** 24 + 1
        ext = {D + 'Dataset::size': lambda *a: big}
        for bs in (1, 2):
            v, b = attempt(lambda: C_.value('size', [], C_.make(['dataset', bs, None, 0, 0], ext)))
            res.check(b is None and v == -(-big // bs), 'DataLoader/large', loc_of(C_.ctor), 'DataLoader of %d by %d: %s instead of %d' % (big, bs, b or '%s batches' % v, -(-big // bs)), 'large datasets')


def start(C_, m, o, ext):
    """the iterator begin() or end() gives"""
    R, t = C_.call(m, [], o, ext)
    if t is None or t.op != 'rec': raise Unk(m)
    it, fld = Obj(), None
    for k, v in t.a[1]:
        if bare(v) is mk('D', THIS) or bare(v) is mk('deref', THIS) or bare(v).op == 'this': it.s[k] = o
        else:
            it.s[k] = R.v(v)
            fld = k
    if fld is None: raise Unk(m)
    return it, fld


def transforms(res, P):
    T_ = D + 'transforms::'
    with res.instance('Compose'):
        r = P.by_name[T_ + 'Compose::process'][0]
        I = Interp(P, policy())
        rets = I.run(r)
        res.fn(r)
        cs = [e for e in I.evs if e.kind == 'call' and e.fn == T_ + 'Transform::process']
        if len(cs) != 1 or len(rets) != 1: raise Unk('Compose')
        e = cs[0]
        v = Visit(I, e)
        t = bare(rets[0][1])
        info = I.loopinfo[e.loops[0]]
        p = v.elem(e.objloc) if e.objloc is not None else None
        if t.op != 'hav' or p is None or not e.args: raise Unk('Compose')
        ini, nx = info['init'].get(t.a[2]), info['next'].get(t.a[2])
        ini = bare(ini)
        while ini.op == 'new' and len(ini.a[1]) == 1: ini = bare(ini.a[1][0])
        ok = v.whole and not v.extra and ini is mk('param', 0, r['ps'][0]['n']) and bare(e.args[0]) is t and nx is not None and bare(nx).op == 'call' and bare(nx).a[0] == e.fn
        res.check(ok, 'Compose/process', evloc(e), 'Compose does not apply its transforms one after the other', 'Compose applies its transforms in order')
        for c in P.by_name.get(T_ + 'Compose::Compose', []):
            if not c['ps'] or 'initializer_list' not in c['ps'][0].get('t', 'initializer_list'): continue
            I = interp(res, c)
            es = [e for e in I.evs if e.kind == 'call' and e.loops and e.objloc is not None and fget(e.objloc) and e.fn.split('::')[-1] in ('emplace_back', 'push_back')]
            if len(es) != 1: continue
            v = Visit(I, es[0])
            if v.elem(es[0].args[0]) is None: raise Unk('Compose')
            res.check(bare(v.cont) is mk('param', 0, c['ps'][0]['n']) and v.whole and not v.extra and v.elem(es[0].args[0]) == (), 'Compose/keep', evloc(es[0]), 'Compose does not keep every transform', 'Compose keeps every transform')
    with res.instance('Normalize'):
        c = P.by_name[T_ + 'Normalize::Normalize'][0]
        I = Interp(P, policy())
        rets = I.run(c)
        m = rets[0][0].mem.get(mk('D', THIS))
        fields = dict(m.a[1]) if m is not None and m.op == 'rec' else {}
        r = P.by_name[T_ + 'Normalize::process'][0]
        I = Interp(P, policy())
        rets = I.run(r)
        res.fn(r)
        def val(t, x, mean, std):
            t = bare(t)
            cc = cval(t)
            if cc is not None: return cc
            f = fget(t)
            if f is not None and f in fields:
                t = bare(fields[f])
                if t.op == 'param': return (mean, std)[t.a[0]]
                cc = cval(t)
                if cc is not None: return cc
                return val2(t, mean, std)
            if t.op == 'param': return x
            if t.op == 'rec': return val(dict(t.a[1])['value_'], x, mean, std) if 'value_' in dict(t.a[1]) else unk(t)
            if t.op == 'new' and len(t.a[1]) == 1: return val(t.a[1][0], x, mean, std)
            if t.op == 'call':
                a = ([t.a[1]] if t.a[1] is not None else []) + list(t.a[2])
                o = t.a[0].split('::')[-1]
                o = {'operator-': 'sub', 'operator/': 'div', 'operator*': 'mul', 'operator+': 'add'}.get(o, o)
                if o in ('sub', 'div', 'mul', 'add') and len(a) >= 2 and all(cval(z) == 1 or (z.op == 'rec') for z in a[2:]):
                    y, z = val(a[0], x, mean, std), val(a[1], x, mean, std)
                    return y - z if o == 'sub' else y / z if o == 'div' else y * z if o == 'mul' else y + z
            if t.op in ('+', '-', '*', '/') and len(t.a) == 2:
                y, z = val(t.a[0], x, mean, std), val(t.a[1], x, mean, std)
                return y - z if t.op == '-' else y / z if t.op == '/' else y * z if t.op == '*' else y + z
            if t.op == 'neg': return -val(t.a[0], x, mean, std)
            return unk(t)
        def val2(t, mean, std):
            if t.op == 'param': return (mean, std)[t.a[0]]
            if cval(t) is not None: return cval(t)
            if t.op in ('+', '-', '*', '/') and len(t.a) == 2:
                y, z = val2(bare(t.a[0]), mean, std), val2(bare(t.a[1]), mean, std)
                return y - z if t.op == '-' else y / z if t.op == '/' else y * z if t.op == '*' else y + z
            return unk(t)
        def unk(t): raise Unk('Normalize: ' + show(t)[:60])
        for x, mean, std in ((1.5, .25, 2.), (-3., 4., .5), (0., -1., 8.)):
            y = val(rets[0][1], x, mean, std)
            res.check(abs(y - (x - mean) / std) < 1e-9, 'Normalize', loc_of(r), 'Normalize(%g, %g) maps %g to %g instead of %g' % (mean, std, x, y, (x - mean) / std), 'Normalize')


def mnist(res, P):
    M = D + 'DatasetMNIST'
    with res.instance('MNIST item'):
        r = P.by_name[M + '::getItem'][0]
        I = Interp(P, policy())
        rets = I.run(r)
        res.fn(r)
        idx = mk('param', 0, r['ps'][0]['n'])
        es = {}
        for st, t, *_ in rets:
            for x in subterms(t):
                if x.op in ('elem', 'E') and fget(x.a[0]): es.setdefault(fget(x.a[0]), set()).add(bare(x.a[1]))
        if len(es) < 2: raise Unk('fields of an item')
        for f, i in sorted(es.items()): res.check(i == {idx}, 'MNIST/item', loc_of(r), 'getItem(i) takes %s at %s' % (f, [show(x) for x in i]), 'image and label of the same index')
    with res.instance('MNIST integers'):
        r = P.by_name[M + '::toInt32'][0]
        I = Interp(P, policy())
        rets = I.run(r)
        res.fn(r)
        if len(rets) != 1: raise Unk('toInt32')
        for bs in ((0, 0, 8, 3), (0, 0, 0xea, 0x60), (0, 1, 0x80, 0xff), (0x12, 0x34, 0x56, 0x78), (0, 0xff, 0, 0x80)):
            x = bits(rets[0][1], bs)
            w = struct.unpack('>i', bytes(bs))[0]
            res.check(x == w, 'MNIST/toInt32', loc_of(r), 'the bytes %s are read as %d instead of %d' % (list(bs), x, w), 'big-endian integers')
    with res.instance('MNIST pixels'):
        r = P.by_name[M + '::loadImages'][0]
        I = Interp(P, policy())
        I.run(r)
        res.fn(r)
        es = [e for e in I.evs if e.kind == 'write' and len(e.loops) >= 1 and e.args and e.objloc is not None and e.objloc.op == 'E' and any(x.op == '/' for x in subterms(e.args[0]))]
        if len(es) != 1: raise Unk('pixels')
        for b in (0, 1, 127, 128, 255):
            x = pixel(es[0].args[0], b, I)
            res.check(abs(x - b / 255) < 1e-6, 'MNIST/pixel', evloc(es[0]), 'a pixel of value %d becomes %g' % (b, x), 'pixels are scaled to [0, 1]')


def bits(t, bs):
    t = bare(t)
    c = cval(t)
    if c is not None: return int(c)
    if t.op in ('toint', 'conv', 'wrap'): return bits(t.a[-1] if isinstance(t.a[-1], T) else t.a[0], bs)
    if t.op in ('elem', 'E') and cval(t.a[1]) is not None:
        b = bs[int(cval(t.a[1]))]
        return b - 256 if b > 127 else b
    if t.op in ('|', '&', '<<', '>>', '+', '*', '^') and len(t.a) == 2:
        x, y = bits(t.a[0], bs), bits(t.a[1], bs)
        v = {'|': x | y, '&': x & y, '+': x + y, '*': x * y, '^': x ^ y}.get(t.op)
        if v is None: v = x << y if t.op == '<<' else x >> y
        return (v + 2 ** 31) % 2 ** 32 - 2 ** 31
    raise Unk('bytes: ' + show(t)[:60])


def types(n, out):
    """types of the conversions and of the operand in an expression or declaration"""
    if isinstance(n, dict):
        if n.get('k') in ('Cast', 'ICast', 'Var', 'Sub', 'Ref') and isinstance(n.get('t'), str): out.add(n['t'])
        for k, v in n.items():
            if not (n.get('k') == 'Sub' and k == 'i'): types(v, out)
    elif isinstance(n, list):
        for v in n: types(v, out)


def pixel(t, b, I):
    t = bare(t)
    c = cval(t)
    if c is not None: return c
    if t.op == 'tofloat':
        x = bare(t.a[0])
        if x.op in ('elem', 'E', 'hav') or x.op == 'call':
            tys = set()
            for e in I.evs:
                if e.kind in ('decl', 'int2float') and e.args and e.args[0] is t.a[0]: types(e.node, tys)
            if any('unsigned char' in y or 'uint8_t' in y for y in tys): return float(b)
            if any(y.replace('const ', '').strip() in ('char', 'signed char', 'int8_t') for y in tys): return float(b - 256 if b > 127 else b)
            raise Unk('pixel type')
        if x.op == '&' and cval(x.a[1]) == 255: return float(b)
        raise Unk('pixel ' + show(x)[:60])
    if t.op in ('/', '*', '+', '-') and len(t.a) == 2:
        x, y = pixel(t.a[0], b, I), pixel(t.a[1], b, I)
        return x / y if t.op == '/' else x * y if t.op == '*' else x + y if t.op == '+' else x - y
    raise Unk('pixel ' + show(t)[:60])


def check_data(res):
    P = res.p
    res.rule = 'list effects of samplers and loaders pushed through models of sizes, replicas, epochs and flags; transforms as terms'
    ranges(res, P)
    distributed(res, P)
    loader(res, P)
    transforms(res, P)
    mnist(res, P)
    res.floor('obligations', res.obligations, 100)
