"""Ordering and sampling along a dimension: which elements topk, sort, cumsum and multinomial read, how they are ordered, and where results go.
The address of every read and write is a closed form over the loop counters, extracted from the kernels; the rule compares it with the address of the
element of that line, at a table of extents that separates all polynomials of the occurring degree. Ordering is decided by a typestate of the line buffer
(filled, best k in front, sorted prefix) over the extracted calls of the standard algorithms, the comparator by its truth table."""
from itertools import product
from model import *
from c_module import bare
import alg
from c_bcast import ev, ix, counter, Und

OPAQUE = ('tinytorch::op::', 'tinytorch::Tensor::', 'tinytorch::RandomGenerator', 'tinytorch::Half::', 'tinytorch::BFloat16::')
SHAPES = [((3,), 0), ((4,), 0), ((2, 3), 0), ((2, 3), 1), ((3, 2), -1), ((3, 4), -2), ((2, 3, 4), 0), ((2, 3, 4), 1), ((2, 3, 4), 2), ((3, 5, 2), 1), ((4, 2, 3), -2), ((2, 3, 2, 2), 1), ((2, 2, 3, 2), -2), ((1, 4, 1), 1)]


HALF = ('tinytorch::Half', 'tinytorch::BFloat16')


def widened(t):
    """t without conversions to float"""
    t = bare(t)
    while True:
        if t.op == 'call' and t.a[0].startswith(HALF) and t.a[1] is not None and not t.a[2]: t = bare(t.a[1])
        elif t.op in ('tofloat', 'int2float') and len(t.a) >= 1 and isinstance(t.a[0], T): t = bare(t.a[0])
        else: return t


def offset(t):
    """(array, index) of an element reached by pointer arithmetic"""
    b = ix(t)
    if b is None: return None
    p, k = bare(b[0]), b[1]
    while p.op in ('elem', 'E'): p, k = bare(p.a[0]), binop('+', p.a[1], k)
    return p, k


class World:
    def __init__(self, shape, ps, dim=None, **kw):
        self.shape, self.ps, self.kw = shape, ps, kw
        self.kw['dim'] = dim
        self.d = dim + len(shape) if dim is not None and dim < 0 else dim
        if self.d is not None and 0 <= self.d < len(shape):
            self.n = shape[self.d]
            self.inner = prod(shape[self.d + 1:])
            self.outer = prod(shape[:self.d])

    def show(self):
        return 'shape %s%s' % (list(self.shape), ''.join(', %s=%s' % (k, v) for k, v in self.kw.items() if v is not None))


def prod(l):
    r = 1
    for x in l: r *= x
    return r


class Kern:
    """one kernel instantiation"""
    roles = ()

    def __init__(self, res, rec):
        self.res, self.rec = res, rec
        self.op = rec['fn'].split('::')[-1].replace('OpCpuImpl', '')
        self.I = Interp(res.p, Policy(opaque=lambda r: r['fn'].startswith(OPAQUE)))
        self.rets = self.I.run(rec)
        for u in {e.rec['u'] for e in self.I.evs if e.rec}: res.functions.add(u)
        res.fn(rec)
        self.ps = {p['n']: r for p, r in zip(rec['ps'], self.roles)}
        if len(rec['ps']) != len(self.roles): raise Und('parameters')
        self.self = rec['ps'][0]['n']
        self.conds = {i['cond'] for i in self.I.loopinfo.values() if i['cond'] is not None}
        self.memo = {}
        self.where = loc_of(rec)

    def loopcond(self, g):
        return g.op == 'inrange' or g in self.conds or any(c.op in ('and', 'not') and g in c.a for c in self.conds)

    def is_self(self, t):
        t = bare(t)
        while t.op in ('D', 'deref', 'addr', 'addrof'): t = bare(t.a[0])
        return t.op == 'param' and t.a[1] == self.self

    def src(self, t):
        """address of the element of the input a term reads"""
        b = offset(bare(t))
        if b is None: return None
        p = bare(b[0])
        while p.op in ('D', 'deref', 'addr', 'mutd'): p = bare(p.a[0])
        if p.op == 'call' and p.a[0].split('::')[-1].startswith('dataPtr') and p.a[1] is not None and self.is_self(p.a[1]): return b[1]
        return None

    def dst(self, l):
        """(tensor, address) of an element of a tensor a location names"""
        b = offset(l)
        if b is None: return None
        p = bare(b[0])
        while p.op in ('D', 'deref', 'addr', 'mutd'): p = bare(p.a[0])
        if p.op == 'call' and p.a[0].split('::')[-1].startswith('dataPtr') and p.a[1] is not None:
            t = bare(p.a[1])
            while t.op in ('D', 'deref', 'addr', 'addrof'): t = bare(t.a[0])
            return t, b[1]
        return None

    # -- values
    def val(self, t, w, act, elem=None):
        """value of a term: w world, act: iteration number of every enclosing loop"""
        key = (t, w, tuple(sorted(act.items())), elem)
        if key in self.memo: return self.memo[key]

        def env(x):
            x0 = x
            x = bare(x)
            if elem is not None:
                if x is not x0 and x0.op in ('mut', 'mutd'): raise Und('value changed through a reference')
                v = elem(x, act)
                if v is not None: return v
            if x.op == 'param':
                r = self.ps.get(x.a[1])
                if r is None or w.kw.get(r) is None: raise Und('parameter ' + show(x))
                return w.kw[r]
            if x.op == 'call' and x.a[1] is not None and self.is_self(x.a[1]):
                f = x.a[0].split('::')[-1]
                if f == 'dim': return len(w.shape)
                if f in ('numel', 'size') and not x.a[2]: return prod(w.shape)
                if f in ('shape', 'size') and len(x.a[2]) == 1:
                    d = self.val(x.a[2][0], w, act, elem)
                    if not -len(w.shape) <= d < len(w.shape): raise Und('dimension %d' % d)
                    return w.shape[d]
            if x.op == 'hav' and len(x.a) == 3: return self.hav(x, w, act, elem)
            if x.op == 'elem' and self.aslist(x.a[0]):
                l = self.lst(x.a[0], w, act)
                k = self.val(x.a[1], w, act, elem)
                if not 0 <= k < len(l): raise Und('index %d' % k)
                return l[k]
            y = widened(x)
            if y is not x0: return self.val(y, w, act, elem)
            if x.op == 'new' and x.a[0] in HALF and len(x.a[1]) == 1: return self.val(x.a[1][0], w, act, elem)
            if x.op == 'call' and x.a[0] == 'tinytorch::operator+' and len(x.a[2]) == 2: return self.val(x.a[2][0], w, act, elem) + self.val(x.a[2][1], w, act, elem)
            return None
        v = ev(t, env)
        if isinstance(v, float) and v == int(v): v = int(v)
        self.memo[key] = v
        return v

    def aslist(self, t):
        t = bare(t)
        return t.op in ('st', 'list') or t.op == 'call' and t.a[0].split('::')[-1] == 'shape' and t.a[1] is not None and not t.a[2] or t.op == 'new' and ('Vector' in t.a[0] or 'ArrayView' in t.a[0])

    def lst(self, t, w, act):
        t = bare(t)
        if t.op == 'phi': return self.lst(t.a[1] if self.val(t.a[0], w, act) else t.a[2], w, act)
        if t.op == 'list': return [self.val(x, w, act) for x in t.a[0]]
        if t.op == 'st':
            l = list(self.lst(t.a[0], w, act))
            k = self.val(t.a[1], w, act)
            if not 0 <= k < len(l): raise Und('index %d' % k)
            l[k] = self.val(t.a[2], w, act)
            return l
        if t.op == 'call' and t.a[0].split('::')[-1] == 'shape' and t.a[1] is not None and not t.a[2] and self.is_self(t.a[1]): return list(w.shape)
        if t.op == 'new' and len(t.a[1]) >= 1 and ('Vector' in t.a[0] or 'vector' in t.a[0] or 'ArrayView' in t.a[0]): return self.lst(t.a[1][0], w, act)
        if t.op == 'call' and t.a[0].split('::')[-1] in ('view', 'operator ArrayView') and t.a[1] is not None: return self.lst(t.a[1], w, act)
        raise Und('shape ' + show(t)[:80])

    def trip(self, lid, w, act, elem=None):
        h, d, a, n = counter(self.I, lid)
        x = self.val(a, w, act, elem)
        if d == 'up': return h, d, x, max(0, self.val(n, w, act, elem) - x)
        return h, d, x, x + 1

    def hav(self, h, w, act, elem):
        lid = h.a[0]
        if lid not in self.I.loopinfo: raise Und('loop')
        i = self.I.loopinfo[lid]
        if h.a[2] not in i['init'] or h.a[2] not in i['next']: raise Und('loop value ' + show(h)[:60])
        if i.get('brks'): raise Und('left early')
        out = {k: v for k, v in act.items() if k != lid}
        c, d, a, n = self.trip(lid, w, out, elem)
        it = act[lid] if lid in act else n
        if c is h: return a + it if d == 'up' else a - it
        if it > 64: raise Und('long loop')
        x = self.val(i['init'][h.a[2]], w, out, elem)
        nx = i['next'][h.a[2]]
        for k in range(it):
            cur = dict(out)
            cur[lid] = k
            x = self.step(nx, h, x, w, cur, elem)
        return x

    def step(self, nx, h, x, w, cur, elem):
        def env(t):
            if t is h: return x
            if h not in subterms(t): return self.val(t, w, cur, elem)
            y = t if t.op in ('mut', 'mutd') else widened(t)
            if y is not t: return ev(y, env)
            if t.op == 'new' and t.a[0] in HALF and len(t.a[1]) == 1: return ev(t.a[1][0], env)
            return None
        return ev(nx, env)

    def truth(self, gl, w, act):
        for g, p in gl:
            if self.loopcond(g): continue
            if bool(self.val(g, w, act)) != p: return False
        return True

    def spans(self, loops, w, act=None):
        """every combination of iterations of a nest of loops"""
        act = dict(act or {})
        rest = [l for l in loops if l not in act]
        if not rest:
            yield act
            return
        _, _, _, n = self.trip(rest[0], w, act)
        if n > 400: raise Und('long loop')
        for k in range(n):
            yield from self.spans(loops, w, dict(act, **{rest[0]: k}))

    def writes(self):
        return [e for e in self.I.evs if e.kind == 'write' and e.objloc.op in ('E', 'F', 'D')]

    # -- results
    def created(self, t):
        """(shape term, options term) of a tensor made by this kernel"""
        t = bare(t)
        if t.op == 'call' and t.a[0] == 'tinytorch::Tensor::empty' and len(t.a[2]) == 2: return t.a[2]
        raise Und('result ' + show(t)[:60])

    def options(self, t):
        d = {}
        t = bare(t)
        while t.op == 'rec':
            for k, v in t.a[1]: d.setdefault(k, v)
            t = bare(t.a[0])
        if not (t.op == 'call' and t.a[0].split('::')[-1] == 'options' and t.a[1] is not None and self.is_self(t.a[1])): raise Und('options ' + show(t)[:60])
        return d

    def dtypes(self, t, what, index):
        o = self.options(self.created(t)[1])
        dt = o.get('dtype_')
        if index:
            self.res.check(dt is not None and dt.op == 'enum' and dt.a[0].endswith('::Int64'), self.op + '/indextype', self.where, '%s: the %s are not of the index type' % (self.op, what), 'index results are Int64')
        else:
            self.res.check(dt is None, self.op + '/type', self.where, '%s: the %s get data type %s' % (self.op, what, show(dt) if dt is not None else ''), 'values keep the data type of the input')
        g = o.get('requiresGrad_')
        self.res.check(g is not None and cval(g) == 0, self.op + '/grad', self.where, '%s: the %s inherit requiresGrad from the input' % (self.op, what), 'results do not require gradients')

    def shapes(self, t, what, want, worlds):
        s = self.created(t)[0]
        for w in worlds:
            got = self.lst(s, w, {})
            if not self.res.check(got == want(w), self.op + '/shape', self.where, '%s of %s: the %s have shape %s, not %s' % (self.op, w.show(), what, got, want(w)), 'shape of the result'): return

    def refusals(self, worlds):
        """worlds: (world, whether it must be refused)"""
        traps = [e for e in self.I.evs if e.kind == 'trap']
        for w, bad in worlds:
            hit = False
            for e in traps:
                if e.loops: continue
                if self.truth(e.gl, w, {}): hit = True
            if not self.res.check(hit == bad, self.op + '/refuse', self.where, '%s of %s is %s' % (self.op, w.show(), 'not refused' if bad else 'refused'), 'arguments out of range are refused, arguments in range are not'): return

    def pair(self):
        out = []
        for st, t, *_ in self.rets:
            if t is None: continue
            t = bare(t)
            if not (t.op == 'new' and 'pair' in t.a[0] and len(t.a[1]) == 2) and not (t.op == 'list' and len(t.a[0]) == 2): raise Und('result')
            out.append(tuple(bare(x) for x in (t.a[1] if t.op == 'new' else t.a[0])))
        if len(set(out)) != 1: raise Und('%d results' % len(set(out)))
        return out[0]

    # -- line buffers
    def buffer_of(self, t):
        t = bare(t)
        if t.op == 'hav' and isinstance(t.a[2], T): return t.a[2]
        return None

    def iter(self, t, locs, w, act, n):
        """(buffer, position) of an iterator"""
        t = bare(t)
        if t.op == 'call':
            f = t.a[0].split('::')[-1]
            if f in ('begin', 'cbegin', 'end', 'cend') and (t.a[1] is not None or len(t.a[2]) == 1):
                b = locs(t)
                if b is None: raise Und('iterator')
                return b, 0 if f.endswith('begin') else n
            if f in ('operator+', 'operator-') and t.a[1] is not None and len(t.a[2]) == 1:
                b, p = self.iter(t.a[1], locs, w, act, n)
                k = self.val(t.a[2][0], w, act)
                return b, p + k if f == 'operator+' else p - k
            if t.a[0].split('<')[0] == 'std::next' and 1 <= len(t.a[2]) <= 2:
                b, p = self.iter(t.a[2][0], locs, w, act, n)
                return b, p + (self.val(t.a[2][1], w, act) if len(t.a[2]) == 2 else 1)
        raise Und('iterator ' + show(t)[:80])

    def locs(self, t):
        """buffer whose begin()/end() a term is"""
        s = {e.objloc for e in self.I.evs if e.kind == 'call' and e.ret is t and e.objloc is not None}
        if len(s) == 1: return s.pop()
        return self.buffer_of(t.a[1]) if t.a[1] is not None else None


class Order(Kern):
    """topk and sort: buffers of (value, index) pairs ordered by the standard algorithms"""

    def components(self, e):
        """[(buffer, position term, which, value)] of a write"""
        l, v = e.objloc, bare(e.args[0])
        if l.op == 'F' and l.a[1] in ('first', 'second') and l.a[0].op == 'E': return [(l.a[0].a[0], l.a[0].a[1], l.a[1], v)]
        b = ix(l)
        if b is None: return []
        if v.op == 'new' and 'pair' in v.a[0] and len(v.a[1]) == 2: c = v.a[1]
        elif v.op == 'list' and len(v.a[0]) == 2: c = v.a[0]
        elif v.op == 'call' and v.a[0].split('<')[0] == 'std::make_pair' and len(v.a[2]) == 2: c = v.a[2]
        else: return []
        return [(b[0], b[1], 'first', c[0]), (b[0], b[1], 'second', c[1])]

    def fills(self):
        out = []
        for e in self.I.evs:
            if e.kind == 'write' and e.objloc.op in ('E', 'F'):
                out += [(e,) + c for c in self.components(e) if c[0].op == 'V']
            elif e.kind in ('call', 'icall', 'load') and e.fn.split('::')[-1] in ('push_back', 'emplace_back') and e.objloc is not None and e.objloc.op == 'V' and e.loops:
                a = e.args
                if len(a) == 1:
                    v = bare(a[0])
                    a = v.a[1] if v.op == 'new' and 'pair' in v.a[0] else v.a[0] if v.op == 'list' else v.a[2] if v.op == 'call' and v.a[0].split('<')[0] == 'std::make_pair' else ()
                if len(a) == 2: out += [(e, e.objloc, None, 'first', a[0]), (e, e.objloc, None, 'second', a[1])]
        return out

    def better(self, cmp, w):
        """truth table of a comparator: 'desc', 'asc' or a complaint"""
        cmp = bare(cmp)
        if cmp.op == 'new' and len(cmp.a[1]) == 1: cmp = bare(cmp.a[1][0])
        if cmp.op == 'phi': return self.better(cmp.a[1] if self.val(cmp.a[0], w, {}) else cmp.a[2], w)
        key = ('cmp', cmp)
        if key in self.memo: return self.memo[key]
        if cmp.op != 'lam': raise Und('comparator ' + show(cmp)[:60])
        a, b = mk('param', 100, '#a'), mk('param', 101, '#b')
        n = len(self.I.evs)
        t = self.I.apply(cmp, [a, b])
        del self.I.evs[n:]
        caps = {}

        def at(x, y):
            def env(q):
                q = bare(q)
                if widened(q) is not q: return ev(widened(q), env)
                if q.op == 'call' and q.a[0].split('::')[-1] in ('operator<', 'operator>', 'operator<=', 'operator>='):
                    s = ([q.a[1]] if q.a[1] is not None else []) + list(q.a[2])
                    if len(s) == 2:
                        u, v = ev(s[0], env), ev(s[1], env)
                        o = q.a[0].split('operator')[-1]
                        return {'<': u < v, '>': u > v, '<=': u <= v, '>=': u >= v}[o]
                f = alg.stdfn(q)
                if f in ('abs', 'fabs') and len(alg.fargs(q)) == 1: return abs(ev(alg.fargs(q)[0], env))
                if q.op in ('F', 'fld') and q.a[1] in ('first', 'second'):
                    p = bare(q.a[0])
                    while p.op in ('D', 'deref', 'addrof', 'addr'): p = bare(p.a[0])
                    if p is a: return x[q.a[1] == 'second']
                    if p is b: return y[q.a[1] == 'second']
                if q.op == 'param' and q.a[1] in self.ps: return w.kw.get(self.ps[q.a[1]])
                return None
            return bool(ev(t, env))
        dirs = set()
        r = None
        for x, y in product(((1, 0), (2, 0), (2, 1), (3, 2), (-1, 3), (-4, 4), (300, 5), (0.5, 6)), repeat=2):
            v = at(x, y)
            if x[0] == y[0]:
                if v and at(y, x): r = 'not a strict order: elements of equal value precede each other'
            else: dirs.add('desc' if v == (x[0] > y[0]) else 'asc')
        if r is None: r = dirs.pop() if len(dirs) == 1 else 'not an order of the values'
        if self.val_free(t): self.memo[key] = r
        return r

    def val_free(self, t):
        return not any(x.op == 'param' and x.a[1] in self.ps for x in subterms(t))

    def arrange(self, buf, outer, w, first, last):
        """typestate of the buffer after the algorithm calls between filling and reading: (best, sorted, direction)"""
        best = srt = 0
        placed = None
        res, op = self.res, self.op
        want = 'desc' if w.kw.get('largest', w.kw.get('descending')) else 'asc'
        for e in self.I.evs:
            if e.kind != 'call' or not e.fn.startswith('std::') or not first < e.seq < last: continue
            f = e.fn.split('<')[0].split('::')[-1]
            if f not in ('sort', 'stable_sort', 'partial_sort', 'nth_element', 'reverse', 'make_heap', 'sort_heap', 'rotate', 'swap', 'iter_swap', 'shuffle', 'partition', 'stable_partition', 'push_heap', 'pop_heap'): continue
            act = {l: 0 for l in outer}
            if not self.truth(e.gl, w, act): continue
            if e.loops != outer or f not in ('sort', 'stable_sort', 'partial_sort', 'nth_element'): raise Und('call of ' + f)
            its = [self.iter(a, self.locs, w, act, w.n) for a in e.args[:3 if f in ('partial_sort', 'nth_element') else 2]]
            if any(b is not buf for b, _ in its): continue
            p = [x for _, x in its]
            if len(e.args) != len(p) + 1:
                d = 'asc?'
                raise Und('default order')
            d = self.better(e.args[len(p)], w)
            if not res.check(d == want, op + '/order', loc_of(self.rec, e.line()), '%s of %s: %s orders %s' % (op, w.show(), f, {'asc': 'the smallest first', 'desc': 'the largest first'}.get(d, d)), 'largest/descending: largest first, otherwise smallest first'): return None
            if p[0] != 0: raise Und('range from %d' % p[0])
            if p[-1] > w.n or p[len(p) // 2 if len(p) == 3 else 1] > w.n:
                res.bad(op + '/range', loc_of(self.rec, e.line()), '%s of %s: %s runs over %d of %d elements' % (op, w.show(), f, p[-1], w.n))
                return None
            if f in ('sort', 'stable_sort'):
                if p[1] == w.n: best = srt = w.n
                elif p[1] <= best: srt = max(srt, p[1] + (1 if placed == p[1] else 0))
            elif f == 'partial_sort':
                if p[2] == w.n: best = srt = max(p[1], best if srt >= best else p[1])
            elif p[2] == w.n:
                
                best, srt, placed = max(p[1], min(p[1] + 1, w.n)), 0, p[1]
        return best, srt

    def check(self):
        I, res, op = self.I, self.res, self.op
        worlds = self.worlds()
        vals, idxs = self.pair()
        self.dtypes(vals, 'values', False)
        self.dtypes(idxs, 'indices', True)
        self.shapes(vals, 'values', self.outshape, worlds)
        self.shapes(idxs, 'indices', self.outshape, worlds)
        self.refusals(self.limits())
        fills = self.fills()
        stores = [(e,) + self.dst(e.objloc) for e in self.writes() if e.objloc.op == 'E' and self.dst(e.objloc)]
        if not fills or not stores: raise Und('structure')
        bufs = {c[1] for c in fills}
        if len(bufs) != 1: raise Und('%d buffers' % len(bufs))
        buf = bufs.pop()
        fl = {c[0].loops for c in fills}
        sl = {s[0].loops for s in stores}
        if len(fl) != 1 or len(sl) != 1: raise Und('loops')
        fl, sl = fl.pop(), sl.pop()
        outer = fl[:-1]
        if sl[:-1] != outer or not outer: raise Und('loops')
        first, last = max(c[0].seq for c in fills), min(s[0].seq for s in stores)
        for w in worlds + self.long():
            st = self.arrange(buf, outer, w, first, last)
            if st is None: return
            best, srt = st
            k = self.kept(w)
            if not res.check(best >= k or k == w.n, op + '/best', self.where, '%s of %s: the first %d elements of a line are not the best %d of all %d' % (op, w.show(), k, k, w.n), 'the kept prefix holds the best elements of the whole line'): return
            if self.needsorted(w) and not res.check(srt >= k, op + '/sorted', self.where, '%s of %s: only the first %d of %d results are in order' % (op, w.show(), srt, k), 'the results are in order'): return
            if w.n > 8: continue
            lines = {}
            for act in self.spans(outer, w):
                if not all(self.truth(c[0].gl, w, dict(act, **{fl[-1]: 0})) for c in fills): raise Und('conditional line')
                first_, second_ = {}, {}
                for act2 in self.spans(fl, w, act):
                    for e, b, pos, which, v in fills:
                        p = act2[fl[-1]] if pos is None else self.val(pos, w, act2)
                        if which == 'first':
                            s = self.src(v)
                            if s is None: raise Und('element ' + show(v)[:60])
                            first_[p] = self.val(s, w, act2)
                        else: second_[p] = self.val(v, w, act2)
                if set(first_) != set(second_) or set(first_) != set(range(w.n)):
                    res.bad(op + '/fill', self.where, '%s of %s: positions %s of the %d of a line are filled' % (op, w.show(), sorted(first_), w.n))
                    return
                a0 = min(first_.values())
                o, i_ = a0 // (w.n * w.inner), a0 % w.inner
                want = {o * w.n * w.inner + j * w.inner + i_ for j in range(w.n)}
                if not res.check(set(first_.values()) == want, op + '/read', self.where, '%s of %s: elements %s are ordered together, they are no line along the dimension' % (op, w.show(), sorted(first_.values())[:8]), 'one line along the dimension at a time'): return
                if not res.check(all((first_[p] // w.inner) % w.n == second_[p] for p in first_), op + '/index', self.where, '%s of %s: elements at coordinates %s carry indices %s' % (op, w.show(), [(first_[p] // w.inner) % w.n for p in sorted(first_)], [second_[p] for p in sorted(second_)]), 'every value carries its coordinate'): return
                if not res.check((o, i_) not in lines, op + '/lines', self.where, '%s of %s: the line of element %d is processed twice' % (op, w.show(), a0), 'every line once'): return
                lines[o, i_] = 1
                got = {0: {}, 1: {}}
                for act2 in self.spans(sl, w, act):
                    for e, t, addr in stores:
                        if not self.truth(e.gl, w, act2): continue
                        which = 0 if t is vals else 1 if t is idxs else None
                        if which is None: raise Und('destination')
                        f = bare(e.args[0])
                        if not (f.op in ('fld', 'F') and f.a[1] in ('first', 'second')): raise Und('stored value ' + show(f)[:60])
                        b = ix(bare(f.a[0]))
                        if b is None or self.buffer_of(b[0]) is not buf: raise Und('stored element')
                        if not res.check((f.a[1] == 'second') == (which == 1), op + '/component', loc_of(self.rec, e.line()), '%s: the %s of a pair is stored to the %s' % (op, f.a[1], ('values', 'indices')[which]), 'values to values, indices to indices'): return
                        got[which][self.val(addr, w, act2)] = self.val(b[1], w, act2)
                for which in (0, 1):
                    wantw = {(o * k + j) * w.inner + i_: j for j in range(k)}
                    if not res.check(got[which] == wantw, op + '/store', self.where, '%s of %s: line (%d, %d): %s are stored at %s, expected %s' % (op, w.show(), o, i_, ('values', 'indices')[which], dict(sorted(got[which].items())), wantw), 'result j of a line is element j of that line in the result'): return
            if not res.check(len(lines) == w.outer * w.inner, op + '/lines', self.where, '%s of %s: %d of %d lines are processed' % (op, w.show(), len(lines), w.outer * w.inner), 'every line once'): return

    def needsorted(self, w): return True

    def limit(self):
        """line lengths around every constant the kernel compares or computes with"""
        cs = {1}
        for e in self.I.evs:
            for t in [a for a in e.args] + [g for g, _ in e.gl]:
                for x in subterms(t):
                    c = cval(x)
                    if isinstance(c, int) and 5 < c < 10 ** 6: cs.add(c)
        return sorted({n for c in cs for n in (c + 1, 2 * c + 3)} | {40, 1000})


class TopK(Order):
    roles = ('self', 'k', 'dim', 'largest', 'sorted')

    def worlds(self):
        return [World(s, self.ps, d, k=k, largest=l, sorted=o) for s, d in SHAPES for k in sorted({1, 2, s[d]}) if k <= s[d] for l in (0, 1) for o in (0, 1)]

    def long(self):
        return [World((2, n, 2), self.ps, 1, k=k, largest=1, sorted=o) for n in self.limit() for k in sorted({1, max(1, n // 3), max(1, n - 1), n}) for o in (0, 1)]

    def outshape(self, w):
        s = list(w.shape)
        s[w.d] = w.kw['k']
        return s

    def kept(self, w): return w.kw['k']

    def needsorted(self, w): return bool(w.kw['sorted'])

    def limits(self):
        out = []
        for s in ((3,), (2, 4), (3, 2, 4)):
            for d in range(-len(s) - 1, len(s) + 1):
                ok = -len(s) <= d < len(s)
                for k in (range(-1, s[d] + 2) if ok else (1,)): out.append((World(s, self.ps, d, k=k, largest=1, sorted=1), not (ok and 1 <= k <= s[d])))
        return out


class Sort(Order):
    roles = ('self', 'dim', 'descending')

    def worlds(self):
        return [World(s, self.ps, d, descending=l) for s, d in SHAPES for l in (0, 1)]

    def long(self): return [World((2, n, 2), self.ps, 1, descending=1) for n in self.limit()]

    def outshape(self, w): return list(w.shape)

    def kept(self, w): return w.n

    def limits(self):
        return dimlimits(self, descending=0)


def dimlimits(k, **kw):
    return [(World(s, k.ps, d, **kw), not -len(s) <= d < len(s)) for s in ((3,), (2, 4), (3, 2, 4)) for d in range(-len(s) - 1, len(s) + 1)]


class CumSum(Kern):
    roles = ('self', 'dim')

    def check(self):
        res, op = self.res, self.op
        ts = {bare(t) for st, t, *_ in self.rets if t is not None}
        if len(ts) != 1: raise Und('result')
        out = ts.pop()
        worlds = [World(s, self.ps, d) for s, d in SHAPES]
        self.dtypes(out, 'sums', False)
        self.shapes(out, 'sums', lambda w: list(w.shape), worlds)
        self.refusals(dimlimits(self))
        stores = [(e,) + self.dst(e.objloc) for e in self.writes() if e.objloc.op == 'E' and self.dst(e.objloc)]
        if not stores: raise Und('structure')
        for w in worlds:
            def elem(x, act):
                s = self.src(x)
                if s is None: return None
                a = self.val(s, w, act)
                if not 0 <= a < prod(w.shape): return 10 ** 40
                return 10 ** a
            got = {}
            for e, t, addr in stores:
                if t is not out: raise Und('destination')
                for act in self.spans(e.loops, w):
                    if not self.truth(e.gl, w, act): continue
                    a = self.val(addr, w, act)
                    if not res.check(a not in got, op + '/once', loc_of(self.rec, e.line()), '%s of %s: element %d is written twice' % (op, w.show(), a), 'every element once'): return
                    got[a] = self.val(e.args[0], w, act, elem)
            for a in range(prod(w.shape)):
                j = (a // w.inner) % w.n
                want = sum(10 ** (a - (j - q) * w.inner) for q in range(j + 1))
                if a not in got:
                    res.bad(op + '/all', self.where, '%s of %s: element %d is not written' % (op, w.show(), a))
                    return
                if got[a] != want:
                    g = got[a]
                    res.bad(op + '/sum', self.where, '%s of %s: element %d is the sum of elements %s, expected %s' % (op, w.show(), a, self.digits(g), self.digits(want)))
                    return
                res.ok('every element is the sum of its line up to itself')

    def digits(self, v):
        if not isinstance(v, int): return str(v)
        return ['%d%s' % (i, '' if c == '1' else ' x%s' % c) for i, c in enumerate(reversed(str(v))) if c != '0'][:8]


class Multi(Kern):
    roles = ('self', 'S', 'replacement')

    def check(self):
        res, op, I = self.res, self.op, self.I
        worlds = [World(s, self.ps, None, S=k, replacement=r) for s in ((3,), (5,), (1, 4), (2, 3), (3, 2)) for k in (1, 2, 4) for r in (0, 1)]
        ts = {bare(t) for st, t, *_ in self.rets if t is not None}
        if len(ts) != 1: raise Und('result')
        out = ts.pop()
        self.dtypes(out, 'draws', True)
        self.shapes(out, 'draws', lambda w: list(w.shape[:-1]) + [w.kw['S']], worlds)
        self.refusals([(World(s, self.ps, None, S=1, replacement=1), len(s) > 2) for s in ((3,), (2, 3), (2, 3, 2), (1, 2, 3, 4))])
        calls = {}
        for e in I.evs:
            if e.kind == 'call' and e.fn.startswith('std::'): calls.setdefault(e.fn.split('<')[0].split('::')[-1], []).append(e)
        ps, ub, lb = calls.get('partial_sum', []), calls.get('upper_bound', []), calls.get('lower_bound', [])
        for e in I.evs:
            if e.kind == 'ctor' and e.fn.startswith('std::uniform_real_distribution') and len(e.args) == 2:
                lo, hi = (cval(bare(a)) for a in e.args)
                if lo is not None and hi is not None: res.check(lo == 0 and hi == 1, op + '/uniform', loc_of(self.rec, e.line()), 'draws are uniform on [%s, %s)' % (lo, hi), 'draws are uniform on [0, 1)')
        if lb and not ub:
            res.bad(op + '/bound', loc_of(self.rec, lb[0].line()), 'the first index whose cumulative weight is not below the draw is taken: a draw of exactly 0 picks a leading index of weight zero')
            return
        if len(ps) != 1 or len(ub) != 1 or len(ps[0].args) != 3 or len(ub[0].args) != 3: raise Und('structure')
        ps, ub = ps[0], ub[0]
        stores = [(e,) + self.dst(e.objloc) for e in self.writes() if e.objloc.op == 'E' and self.dst(e.objloc)]
        loops = ub.loops
        if not stores or len(loops) != 2 or any(e.loops != loops for e, *_ in stores): raise Und('structure')
        act0 = {l: 0 for l in loops}
        w0 = worlds[-1]
        P, C = self.iter(ps.args[0], self.locs, w0, act0, w0.shape[-1])[0], self.iter(ps.args[2], self.locs, w0, act0, w0.shape[-1])[0]
        zeros = [e for e in self.writes() if e.objloc.op == 'E' and e.objloc.a[0] is P and e.loops == loops]
        fills = [e for e in self.writes() if e.objloc.op == 'E' and e.objloc.a[0] is P and e not in zeros]
        if not fills or any(e.loops[:1] != loops[:1] or len(e.loops) != 2 or e.seq > ps.seq for e in fills): raise Und('weights')
        drawn = {bare(e.args[0]) for e, *_ in stores}
        if len(drawn) != 1: raise Und('stored value')
        drawn = drawn.pop()
        self.index(drawn, ub, C, w0, act0)
        for w in worlds:
            n, b = w.shape[-1], prod(w.shape[:-1])
            its = [self.iter(a, self.locs, w, act0, n) for a in ps.args]
            if not res.check([p for _, p in its] == [0, n, 0] and its[0][0] is its[1][0], op + '/cdf', loc_of(self.rec, ps.line()), '%s of %s: cumulative weights over [%d, %d) of %d' % (op, w.show(), its[0][1], its[1][1], n), 'cumulative weights of the whole row'): return
            its = [self.iter(a, self.locs, w, act0, n) for a in ub.args[:2]]
            if any(x is not C for x, _ in its): raise Und('searched range')
            if not res.check(its[0][1] == 0 and its[1][1] in (n, n - 1), op + '/search', loc_of(self.rec, ub.line()), '%s of %s: the draw is searched in [%d, %d) of %d' % (op, w.show(), its[0][1], its[1][1], n), 'the draw is searched in the whole row'): return
            if not w.kw['replacement']: res.check(ps.loops == loops, op + '/stale', loc_of(self.rec, ps.line()), 'without replacement the cumulative weights are not recomputed after a draw', 'cumulative weights follow the removal')
            elif ps.loops not in (loops, loops[:1]): raise Und('cumulative weights')
            self.scale(ub.args[2], C, w, act0, loops)
            hit = [e for e in zeros if self.truth([g for g in e.gl if not self.weight(g[0])], w, act0)]
            for e in zeros:
                if not res.check(cval(bare(e.args[0])) == 0, op + '/remove', loc_of(self.rec, e.line()), 'the weight of a drawn index becomes %s' % show(e.args[0])[:40], 'a drawn index gets weight zero'): return
                if bare(e.objloc.a[1]) is not drawn: raise Und('removed index')
            if not res.check(bool(hit) == (not w.kw['replacement']), op + '/replacement', self.where, '%s of %s: the weight of a drawn index is %s' % (op, w.show(), 'removed' if hit else 'kept'), 'drawn indices are removed exactly without replacement'): return
            got = {}
            for e, t, addr in stores:
                if t is not out: raise Und('destination')
                for act in self.spans(loops, w):
                    if not self.truth([g for g in e.gl if not self.weight(g[0])], w, act): continue
                    got[self.val(addr, w, act)] = act[loops[0]], act[loops[1]]
            S = w.kw['S']
            want = {i * S + j: (i, j) for i in range(b) for j in range(S)}
            if not res.check(got == want, op + '/store', self.where, '%s of %s: draws (row, number) are stored as %s' % (op, w.show(), got), 'draw s of row b at b*S+s'): return
            for act in self.spans(loops[:1], w):
                row = {}
                for e in fills:
                    for act2 in self.spans(e.loops, w, act):
                        if not self.truth(e.gl, w, act2): continue
                        s = self.src(widened(e.args[0]))
                        if s is None: raise Und('weight ' + show(e.args[0])[:60])
                        row[self.val(e.objloc.a[1], w, act2)] = self.val(s, w, act2)
                want = {i: act[loops[0]] * n + i for i in range(n)}
                if not res.check(row == want, op + '/weights', self.where, '%s of %s: row %d uses weights %s' % (op, w.show(), act[loops[0]], row), 'row b uses its own weights'): return

    def weight(self, g):
        """a condition on the weights themselves"""
        return any(x.op == 'last' or x.op in ('elem',) and self.src(x) is None and not self.aslist(x.a[0]) for x in subterms(g))

    def index(self, t, ub, C, w, act):
        t = bare(t)
        if t.op == 'call' and t.a[0].split('<')[0] == 'std::distance' and len(t.a[2]) == 2: a, b = t.a[2]
        elif t.op == 'call' and t.a[0].split('::')[-1] == 'operator-' and (t.a[1] is not None or len(t.a[2]) == 2):
            b, a = (t.a[1], t.a[2][0]) if t.a[1] is not None else t.a[2]
        elif t.op == '-' and len(t.a) == 2: b, a = t.a
        else: raise Und('index ' + show(t)[:60])
        if bare(b) is not bare(ub.ret): raise Und('index of another position')
        x, p = self.iter(a, self.locs, w, act, w.shape[-1])
        if x is not C: raise Und('index in another buffer')
        self.res.check(p == 0, self.op + '/position', loc_of(self.rec, ub.line()), 'the drawn index is counted from position %d' % p, 'the drawn index is the distance from the start')

    def scale(self, t, C, w, act, loops):
        """the draw is scaled by the total weight"""
        n = w.shape[-1]
        used = []

        def env(x):
            x = bare(x)
            if x.op == 'call' and x.a[0].split('::')[-1] == 'operator()' and 'uniform_real_distribution' in x.a[0]: return 0.25
            if x.op == 'call' and x.a[0].split('<')[0] == 'std::accumulate' and len(x.a[2]) == 3 and cval(bare(x.a[2][2])) == 0:
                e = [y for y in self.I.evs if y.kind == 'call' and y.ret is x]
                its = [self.iter(a, self.locs, w, act, n) for a in x.a[2][:2]]
                if len(e) != 1 or [p for _, p in its] != [0, n]: raise Und('total')
                if not w.kw['replacement']: self.res.check(e[0].loops == loops, self.op + '/total', loc_of(self.rec, e[0].line()), 'without replacement the total weight is not recomputed after a draw', 'the total follows the removal')
                return 8.0
            b = ix(x)
            if b is not None and self.src(x) is None:
                k = bare(b[1])
                k = n - 1 if k.op == 'last' else self.val(k, w, act)
                used.append(k)
                return 8.0 if k == n - 1 else 3.0
            return None
        v = ev(t, env)
        self.res.check(v == 2.0, self.op + '/scale', self.where, '%s of %s: the draw is %s' % (self.op, w.show(), 'not scaled by the total weight' if not used else 'scaled by the cumulative weight at %s of %d' % (used, n)), 'the draw is uniform below the total weight')


OPS = {'topk': TopK, 'sort': Sort, 'cumsum': CumSum, 'multinomial': Multi}


def check_samp(res):
    res.rule = 'every line along the dimension is ordered, summed or sampled as a whole, in the documented order, and its results go to that line of the result'
    n = 0
    for op, cls in OPS.items():
        for rec in res.p.by_name.get('tinytorch::op::%sOpCpuImpl' % op, []):
            with res.instance('%s %s' % (op, rec['ps'][0]['t'])):
                try:
                    cls(res, rec).check()
                    n += 1
                except Und as x: res.und('%s: %s' % (op, x))
    res.floor('kernels', n, 6)
