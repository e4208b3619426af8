"""Broadcasting: which element of every input an elementwise operator combines for every output position, for all shapes.
The walk of TensorIterator is decided by proof rules over the effects extracted from its loops: an inductive invariant (offset = sum of coordinate times
increment) for the coordinate walk, decision tables for the alignment and for the choice between the walks, an extracted transition system for the flags."""
import math
from itertools import product
from model import *
import alg
from c_module import bare

TI = 'tinytorch::TensorIteratorCpu<'
OPQ = ('tinytorch::op::', 'tinytorch::Tensor::')


class Und(Exception): pass


def is_this(t):
    return t.op == 'this' or t.op in ('D', 'deref') and is_this(t.a[0])


def fld(t):
    """name of the field of *this a term reads (also the value a loop leaves in it)"""
    while t.op == 'mut': t = t.a[0]
    if t.op in ('F', 'fld') and isinstance(t.a[0], T) and (is_this(t.a[0]) or t.a[0].op == 'param'): return t.a[1]
    if t.op == 'hav' and len(t.a) > 3: return t.a[3]
    if t.op == 'RESZ': return fld(t.a[0])
    return None


def ix(t):
    """(base, index) of an element access"""
    if t.op in ('elem', 'E'): return t.a[0], t.a[1]
    return None


def ev(t, env):
    v = env(t)
    if v is not None: return v
    c = cval(t)
    if c is not None: return c
    if t.op == 'list' and len(t.a[0]) == 1: return ev(t.a[0][0], env)
    if t.op == 'phi': return ev(t.a[1] if ev(t.a[0], env) else t.a[2], env)
    if t.op == 'not': return not ev(t.a[0], env)
    if t.op == 'and': return all(ev(x, env) for x in t.a)
    if t.op == 'or': return any(ev(x, env) for x in t.a)
    if t.op in ('min', 'max'): return (min if t.op == 'min' else max)(ev(x, env) for x in t.a)
    if t.op == 'neg': return -ev(t.a[0], env)
    if t.op == 'call' and t.a[0] in ('std::min', 'std::max') and len(t.a[2]) == 2: return (min if t.a[0] == 'std::min' else max)(ev(x, env) for x in t.a[2])
    if t.op in ('+', '-', '*', '/', '%', '<', '<=', '==') and len(t.a) == 2:
        x, y = ev(t.a[0], env), ev(t.a[1], env)
        if t.op in '/%':
            if not y: raise Und('division')
            return x // y if t.op == '/' else x % y
        return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '<': lambda: x < y, '<=': lambda: x <= y, '==': lambda: x == y}[t.op]()
    raise Und('value ' + show(t)[:80])


def strip(t, h):
    """a counter bound to a reference somewhere keeps its value"""
    if t.op in ('+', '-') and len(t.a) == 2: return binop(t.op, *(h if bare(x) is h else x for x in t.a))
    return t


def counter(I, lid):
    """(counter, 'up'/'down', number of iterations) of a loop counting every index once"""
    i = I.loopinfo[lid]
    c = i['cond']
    hs = [x for x in subterms(c) if x.op == 'hav' and x.a[0] == lid and isinstance(x.a[2], T) and x.a[2] in i['init'] and len(x.a) == 3]
    if len(hs) != 1: raise Und('counter of ' + lid)
    h = hs[0]
    a, nx = i['init'][h.a[2]], i['next'].get(h.a[2])
    if nx is not None: nx = strip(nx, h)
    if nx is binop('+', C(1), h):
        if c.op == '<' and c.a[0] is h: n = c.a[1]
        elif c.op == 'not' and c.a[0].op == '==' and h in c.a[0].a: n = [x for x in c.a[0].a if x is not h][0]
        else: raise Und('condition of ' + lid)
        return h, 'up', a, n
    if nx is binop('-', h, C(1)) or nx is binop('+', h, C(-1)):
        if c.op == '<=' and cval(c.a[0]) == 0 and c.a[1] is h or c.op == '<' and cval(c.a[0]) == -1 and c.a[1] is h: return h, 'down', a, None
    raise Und('step of ' + lid)


def poly(t, atoms):
    def at(x):
        return atoms(x)
    if t.op == '+': return alg.R.__add__(poly(t.a[0], atoms), poly(t.a[1], atoms))
    if t.op == '-': return poly(t.a[0], atoms) - poly(t.a[1], atoms)
    if t.op == '*': return poly(t.a[0], atoms) * poly(t.a[1], atoms)
    if t.op == 'neg': return -poly(t.a[0], atoms)
    c = cval(t)
    if c is not None: return alg.const(c)
    x = at(t)
    if x is None: raise Und('value ' + show(t)[:80])
    return x


def zero(r): return not r.n


class Walk:
    """one instantiation of forEach with everything it calls inlined"""
    def __init__(self, res, rec, n):
        self.res, self.rec, self.n = res, rec, n
        self.I = Interp(res.p, Policy(opaque=lambda r: r['fn'].startswith(OPQ)))
        self.I.run(rec)
        for u in {e.rec['u'] for e in self.I.evs if e.rec}: res.functions.add(u)
        self.conds = {c for i in self.I.loopinfo.values() for c in [i['cond']] if c is not None}
        self.done = {}

    def loopcond(self, g): return g.op == 'inrange' or g in self.conds or any(c.op in ('and', 'not') and g in c.a for c in self.conds)

    def lits(self, e):
        return [(g, p) for g, p in e.gl if not self.loopcond(g)]

    # -- which walk is taken
    def cond(self, t, w):
        """w: kinds of the inputs: 's' scalar, 'f' the output's shape, 'p' another shape"""
        def env(x):
            x = bare(x)
            f = fld(x)
            if f is not None: return self.flag(f, w)
            b = ix(x)
            if b is not None and fld(b[0]) == 'isScalar_':
                k = ev(b[1], env)
                if not 0 <= k < len(w): raise Und('input %s' % k)
                return w[k] == 's'
            if x.op == 'call' and x.a[0].split('<')[0] in ('std::all_of', 'std::any_of', 'std::none_of') and len(x.a[2]) == 3:
                q = [y for y in x.a[2][:2]]
                if not all(y.op == 'call' and y.a[1] is not None and fld(y.a[1]) == 'isScalar_' for y in q): raise Und('range')
                if [y.a[0].split('::')[-1].lstrip('c') for y in q] != ['begin', 'end']: raise Und('range')
                vs = [bool(ev(self.lam(x.a[2][2], (C(1 if k == 's' else 0),)), env)) for k in w]
                f = x.a[0].split('::')[-1].split('<')[0]
                return all(vs) if f == 'all_of' else any(vs) if f == 'any_of' else not any(vs)
            return None
        return ev(t, env)

    def lam(self, l, args):
        k = (l, args)
        if k not in self.done:
            n = len(self.I.evs)
            self.done[k] = self.I.apply(l, list(args))
            del self.I.evs[n:]
        return self.done[k]

    def flag(self, f, w):
        if f == 'allNonScalarSameShape_': return not ('p' in w)
        if f == 'needBroadcast_': return 'p' in w or 's' in w and set(w) != {'s'}
        if f == 'broadcastOk_': return True
        raise Und('field ' + f)

    def check(self):
        res, I, n = self.res, self.I, self.n
        calls = [e for e in I.evs if e.kind == 'icall' and len(e.args) == n and e.loops]
        if not calls: raise Und('the functor is called in no loop')
        worlds = [w for w in product('sfp', repeat=n) if w.count('p') + w.count('f') >= 2 or 'p' not in w]
        for w in worlds:
            hit = [e for e in calls if all(bool(self.cond(g, w)) == p for g, p in self.lits(e))]
            name = 'inputs %s' % ', '.join({'s': '0-d', 'f': 'of the output shape', 'p': 'of another shape'}[k] for k in w)
            if not res.check(len({id(e) for e in hit}) == 1, 'choice', loc_of(self.rec), '%s: the functor is evaluated by %d walks' % (name, len(hit)), 'one walk per combination of inputs (%s)' % ''.join(w)): continue
            e = hit[0]
            for j, a in enumerate(e.args):
                base, index = self.access(a)
                k = self.base(base)
                if not res.check(k == j, 'operand', e.where() if callable(getattr(e, 'where', None)) else loc_of(self.rec), 'argument %d of the functor is read from input %d' % (j, k), 'argument j from input j'): continue
                self.index(e, w, j, index, name)
            self.store(e)

    def access(self, a):
        a = bare(a)
        l = a.a[0] if a.op in ('deref',) else a
        b = ix(l) or ix(a)
        if b is None: raise Und('operand ' + show(a)[:80])
        return b

    def base(self, t):
        t = bare(t)
        while t.op in ('D', 'deref', 'addr'): t = bare(t.a[0])
        if t.op in ('F', 'fld') and isinstance(t.a[1], str) and t.a[1].startswith('tuple'):
            c = bare(t.a[0])
            if c.op == 'call' and c.a[0].split('::')[-1].split('<')[0] in ('forward_as_tuple', 'tie', 'make_tuple'): return self.base(c.a[2][int(t.a[1][5:])])
        if t.op == 'call' and t.a[0].split('::')[-1].startswith('dataPtr') and t.a[1] is not None:
            x = bare(t.a[1])
            while x.op in ('D', 'deref'): x = bare(x.a[0])
            b = ix(x)
            if b is not None and fld(b[0]) == 'inputs_' and cval(b[1]) is not None: return int(cval(b[1]))
        raise Und('operand base ' + show(t)[:80])

    def index(self, e, w, j, t, name):
        res = self.res
        t = bare(t)
        if t.op == 'phi':
            return self.index(e, w, j, t.a[1] if self.cond(t.a[0], w) else t.a[2], name)
        where = loc_of(self.rec, e.line())
        if cval(t) is not None:
            res.check(cval(t) == 0, 'scalar/zero', where, 'element %s of input %d is read for every output element' % (cval(t), j), 'a 0-d input is read at 0')
            res.check(w[j] == 's', 'scalar/only', where, '%s: input %d is read at element 0 for every output element although it is not 0-d' % (name, j), 'only 0-d inputs are read at 0')
            return
        if t.op == 'hav' and t.a[0] in e.loops and t.a[0] in self.I.loopinfo:
            self.linear(e, t)
            res.check(w[j] == 'f' or set(w) == {'s'}, 'linear/only', where, '%s: input %d is read at the position of the output element although its shape differs' % (name, j), 'only inputs of the output shape are read linearly')
            return
        b = ix(t)
        if b is not None:
            o, k = bare(b[0]), cval(b[1])
            if k is None or o.op != 'hav' or o.a[0] not in e.loops: raise Und('index ' + show(t)[:80])
            if not res.check(k == j, 'offset/input', where, 'input %d is read at the offset of input %d' % (j, k), 'the offset of input j indexes input j'): return
            self.odometer(e, o)
            return
        raise Und('index ' + show(t)[:80])

    def once(self, k, f):
        if k not in self.done:
            self.done[k] = None
            try: f()
            except (Und, alg.Undecided) as x: self.res.und('%s: %s' % (k[0], x))

    def linear(self, e, h):
        def go():
            c, d, a, n = counter(self.I, h.a[0])
            if c is not h: raise Und('counter')
            self.span(e, h.a[0], c, d, a, n)
        self.once(('linear', h.a[0]), go)

    def span(self, e, lid, c, d, a, n):
        res, where = self.res, loc_of(self.rec, e.line())
        if d != 'up': raise Und('direction')
        if cval(a) is None or fld(n) is None: raise Und('range')
        res.check(cval(a) == 0, 'walk/start', where, 'the walk starts at element %s' % cval(a), 'walks start at 0')
        res.check(fld(n) == 'total_', 'walk/end', where, 'the walk ends at %s' % show(n)[:60], 'walks end at the element count of the output')

    # -- where the result goes
    def store(self, e):
        def go():
            I, res = self.I, self.res
            where = loc_of(self.rec, e.line())
            lid = e.loops[0]
            ws = [x for x in I.evs if x.kind == 'write' and x.loops == e.loops and x.args and e.ret is not None and e.ret in subterms(x.args[0]) and x.objloc.op in ('D', 'E')]
            if not ws: raise Und('store')
            res.check(len(ws) == 1, 'store/once', where, 'the result of one evaluation is stored %d times' % len(ws), 'one store per evaluation')
            l = ws[0].objloc
            if l.op == 'D' and l.a[0].op == 'hav' and l.a[0].a[0] == lid:
                p = l.a[0]
                i = I.loopinfo[lid]
                a, nx = i['init'].get(p.a[2]), i['next'].get(p.a[2])
                if nx is None or a is None: raise Und('pointer')
                d = poly(nx, lambda x: alg.atom('p') if x is p else None) - alg.atom('p')
                if d.const() is None: raise Und('pointer step')
                res.check(d.const() == 1, 'store/step', where, 'the output pointer advances by %s per element' % d.const(), 'output pointer advances by one')
                self.outbase(a, where)
                c = counter(I, lid)
                self.span(e, lid, *c)
            else:
                b = ix(l) or (ix(l.a[0]) if l.op == 'D' else None)
                if b is None: raise Und('store ' + show(l)[:60])
                c = counter(I, lid)
                if b[1] is not c[0]: raise Und('store index')
                self.outbase(b[0], where)
                self.span(e, lid, *c)
        self.once(('store', id(e)), go)

    def outbase(self, t, where):
        t = bare(t)
        while t.op in ('D', 'deref', 'addr'): t = bare(t.a[0])
        if not (t.op == 'call' and t.a[0].split('::')[-1].startswith('dataPtr') and t.a[1] is not None): raise Und('output base ' + show(t)[:60])
        o = bare(t.a[1])
        self.res.check(o.op == 'param' and o.a[1] == self.rec['ps'][0]['n'], 'store/base', where, 'results are stored to %s' % show(o)[:60], 'results go to the output tensor')

    # -- the coordinate walk
    def odometer(self, e, o):
        self.once(('odometer', o.a[0]), lambda: self.odometer_(e, o))

    def vecinit(self, t, what):
        """(length, fill) of a freshly built vector"""
        if t is None or t.op != 'new' or 'Vector' not in t.a[0] and 'vector' not in t.a[0]: raise Und('initial ' + what)
        a = [x for x in t.a[1] if not (x.op == 'new' and 'allocator' in x.a[0])]
        if len(a) != 2: raise Und('initial ' + what)
        return a

    def odometer_(self, e, o):
        I, res = self.I, self.res
        lo = o.a[0]
        oloc = o.a[2]
        info = I.loopinfo[lo]
        where = loc_of(self.rec, e.line())
        n, z = self.vecinit(info['init'].get(oloc), 'offsets')
        res.check(cval(z) == 0, 'odometer/origin', where, 'the offsets start at %s' % show(z)[:40], 'offsets start at 0')
        body = [x for x in I.evs if x.loops[:len(e.loops)] == e.loops and len(x.loops) > len(e.loops) and x.kind in ('write', 'loop')]
        lds = sorted({x.loops[len(e.loops)] for x in body})
        if len(lds) != 1: raise Und('%d walks over the dimensions' % len(lds))
        ld = lds[0]
        dep = len(e.loops) + 1
        h, dr, a, cnt = counter(I, ld)
        if dr == 'up':
            if cval(a) == 0 and fld(cnt) == 'ndim_': res.bad('odometer/order', where, 'the coordinates advance from the first dimension: output elements are visited out of order')
            raise Und('direction')
        d0 = self.offset_from(a, 'ndim_')
        res.check(d0 == -1, 'odometer/first', where, 'the coordinate walk starts at dimension ndim%+d' % d0, 'the last dimension advances first')
        if I.loopinfo[ld]['brks'] != 1: raise Und('ways to leave')
        base = {g for x in I.evs if x.kind == 'loop' and x.loops[-1] == ld for g in x.gl}
        bl = [(g, p) for g, p in I.loopinfo[ld]['brkgl'][0] if (g, p) not in base and not self.loopcond(g)]
        if len(bl) != 1: raise Und('condition to leave')
        bg, bp = bl[0]
        ws = [x for x in body if x.kind == 'write' and x.loops[:dep] == e.loops + (ld,)]
        K = None
        kw, ow = [], []
        for x in ws:
            l = x.objloc
            b = ix(l)
            if b is None: continue                     # scalars: counters
            if b[0] is oloc: ow.append(x)
            elif len(x.loops) == dep and b[1] is h and (K is None or K is b[0]):
                K = b[0]
                kw.append(x)
            else: raise Und('effect on ' + show(l)[:60])
        if K is None or not ow: raise Und('coordinates')
        for x in [y for y in I.evs if y.kind == 'write' and y.loops[:1] == (lo,) and y not in ws and y.objloc.op in ('E', 'V') and (y.objloc is oloc or y.objloc is K or ix(y.objloc) and ix(y.objloc)[0] in (oloc, K))]: raise Und('another effect')
        kn, kz = self.vecinit(info['init'].get(K), 'coordinates')
        res.check(cval(kz) == 0, 'odometer/origin', where, 'the coordinates start at %s' % show(kz)[:40], 'coordinates start at 0')
        sizes = set()

        def coordval(t):
            b = ix(bare(t))
            return b is not None and bare(b[0]).op == 'hav' and bare(b[0]).a[2] is K and b[1] is h

        def size(t):
            b = ix(bare(t))
            if b is None or b[1] is not h: return False
            if self.is_size(b[0]):
                sizes.add(b[0])
                return True
            return False
        # stay as long as the coordinate is in range
        for s in (1, 2, 4):
            for k in range(s):
                g = ev(bg, lambda t: k if coordval(t) else s if size(t) else None)
                stay = bool(g) == bp
                if not res.check(stay == (k + 1 < s), 'odometer/carry', where, 'after coordinate %d of a dimension of %d elements the walk %s' % (k, s, 'stays in the dimension' if stay else 'carries'), 'a dimension carries exactly after its last coordinate'): return
        J = mk('atom', 'J')

        def path(x, stay):
            for g, p in x.gl:
                if g is bg and (p == bp) != stay: return False
            extra = [(g, p) for g, p in x.gl if (g, p) not in base and not self.loopcond(g) and g is not bg]
            if extra: raise Und('a conditional effect')
            return True
        for stay in (True, False):
            kv = alg.atom('K')
            for x in kw:
                if path(x, stay): kv = poly(x.args[0], lambda t: alg.atom('K') if coordval(t) else None)
            want = alg.atom('K') + alg.const(1) if stay else alg.const(0)
            if not res.check(zero(kv - want), 'odometer/coordinate', where, 'the coordinate becomes %s where it %s' % (alg.pr(kv), 'advances' if stay else 'carries'), 'coordinates count like digits'): return
            do = alg.const(0)
            for x in ow:
                if not path(x, stay): continue
                j = ix(x.objloc)[1]
                if len(x.loops) != dep + 1: raise Und('offset effect')
                hj, dj, aj, nj = counter(I, x.loops[-1])
                if hj is not j or dj != 'up' or cval(aj) is None or cval(nj) is None: raise Und('offset loop')
                res.check(cval(aj) == 0 and cval(nj) == self.n, 'odometer/inputs', where, 'offsets %s to %s of %d inputs advance' % (cval(aj), cval(nj), self.n), 'the offset of every input advances')

                def at(t):
                    t = bare(t)
                    if coordval(t): return alg.atom('K')
                    if size(t) and not stay: return alg.atom('K') + alg.const(1)
                    b = ix(t)
                    if b is not None:
                        q = bare(b[0])
                        if q.op == 'hav' and q.a[2] is oloc and b[1] is j: return alg.const(0)
                        bb = ix(q)
                        if bb is not None and b[1] is h and bb[1] is j:
                            self.incs = getattr(self, 'incs', set()) | {bb[0]}
                            return alg.atom('INC')
                    return None
                do = do + poly(x.args[0], at)
            dk = want - alg.atom('K')
            r = do - dk * alg.atom('INC')
            res.check(zero(r), 'odometer/offset', where, 'where a coordinate %s, the offset changes by %s instead of (%s)*increment' % ('advances' if stay else 'carries', alg.pr(do), alg.pr(dk)), 'offset = sum of coordinate * increment')
        for t in getattr(self, 'incs', ()): self.increments(t, where)

    def offset_from(self, t, f):
        r = poly(t, lambda x: alg.atom('N') if fld(x) == f else None) - alg.atom('N')
        if r.const() is None: raise Und('value ' + show(t)[:60])
        return int(r.const())

    def is_size(self, t):
        """a vector holding the output shape"""
        t = bare(t)
        if fld(t) == 'shape_': return True
        if t.op == 'hav' and t.a[0] in self.I.loopinfo:
            loc = t.a[2]
            ws = [x for x in self.I.evs if x.kind == 'write' and ix(x.objloc) and ix(x.objloc)[0] is loc]
            if not ws: return False
            for x in ws:
                if x.loops[-1] != t.a[0]: return False
                h, d, a, n = counter(self.I, t.a[0])
                if ix(x.objloc)[1] is not h: return False
                if d == 'down' and self.offset_from(a, 'ndim_') != -1 or d == 'up' and (cval(a) != 0 or fld(n) != 'ndim_'): return False
                where = loc_of(self.rec, x.line())
                b = ix(bare(x.args[0]))
                if b is not None and fld(b[0]) == 'shape_':
                    self.res.check(b[1] is h, 'odometer/size', where, 'the size of dimension d is taken from dimension %s' % show(b[1])[:40], 'sizes are those of the output')
                    continue
                for dims in product((1, 4), repeat=self.n):
                    def env(q):
                        q = bare(q)
                        b = ix(q)
                        if b is None or b[1] is not h: return None
                        if fld(b[0]) == 'shape_': return max(dims)
                        r = bare(b[0])
                        bb = ix(r)
                        if bb is not None and fld(bb[0]) == 'shapes_':
                            return dims[-1 if bb[1].op == 'last' else ev(bb[1], lambda z: None)]
                        if r.op == 'call' and r.a[1] is not None and fld(bare(r.a[1])) == 'shapes_' and r.a[0].split('::')[-1] in ('front', 'back'): return dims[0 if r.a[0].endswith('front') else -1]
                        return None
                    got = ev(x.args[0], env)
                    if not self.res.check(got == max(dims), 'odometer/size', where, 'where the inputs have %s elements along a dimension the walk takes it for %s' % (list(dims), got), 'sizes are those of the output'): break
            return True
        return False

    def increments(self, t, where):
        self.once(('increment', t), lambda: self.increments_(t, where))

    def increments_(self, t, where):
        """the increment of (input, dimension) is 0 where the input has one element and its contiguous stride elsewhere"""
        I, res = self.I, self.res
        t = bare(t)
        if fld(t) == 'strides_':
            res.ok('increments are the aligned strides')
            return
        if t.op != 'hav' or t.a[0] not in I.loopinfo: raise Und('increments')
        loc = t.a[2]
        ws = [x for x in I.evs if x.kind == 'write' and ix(x.objloc) and ix(ix(x.objloc)[0]) and ix(ix(x.objloc)[0])[0] is loc]
        if len(ws) != 1: raise Und('%d stores of increments' % len(ws))
        x = ws[0]
        (row, d), j = ix(x.objloc), ix(ix(x.objloc)[0])[1]
        cs = {}
        for l in x.loops:
            h, dr, a, n = counter(I, l)
            cs[h] = (l, dr, a, n)
        if d not in cs or j not in cs or len(x.loops) != 2: raise Und('loops of the increments')
        l, dr, a, n = cs[j]
        if dr != 'up' or cval(a) is None or cval(n) is None: raise Und('loop over the inputs')
        res.check(cval(a) == 0 and cval(n) == self.n, 'increment/inputs', where, 'increments of inputs %s to %s of %d are set' % (cval(a), cval(n), self.n), 'increments of every input')
        ld, dr, a, n = cs[d]
        if dr != 'down': raise Und('direction')
        res.check(self.offset_from(a, 'ndim_') == -1, 'increment/dims', where, 'increments are set from dimension %s down' % show(a)[:40], 'increments of every dimension')
        outer = {g for y in I.evs if y.kind == 'loop' and y.loops == x.loops[:1] for g in y.gl}
        if any(g not in outer for g in self.lits(x)): raise Und('conditional')
        P = {}

        def env(st, sh, p):
            def f(q):
                q = bare(q)
                b = ix(q)
                if b is None: return None
                bb = ix(bare(b[0]))
                if bb is not None and b[1] is d and bb[1] is j:
                    if fld(bb[0]) == 'strides_': return st
                    if fld(bb[0]) == 'shapes_': return sh
                if b[1] is j and bare(b[0]).op == 'hav':
                    P[bare(b[0]).a[2]] = 1
                    return p
                if b[1] is d and fld(b[0]) == 'shape_': raise Und('output shape')
                return None
            return f
        v = x.args[0]
        for p, s in ((1, 2), (6, 5), (35, 3)):
            got = ev(v, env(p, s, p))
            if not res.check(got == p, 'increment/value', where, 'a dimension of %d elements whose later dimensions hold %d elements advances by %s' % (s, p, got), 'increment = contiguous stride'): break
            got = ev(v, env(0, 1, p))
            if not res.check(got == 0, 'increment/broadcast', where, 'a dimension of one element advances by %s' % got, 'broadcast dimensions do not advance'): break
        for loc2 in P:
            ini = I.loopinfo[ld]['init'].get(loc2)
            n, one = self.vecinit(ini, 'strides')
            res.check(cval(one) == 1, 'increment/unit', where, 'the last dimension advances by %s' % show(one)[:30], 'the last dimension has stride 1')
            us = [y for y in I.evs if y.kind == 'write' and ix(y.objloc) and ix(y.objloc)[0] is loc2]
            if len(us) != 1 or us[0].loops != x.loops or any(g not in outer for g in self.lits(us[0])) or ix(us[0].objloc)[1] is not j: raise Und('strides')
            for p, s in ((1, 2), (6, 5), (35, 3)):
                got = ev(us[0].args[0], env(p, s, p))
                if not res.check(got == p * s, 'increment/product', where, 'before a dimension of %d elements the stride %d becomes %s' % (s, p, got), 'strides are products of the sizes'): break


# ---- alignment

class Setup:
    def __init__(self, res, rec):
        self.res, self.rec = res, rec
        self.I = Interp(res.p, Policy(opaque=lambda r: r['fn'].startswith(OPQ)))
        self.rets = self.I.run(rec)
        for u in {e.rec['u'] for e in self.I.evs if e.rec}: res.functions.add(u)
        self.conds = {c for i in self.I.loopinfo.values() for c in [i['cond']] if c is not None}

    loopcond = Walk.loopcond

    def part(self, name, f):
        with self.res.instance(name):
            f()

    def final(self, f):
        """value of a field where the function returns the output shape"""
        out = []
        for st, t, *_ in self.rets:
            if t is None or t.op == 'new' and not t.a[1]: continue
            m = st.mem.get(mk('D', mk('this')))
            d = dict(m.a[1]) if m is not None and m.op == 'rec' else {}
            if f not in d: raise Und('field ' + f)
            out.append(d[f])
        if len(set(out)) != 1: raise Und('field ' + f)
        return out[0]

    def check(self):
        for n in ('rank', 'dims', 'total', 'result', 'aligned', 'scalars', 'flags'): self.part(n, getattr(self, n))

    def elem_of_inputs(self, t):
        """a term denoting the input of this iteration"""
        t = bare(t)
        while t.op in ('D', 'deref'): t = bare(t.a[0])
        b = ix(t)
        return b is not None and fld(b[0]) == 'inputs_' and b[1].op == 'hav'

    def rank(self):
        t = self.final('ndim_')
        if t.op != 'hav': raise Und('rank')
        i = self.I.loopinfo[t.a[0]]
        loc = t.a[2]
        a, nx = self.fieldval(i['init'][loc], 'ndim_'), self.fieldval(i['next'][loc], 'ndim_')
        where = loc_of(self.rec)
        if cval(a) is None: raise Und('rank')
        self.res.check(cval(a) <= 0, 'rank/start', where, 'the rank starts at %s' % cval(a), 'rank starts at 0')
        self.covers(t.a[0])
        for x, y in product((0, 1, 2, 3), (0, 1, 2, 4)):
            got = ev(nx, lambda q: x if q is t else y if q.op == 'call' and q.a[0].endswith('::dim') and self.elem_of_inputs(q.a[1]) else None)
            if not self.res.check(got == max(x, y), 'rank/max', where, 'the rank of inputs of %d and %d dimensions is %s' % (x, y, got), 'rank = largest rank'): break

    def fieldval(self, v, f):
        v = bare(v)
        if v.op == 'rec': return dict(v.a[1]).get(f) or mk('fld', v.a[0], f)
        return v

    def covers(self, lid):
        """the loop visits every input"""
        i = self.I.loopinfo[lid]
        if i.get('brks'): raise Und('the loop over the inputs is left early')
        if i['cond'].op == 'inrange':
            if fld(bare(i['cond'].a[1])) not in ('inputs_',) : self.listof(i['cond'].a[1])
            return
        h, d, a, n = counter(self.I, lid)
        if d != 'up' or cval(a) is None: raise Und('loop over the inputs')
        if not (n.op == 'call' and n.a[0].endswith('::size') and n.a[1] is not None and fld(bare(n.a[1])) in ('inputs_', 'shapes_', 'strides_', 'isScalar_')): raise Und('loop over the inputs')
        self.res.check(cval(a) == 0, 'inputs', loc_of(self.rec, i['node'].get('l')), 'the inputs before %s are left out' % cval(a), 'every input takes part')

    def listof(self, t):
        """a list built from the shapes of all inputs"""
        t = bare(t)
        if t.op != 'hav': raise Und('list')
        nx = self.I.loopinfo[t.a[0]]['next'].get(t.a[2])
        if nx is None or nx.op != 'app' or nx.a[0] is not t: raise Und('list')
        x = bare(nx.a[1])
        if not (x.op == 'call' and x.a[0].endswith('::shape') and self.elem_of_inputs(x.a[1])): raise Und('list')
        self.covers(t.a[0])

    def dims(self):
        res, I = self.res, self.I
        ws = [x for x in I.evs if x.kind == 'write' and ix(x.objloc) and fld(ix(x.objloc)[0]) == 'shape_']
        if len(ws) != 1 or len(ws[0].loops) != 1: raise Und('stores of the output shape')
        x = ws[0]
        where = loc_of(x.rec, x.line())
        h, dr, a, n = counter(I, x.loops[0])
        if ix(x.objloc)[1] is not h or dr != 'up': raise Und('stores of the output shape')
        res.check(cval(a) == 0 and fld(n) == 'ndim_', 'dims/all', where, 'dimensions %s to %s of the output are set' % (show(a)[:30], show(n)[:40]), 'every output dimension is set')
        v = bare(x.args[0])
        if v.op != 'hav': raise Und('output dimension')
        lin = v.a[0]
        i = I.loopinfo[lin]
        self.covers(lin)
        res.check(cval(i['init'][v.a[2]]) == 1, 'dims/start', where, 'an output dimension starts at %s' % show(i['init'][v.a[2]])[:30], 'dimensions start at 1')
        nx = i['next'][v.a[2]]
        el = [q for q in subterms(nx) | set() if q.op == 'phi'] if isinstance(subterms(nx), set) else [q for q in subterms(nx) if q.op == 'phi']
        dterm = [q for q in el if any(y.op == 'call' and y.a[0].endswith('::size') for y in subterms(q.a[0])) and not any(y is v for y in subterms(q))]
        if len(set(dterm)) != 1: raise Und('input dimension')
        D_ = dterm[0]
        # the input's dimension aligned at the last dimension
        for nd in (1, 3):
            for sz in range(nd + 1):
                for k in range(nd):
                    got = ev(D_, lambda q: k if q is h else nd if fld(q) == 'ndim_' else sz if q.op == 'call' and q.a[0].endswith('::size') else ('at', ev_ix(q, k, h, nd, sz)) if ix(q) and not fld(q) and q.op == 'elem' and ev_ix(q, k, h, nd, sz) is not None else None)
                    want = 1 if k < nd - sz else ('at', k - (nd - sz))
                    if not res.check(got == want, 'dims/align', where, 'dimension %d of %d of an input of %d dimensions is taken as %s' % (k, nd, sz, 'its dimension %d' % got[1] if isinstance(got, tuple) else got), 'inputs are aligned at the last dimension'): return
        res.check(cval(self.final('broadcastOk_')) is None, 'dims/reported', where, 'shapes are always reported as compatible', 'incompatible shapes are reported')
        # the combination of dimensions
        fails = [y for y in I.evs if y.kind in ('return', 'trap') and y.loops and y.loops[-1] == lin]
        for p, q in product((0, 1, 2, 3, 5), repeat=2):
            env = lambda t: p if t is v else q if t is D_ else None
            compatible = p == q or p == 1 or q == 1
            bad = []
            for y in fails:
                gl = [(g, pol) for g, pol in y.gl if not self.loopcond(g) and (D_ in subterms(g) or v in subterms(g))]
                bad.append(all(bool(ev(g, env)) == pol for g, pol in gl))
            if not res.check(any(bad) != compatible, 'dims/compatible', where, 'dimensions %d and %d are %s' % (p, q, 'refused' if any(bad) else 'accepted'), 'dimensions are compatible iff equal or one of them is 1'): return
            if compatible:
                got = ev(nx, env)
                if not res.check(got == (q if p == 1 else p), 'dims/combine', where, 'dimensions %d and %d broadcast to %s' % (p, q, got), 'the dimension that is not 1'): return
        for y in fails:
            if y.kind == 'return' and y.rec is not self.rec:
                res.check(y.args and cval(y.args[0]) == 0, 'dims/refuse', where, 'incompatible shapes are reported as %s' % (show(y.args[0])[:30] if y.args else 'nothing'), 'incompatible shapes are reported')

    def total(self):
        t = self.final('total_')
        if t.op != 'hav': raise Und('element count')
        i = self.I.loopinfo[t.a[0]]
        where = loc_of(self.rec, i['node'].get('l'))
        a, nx = self.fieldval(i['init'][t.a[2]], 'total_'), self.fieldval(i['next'][t.a[2]], 'total_')
        c = i['cond']
        if i.get('brks'): raise Und('left early')
        if c.op == 'inrange':
            if fld(c.a[1]) != 'shape_': raise Und('element count')
        else:
            h, d, s, n = counter(self.I, t.a[0])
            if d != 'up' or fld(n) != 'ndim_' and not (n.op == 'call' and n.a[0].endswith('::size') and fld(n.a[1]) == 'shape_'): raise Und('element count')
            self.res.check(cval(s) == 0, 'total/first', where, 'the element count starts at dimension %s' % show(s)[:20], 'every dimension counts')
        self.res.check(cval(a) == 1, 'total/unit', where, 'the element count starts at %s' % show(a)[:30], 'element count starts at 1')
        for x, y in ((1, 2), (3, 5), (4, 0), (7, 1)):
            got = ev(nx, lambda q: x if q is t else y if ix(q) and fld(ix(q)[0]) == 'shape_' else None)
            if not self.res.check(got == x * y, 'total/product', where, '%d elements times %d give %s' % (x, y, got), 'element count = product of the dimensions'): break

    def result(self):
        ok = 0
        for st, t, *_ in self.rets:
            if t is None: continue
            if t.op == 'new' and not t.a[1]: continue
            x = bare(t)
            if x.op == 'new' and len(x.a[1]) == 1: x = bare(x.a[1][0])
            if fld(x) is None: raise Und('result')
            self.res.check(fld(x) == 'shape_', 'result', loc_of(self.rec), 'the output shape returned is %s' % show(x)[:40], 'the broadcast shape is returned')

    def aligned(self):
        res, I = self.res, self.I
        for f, fill in (('shapes_', 1), ('strides_', 0)):
            ws = [x for x in I.evs if x.kind == 'write' and ix(x.objloc) and ix(ix(x.objloc)[0]) and fld(ix(ix(x.objloc)[0])[0]) == f]
            if len(ws) != 1 or len(ws[0].loops) != 2: raise Und('stores of ' + f)
            x = ws[0]
            where = loc_of(x.rec, x.line())
            j = ix(ix(x.objloc)[0])[1]
            hj = counter(I, x.loops[0])
            if hj[0] is not j: raise Und('input')
            self.covers(x.loops[0])
            k, d, a, n = counter(I, x.loops[1])
            if d != 'up' or not (n.op == 'call' and n.a[0].endswith('::size')): raise Und('dimensions')
            res.check(cval(a) == 0, f + '/first', where, 'the dimensions before %s are left out' % show(a)[:20], 'every dimension is aligned')
            idx = ix(x.objloc)[1]
            for nd in (1, 3):
                for sz in range(1, nd + 1):
                    for q in range(sz):
                        got = ev(idx, lambda t: q if t is k else nd if fld(t) == 'ndim_' else sz if t.op == 'call' and t.a[0].endswith('::size') else None)
                        if not res.check(got == nd - sz + q, f + '/align', where, 'dimension %d of an input of %d dimensions is aligned with dimension %s of %d' % (q, sz, got, nd), 'inputs are aligned at the last dimension'): return
            for y in [y for y in I.evs if y.kind == 'call' and y.fn.split('::')[-1] in ('resize', 'assign') and y.loops == x.loops[:1] and y.objloc is not None and ix(y.objloc) and fld(ix(y.objloc)[0]) == f]:
                if len(y.args) == 2 and cval(y.args[1]) is not None: res.check(cval(y.args[1]) == fill and fld(y.args[0]) == 'ndim_', f + '/fill', where, 'missing dimensions are taken as %s' % cval(y.args[1]), 'missing dimensions are broadcast')

            def own(t, m):
                t = bare(t)
                b = ix(t)
                if b is None or b[1] is not k: return False
                c = bare(b[0])
                if not (c.op == 'call' and c.a[0].endswith('::' + m) and c.a[1] is not None): return False
                z = bare(c.a[1])
                while z.op in ('D', 'deref'): z = bare(z.a[0])
                zz = ix(z)
                return zz is not None and fld(zz[0]) == 'inputs_' and zz[1] is j
            for sh, st, sz, q in [(a, b, s, q) for a, b in ((1, 4), (1, 1), (2, 1), (3, 6), (5, 1)) for s in (1, 2, 3) for q in range(s)]:
                got = ev(x.args[0], lambda t: sh if own(t, 'shape') else st if own(t, 'strides') else q if t is k else 3 if fld(t) == 'ndim_' else sz if t.op == 'call' and t.a[0].endswith('::size') else None)
                want = sh if f == 'shapes_' else 0 if sh == 1 else st
                if not res.check(got == want, f + '/value', where, 'a dimension of %d elements and stride %d is aligned with %s %s' % (sh, st, f, got), 'aligned shapes and strides'): break

    def scalars(self):
        ws = [x for x in self.I.evs if x.kind == 'write' and ix(x.objloc) and fld(ix(x.objloc)[0]) == 'isScalar_']
        if len(ws) != 1 or len(ws[0].loops) != 1: raise Und('stores')
        x = ws[0]
        j = ix(x.objloc)[1]
        if counter(self.I, x.loops[0])[0] is not j: raise Und('input')
        self.covers(x.loops[0])
        for nd, numel in ((0, 1), (1, 1), (1, 3), (2, 1)):
            def env(t):
                if t.op == 'call' and t.a[1] is not None:
                    z = bare(t.a[1])
                    m = t.a[0].split('::')[-1]
                    if m in ('size', 'empty') and z.op == 'call' and z.a[0].endswith('::shape'): z, m = bare(z.a[1]), {'size': 'dim', 'empty': 'isScalar'}[m]
                    while z.op in ('D', 'deref'): z = bare(z.a[0])
                    zz = ix(z)
                    if zz is None or fld(zz[0]) != 'inputs_' or zz[1] is not j: return None
                    return {'isScalar': nd == 0, 'dim': nd, 'numel': numel}.get(m)
            got = bool(ev(x.args[0], env))
            self.res.check(not got or numel == 1, 'scalar', loc_of(x.rec, x.line()), 'an input of %d dimensions and %d elements is read at element 0 only' % (nd, numel), 'only inputs of one element are read at 0')

    def flags(self):
        """the flag that chooses the linear walk, as a transition system over the inputs"""
        I, res = self.I, self.res
        t = self.final('allNonScalarSameShape_')
        hs = {x for x in subterms(t) if x.op == 'hav' and len(x.a) > 3 and x.a[3] == 'allNonScalarSameShape_'}
        if t.op not in ('hav', 'phi') or len(hs) != 1: raise Und('flag')
        t = hs.pop()
        lid = t.a[0]
        i = I.loopinfo[lid]
        where = loc_of(self.rec, i['node'].get('l'))
        c = i['cond']
        if c.op != 'inrange':
            h, d, a, n = counter(I, lid)
            if d != 'up': raise Und('loop')
            first, bound = cval(a), n
            if first is None: raise Und('loop')
        else: first, bound = 0, None
        PAIRS = (((6, 1), (1, 6)), ((2, 3), (3,)), ((2, 3), (2, 1)), ((1, 6), (6,)))
        for n, (A, B) in product((2, 3), PAIRS):
            for w in product('sAB', repeat=n):
                w = [{'s': (), 'A': A, 'B': B}[k] for k in w]
                st = {}
                for loc in i['assigned']:
                    hv = i['assigned'][loc]
                    if hv.op == 'rec':
                        for f, x in hv.a[1]:
                            if x.op == 'hav' and x.a[0] == lid: st[x] = self.fieldval(i['init'][loc], f)
                    elif hv.op == 'hav': st[hv] = i['init'][loc]
                out = bcast(w)

                def env_(cur, k):
                    def env(x):
                        if x in cur: return cur[x]
                        y = bare(x)
                        if y in cur: return cur[y]
                        if c.op != 'inrange' and y is h: return k
                        b = ix(y)
                        if b is not None and fld(b[0]) == 'isScalar_': return w[ev(b[1], env)] == ()
                        if y.op == 'call' and y.a[1] is not None:
                            z = bare(y.a[1])
                            while z.op in ('D', 'deref'): z = bare(z.a[0])
                            zz = ix(z)
                            m = y.a[0].split('::')[-1]
                            if zz is not None and fld(zz[0]) == 'inputs_' and m in ('shape', 'isScalar', 'numel', 'dim'):
                                q = w[k if c.op == 'inrange' and zz[1].op == 'hav' and zz[1].a[0] == lid else ev(zz[1], env)]
                                return {'shape': q, 'isScalar': q == (), 'numel': math.prod(q), 'dim': len(q)}[m]
                            if m in ('size', 'empty'):
                                q = env(z)
                                if isinstance(q, tuple): return len(q) if m == 'size' else not q
                        if y.op == 'call' and y.a[0].split('<')[0] == 'std::accumulate' and len(y.a[2]) == 4 and 'multiplies' in show(y.a[2][3]):
                            rs = [z for z in y.a[2][:2]]
                            if all(z.op == 'call' and z.a[1] is not None for z in rs) and [z.a[0].split('::')[-1].lstrip('c') for z in rs] == ['begin', 'end']:
                                q = env(rs[0].a[1])
                                if isinstance(q, tuple) and q == env(rs[1].a[1]): return math.prod(q) * ev(y.a[2][2], env)
                        if y.op == 'new' and 'ArrayView' in y.a[0]:
                            return () if not y.a[1] else env(y.a[1][0]) if len(y.a[1]) == 1 else None
                        if fld(y) == 'shape_': return out
                        return None
                    return env
                cur = {}
                for hv, a in st.items():
                    try: cur[hv] = ev(a, env_({}, 0))
                    except Und: pass
                last = n if bound is None else ev(bound, lambda x: n if x.op == 'call' and x.a[0].endswith('::size') and x.a[1] is not None and fld(bare(x.a[1])) in ('inputs_', 'shapes_', 'strides_', 'isScalar_') else None)
                for k in range(first, last):
                    if k >= n: raise Und('an input that is not there')
                    env = env_(cur, k)
                    left = None
                    for gl, mem in zip(i['brkgl'], i['brkmem']):
                        gs = [(g, p) for g, p in gl if not self.loopcond(g) and any(x.op == 'hav' and x.a[0] == lid for x in subterms(g))]
                        if all(bool(ev(g, env)) == p for g, p in gs): left = mem
                    mem = left if left is not None else i['next']
                    new = dict(cur)
                    for hv in cur:
                        loc = hv.a[2]
                        v = mem.get(loc)
                        if v is None: continue
                        v = self.fieldval(v, hv.a[3]) if len(hv.a) > 3 else v
                        new[hv] = ev(v, env)
                    cur = new
                    if left is not None: break
                if t not in cur: raise Und('flag')
                want = all(not q or math.prod(q) == math.prod(out) for q in w)
                if not res.check(want or not cur[t], 'flag', where, 'inputs of shapes %s are walked linearly' % ', '.join(str(list(q)) for q in w), 'only equal shapes are walked linearly'): return


def bcast(w):
    n = max(len(q) for q in w)
    return tuple(max(((1,) * (n - len(r)) + r)[k] for r in w) for k in range(n))


def ev_ix(q, k, h, nd, sz):
    try: return ev(q.a[1], lambda t: k if t is h else nd if fld(t) == 'ndim_' else sz if t.op == 'call' and t.a[0].endswith('::size') else None)
    except Und: return None


# ---- users

def users(res):
    P = res.p
    n = 0
    for name, rs in sorted(P.by_name.items()):
        if name.startswith(TI): continue
        for r in rs:
            if 'TensorIteratorCpu<' not in str(r.get('body')): continue
            with res.instance(name):
                I = Interp(P, Policy(opaque=lambda r: r['fn'].startswith(OPQ + ('tinytorch::TensorIterator',))))
                I.run(r)
                fe = [e for e in I.evs if e.kind == 'call' and e.fn.startswith(TI) and e.fn.endswith('::forEach')]
                if not fe: continue
                res.fn(r)
                n += 1
                key = name.split('::')[-1].split('<')[0]
                for e in fe:
                    it = strip_mut(e.obj)
                    su = [x for x in I.evs if x.kind == 'call' and x.fn.endswith('::setupBroadcast') and strip_mut(x.obj) is it and I.evs.index(x) < I.evs.index(e)]
                    if not res.check(bool(su), key + '/setup', loc_of(r, e.line()), '%s: elements are combined before the shapes are broadcast' % name, 'setupBroadcast precedes forEach'): continue
                    ok = any(p and is_ok(g) and strip_mut(g.a[1]) is it for g, p in e.gl)
                    res.check(ok, key + '/refuse', loc_of(r, e.line()), '%s: elements are combined although the shapes may be incompatible' % name, 'incompatible shapes are refused')
                    shape = su[-1].ret
                    o = strip_mut(e.args[0])
                    if o.op == 'new':
                        if not o.a[1]: raise Und('output')
                        res.check(same_shape(o.a[1][0], shape), key + '/out', loc_of(r, e.line()), '%s: the output has shape %s instead of the broadcast shape' % (name, show(o.a[1][0])[:60]), 'the output has the broadcast shape')
                    elif o.op == 'call' and o.a[0].split('::')[-1] in ('empty', 'zeros') and o.a[2]:
                        res.check(same_shape(o.a[2][0], shape), key + '/out', loc_of(r, e.line()), '%s: the output has shape %s instead of the broadcast shape' % (name, show(o.a[2][0])[:60]), 'the output has the broadcast shape')
                    elif o.op == 'param':
                        eq = any(p and g.op == '==' and agree(g, shape, o) for g, p in e.gl)
                        res.check(eq, key + '/fit', loc_of(r, e.line()), '%s: results are stored to %s although its shape may differ from the broadcast shape' % (name, o.a[1]), 'the output given has the broadcast shape')
                    else: raise Und('output ' + show(o)[:60])
    return n


def strip_mut(t):
    while t is not None and t.op == 'mut': t = t.a[0]
    return t


def is_ok(g): return g.op == 'call' and g.a[0].endswith('::isBroadcastOk') and g.a[1] is not None


def unview(t):
    t = bare(t)
    while t.op == 'new' and len(t.a[1]) == 1: t = bare(t.a[1][0])
    return t


def same_shape(t, shape): return unview(t) is unview(shape)


def agree(g, shape, o):
    a, b = [unview(x) for x in g.a]
    if b is unview(shape): a, b = b, a
    return a is unview(shape) and b.op == 'call' and b.a[0].endswith('::shape') and strip_mut(b.a[1]) is o


def check_bcast(res):
    P = res.p
    res.rule = 'element of every input combined for every output element, for all shapes'
    n = 0
    for name in sorted(P.by_name):
        if not (name.startswith(TI) and name.endswith('::forEach')): continue
        rs = P.by_name[name]
        k = name[len(TI):name.rindex('>')].count('Tensor')
        k = k if k else 0
        n += len(rs)
        with res.instance(name):
            Walk(res, rs[0], name[len(TI):name.rindex('>::')].count('tinytorch::Tensor')).check()
    for r in P.by_name.get('tinytorch::TensorIteratorBase::setupBroadcast', []): Setup(res, r).check()
    u = users(res)
    res.floor('walks', n, 80)
    res.floor('users', u, 80)
