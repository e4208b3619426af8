"""Evaluation of closed-form terms in small finite models (shapes, dimensions, values).
Used only to separate a genuine difference between an extracted formula and its definition from a difference of notation the normal form cannot bridge:
a mismatch is reported only together with a model in which the two formulas differ; everything else stays undecided."""
import math, random
from kern import *
from base import *


class NoEval(Exception): pass


class Skip(Exception): pass


class OOB(Skip): pass


def h(*a):
    """deterministic pseudo value in [1, 2) for an uninterpreted term"""
    x = 1469598103934665603
    for c in repr(a).encode(): x = ((x ^ c) * 1099511628211) & 0xffffffffffffffff
    return ((x >> 13) % 100003) / 100003.0


INV = {}
BINDERS = ('TRIPB', 'REC', 'APPS', 'SCAT', 'SUM', 'PROD')


def invariant(t):
    """loop counters the value of t may depend on, None if it depends on more than counters and the model"""
    r = INV.get(t, 0)
    if r == 0:
        its = set()
        r = None
        for x in subterms(t):
            if x.op in ('self', 'ld', 'hav', 'atom'): break
            if x.op == 'it': its.add(x.a[0])
            elif x.op in BINDERS: its.update(y + "'" for y in x.a[:1] if isinstance(y, str))
        else:
            r = tuple(sorted(its))
        INV[t] = r
    return r


class Model:
    def __init__(self, K, shapes, params, seed=0):
        self.K, self.shapes, self.params, self.seed = K, dict(shapes), params, seed
        self.its = {}
        self.budget = 2000000
        self.vmemo = {}
        self.ints = set()        # tensors holding integers (index tensors): loads give ints below the bound

    # -- shapes
    def shape(self, t):
        t = self.K.shapeof(t)
        s = self.shapes.get(t)
        if s is None:
            a = self.K.shapearg(t)
            if a is None: raise NoEval('shape of %s' % show(t)[:60])
            old, self.its = self.its, {}
            try:
                s = self.shapes[t] = [int(x) for x in self.lst(a)]
            finally:
                self.its = old
            if any(x < 0 for x in s): raise Skip()
        return s

    def lst(self, t):
        """value of a list term"""
        if t.op in ('mut', 'mutd'): raise NoEval('list changed by ' + show(t)[:60])
        if t.op == 'hav' or t.op == 'phi': return self.lst2(self.K.res(t, ()))
        return self.lst2(t)

    def lst2(self, t):
        op = t.op
        if op in ('mut', 'mutd'): raise NoEval('list changed by ' + show(t)[:60])
        if op == 'param':
            v = self.params.get(t)
            if not isinstance(v, (list, tuple)): raise NoEval(show(t))
            return list(v)
        if op == 'list': return [self.v(self.K.res(x, ())) if isinstance(x, T) else x for x in t.a[0]]
        if op == 'IOTA': return [self.v(self.K.res(t.a[1], ())) + k for k in range(len(self.lst(t.a[0])))]
        if op == 'STALE': return self.lst(t.a[1])
        if op == 'REV': return self.lst(t.a[0])[::-1]
        if op == 'FILL': return [self.v(self.K.res(t.a[1], ()))] * len(self.lst(t.a[0]))
        if op == 'LCPY':
            a, b, n = self.lst(t.a[0]), self.lst(t.a[1]), self.v(self.K.res(t.a[2], ()))
            if isinstance(b, Dflt): b = [b.get(k, 0) for k in range(n)]
            if n > len(b) or n > len(a): raise NoEval('copy')
            return b[:n] + a[n:]
        if op == 'RESZ':
            a, n = self.lst(t.a[0]), self.v(self.K.res(t.a[1], ()))
            x = self.v(self.K.res(t.a[2], ())) if len(t.a) > 2 else 0
            if n < 0: raise NoEval('resize')
            return (a + [x] * n)[:n] if not isinstance(a, Dflt) else [a.get(k, x) for k in range(n)]
        if op == 'INS':
            a, k = self.lst(t.a[0]), self.v(self.K.res(t.a[1], ()))
            if not 0 <= k <= len(a): raise NoEval('insert')
            return a[:k] + [self.v(self.K.res(t.a[2], ()))] + a[k:]
        if op == 'phi': return self.lst(t.a[1] if self.v(self.K.res(t.a[0], ())) else t.a[2])
        if op == 'app': return self.lst(t.a[0]) + [self.v(self.K.res(t.a[1], ()))]
        if op == 'new':
            if not t.a[1]: return []
            if len(t.a[1]) == 1 and isinstance(t.a[1][0], T):
                try:
                    return self.lst(t.a[1][0])
                except NoEval:
                    n = self.v(self.K.res(t.a[1][0], ()))
                    if not isinstance(n, int): raise
                    return [0] * n
            if len(t.a[1]) == 2: return [self.v(self.K.res(t.a[1][1], ()))] * self.v(self.K.res(t.a[1][0], ()))
            raise NoEval(show(t))
        if op == 'APPS':
            out = self.lst(t.a[3])
            for k in range(self.count(t.a[1])):
                self.its[t.a[0]] = k
                x = self.leaf(t.a[2])
                if x is not None: out.append(x)
            self.its.pop(t.a[0], None)
            return out
        if op == 'SCAT':
            out = list(self.lst(t.a[4])) if t.a[4].op not in ('new', 'c', 'zero') or (t.a[4].op == 'new' and t.a[4].a[1]) else None
            d = {}
            for k in range(self.count(t.a[1])):
                self.its[t.a[0]] = k
                d[self.v(t.a[2])] = self.v(t.a[3])
            self.its.pop(t.a[0], None)
            if out is None: return Dflt(d)
            for k, x in d.items():
                if not 0 <= k < len(out): raise NoEval('index')
                out[k] = x
            return out
        s = self.K.shapecall(t)
        if s is not None: return list(self.shape(s))
        if op == 'REC':
            lid, s, k, a, nx = t.a
            x = self.lst(a)
            if isinstance(x, Dflt): raise NoEval('list')
            b = lid + "'"
            old, os = self.its.get(b), self.params.get(s)
            for j in range(self.count(k)):
                self.its[b] = j
                self.params[s] = list(x)
                x = self.lst(nx)
            self.its.pop(b, None)
            self.params.pop(s, None)
            if old is not None: self.its[b] = old
            if os is not None: self.params[s] = os
            return x
        if op == 'self':
            v = self.params.get(t)
            if not isinstance(v, list): raise NoEval('self')
            return list(v)
        if op == 'st':
            out = self.lst(t.a[0])
            i = len(out) - 1 if t.a[1].op == 'last' else self.v(self.K.res(t.a[1], ()))
            if not 0 <= i < len(out): raise NoEval('index')
            out[i] = self.v(self.K.res(t.a[2], ()))
            return out
        raise NoEval('list ' + show(t)[:60])

    def at(self, b, e, body):
        old = self.its.get(b)
        self.its[b] = e
        r = self.v(body)
        self.its.pop(b)
        if old is not None: self.its[b] = old
        return r

    def leaf(self, t):
        if t is NONE: return None
        if t.op == 'phi': return self.leaf(t.a[1] if self.v(t.a[0]) else t.a[2])
        return self.v(t)

    def count(self, t):
        if t.op == 'TRIPB':
            b = t.a[0] + "'"
            for k in range(self.count(t.a[1])):
                old = self.its.get(b)
                self.its[b] = k
                stop = all(self.v(c) for c in t.a[2].a[0])
                self.its.pop(b, None)
                if old is not None: self.its[b] = old
                if stop: return k
            return self.count(t.a[1])
        n = self.v(t)
        if n != int(n): raise NoEval('count')
        return max(0, int(n))

    def idx(self, s, i):
        i = int(i)
        if not 0 <= i < len(s): raise OOB()
        return s[i]

    # -- values
    def v(self, t):
        if t.op in ('c', 'it', 'param', 'self'): return self.v_(t)
        fc = invariant(t)
        if fc is None: return self.v_(t)
        k = (t, tuple([self.its.get(x) for x in fc]))
        r = self.vmemo.get(k)
        if r is None:
            r = self.vmemo[k] = (self.v_(t),)
        return r[0]

    def v_(self, t):
        self.budget -= 1
        if self.budget < 0: raise NoEval('budget')
        op = t.op
        if op == 'c': return t.a[0]
        if op == 'it':
            if t.a[0] not in self.its: raise NoEval('free counter')
            return self.its[t.a[0]]
        if op == 'param':
            p = self.params.get(t)
            if p is None or isinstance(p, (list, tuple)): raise NoEval(show(t))
            return p
        if op in ('sz', 'strd'):        # shape(d) and stride(d) count negative d from the end
            s = self.shape(t.a[0])
            d = self.v(t.a[1])
            if -len(s) <= d < 0: d += len(s)
            self.idx(s, d)
            if op == 'sz': return s[d]
            return math.prod(s[d + 1:])
        if op == 'dim': return len(self.shape(t.a[0]))
        if op == 'numel': return math.prod(self.shape(t.a[0]))
        if op == 'nd':
            d = self.v(t.a[0])
            return d + len(self.shape(t.a[1])) if d < 0 else d
        if op == 'dig':
            k, b, n, body, d = t.a
            i, n, d = self.v(k), self.v(n), self.v(d)
            q = 1
            for e in range(d + 1, n): q *= self.at(b, e, body)
            B = self.at(b, d, body)
            return (i // q) % B if q and B else 0
        if op == 'REC':
            lid, s, k, a, nx = t.a
            x = self.v(a)
            b = lid + "'"
            old, os = self.its.get(b), self.params.get(s)
            for j in range(self.count(k)):
                self.its[b] = j
                self.params[s] = x
                x = self.v(nx)
            self.its.pop(b, None)
            self.params.pop(s, None)
            if old is not None: self.its[b] = old
            if os is not None: self.params[s] = os
            return x
        if op == 'self':
            if t not in self.params: raise NoEval('self')
            return self.params[t]
        if op in ('min', 'max') and len(t.a) == 2: return (min if op == 'min' else max)(self.v(t.a[0]), self.v(t.a[1]))
        if op == 'len': return len(self.lst(t.a[0]))
        if op == 'coord':
            s, d = self.shape(t.a[1]), self.v(t.a[2])
            n = self.idx(s, d)
            return (self.v(t.a[0]) // max(1, math.prod(s[d + 1:]))) % n if n else 0
        if op == 'elem':
            l = self.lst(t.a[0])
            if t.a[1].op == 'last' and not isinstance(l, Dflt):
                if not l: raise OOB()
                return l[-1]
            i = self.v(t.a[1])
            if isinstance(l, Dflt): return l.get(i, 0)
            return self.idx(l, i)
        if op in ('SUM', 'PROD', 'MAX', 'MIN') or op.startswith('ARG'): return self.big(t)
        if op == 'ld':
            a = self.v(t.a[1])
            if a != int(a): raise NoEval('address')
            return self.load(self.K.root(t.a[0]), int(a))
        if op == 'phi': return self.v(t.a[1]) if self.v(t.a[0]) else self.v(t.a[2])
        if op == 'not': return not self.v(t.a[0])
        if op == 'and': return all(self.v(x) for x in t.a)
        if op == 'or': return any(self.v(x) for x in t.a)
        if op == '<': return self.v(t.a[0]) < self.v(t.a[1])
        if op == '<=': return self.v(t.a[0]) <= self.v(t.a[1])
        if op == '==' :
            if self.K.shapecall(t.a[0]) is not None and self.K.shapecall(t.a[1]) is not None: return self.lst(t.a[0]) == self.lst(t.a[1])
            x, y = self.v(t.a[0]), self.v(t.a[1])
            return x == y
        if op == '+': return sum(self.v(x) for x in t.a)
        if op == '-':
            if len(t.a) == 1: return -self.v(t.a[0])
            return self.v(t.a[0]) - self.v(t.a[1])
        if op == 'neg': return -self.v(t.a[0])
        if op == '*': return math.prod(self.v(x) for x in t.a)
        if op in ('/', '%'):
            x, y = self.v(t.a[0]), self.v(t.a[1])
            if y == 0: raise Skip()
            if isinstance(x, int) and isinstance(y, int) and not isflt(t):
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if op == '/' else x - q * y
            if op == '%': raise NoEval('%')
            return x / y
        if op == 'cdiv': return -(-self.v(t.a[0]) // self.v(t.a[1]))
        if op == '<<': return self.v(t.a[0]) << self.v(t.a[1])
        if op == '>>': return self.v(t.a[0]) >> self.v(t.a[1])
        if op in ('tofloat',): return float(self.v(t.a[0]))
        if op in ('cast', 'fcast'): return self.v(t.a[-1])
        if op == 'bool': return bool(self.v(t.a[0]))
        if op == 'fld' and self.params.get(t) is not None: return self.params[t]
        if op == 'tcall':
            n = t.a[1]
            if t.a[0] == 'isScalar': return len(self.shape(n)) == 0
            if t in self.params: return self.params[t]
            if t.a[0] in ('defined', 'empty'): return t.a[0] == 'defined'
        f = alg.stdfn(t)
        if f:
            a = [self.v(x) for x in alg.fargs(t)]
            try:
                r = FN[f](*a)
            except KeyError:
                raise NoEval(f)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Skip()
            return r
        if op == 'call' and 'numeric_limits' in t.a[0]:
            n = t.a[0].split('::')[-1]
            return {'max': 1e30, 'lowest': -1e30, 'infinity': 1e35, 'epsilon': 1e-7}.get(n) or self.no(t)
        if op in ('atom', 'fld', 'enum', 'glob') : return 1.0 + h(self.seed, t.id)
        if op == 'new' and t.a[0] in RED and len(t.a[1]) == 2 and isinstance(cval(t.a[1][0]), int): return -1e30 if cval(t.a[1][0]) & 0x8000 else 1e30
        if op == 'new' and t.a[0] in RED and len(t.a[1]) == 1: return self.v(t.a[1][0])
        raise NoEval(op + ' ' + show(t)[:60])

    def no(self, t): raise NoEval(show(t)[:60])

    def load(self, root, a):
        n = self.ints_bound(root)
        if n is not None: return int(h(self.seed, 'i', root.id, a) * 100003) % n
        x = h(self.seed, root.id, a)
        return (x - 0.4) * 3 if self.seed % 2 == 0 else float(int(x * 3)) - 1.0

    def ints_bound(self, root): return self.intb(root) if getattr(self, 'intb', None) else None

    def big(self, t):
        op, l = t.op, t.a[0]
        n = self.count(t.a[1])
        old = self.its.get(l)
        arg = op.startswith('ARG')
        acc = {'SUM': 0, 'PROD': 1}.get(op)
        if not arg and acc is None: acc = self.v(t.a[3]) if len(t.a) > 3 else None
        best = self.v(t.a[-1].a[0]) if arg and t.a[-1].op == 'start' else None
        res = self.v(t.a[3]) if arg else None
        for k in range(n):
            self.its[l] = k
            x = self.v(t.a[2])
            if op == 'SUM': acc = acc + x
            elif op == 'PROD': acc = acc * x
            elif op == 'MAX': acc = x if acc is None else max(acc, x)
            elif op == 'MIN': acc = x if acc is None else min(acc, x)
            else:
                up = 'MAX' in op
                if best is None or (x > best if up else x < best) or (x == best and (op.endswith('L') or op.endswith('X') and self.v(t.a[5]))): best, res = x, self.v(t.a[4])
        if old is None: self.its.pop(l, None)
        else: self.its[l] = old
        if arg: return res
        if acc is None: raise Skip()
        return acc


class Dflt(dict):
    """array with default zero"""


def sgm(x): return 1 / (1 + math.exp(-x))


FN = dict(exp=math.exp, log=math.log, sqrt=math.sqrt, abs=abs, fabs=abs, max=max, min=min, pow=lambda a, b: float(a) ** b, sin=math.sin, cos=math.cos, tanh=math.tanh, erf=math.erf,
          floor=math.floor, ceil=math.ceil, expm1=math.expm1, log1p=math.log1p, tan=math.tan, log2=math.log2, log10=math.log10)


def samples(K, rec, n=60, seed=7, dims=None, fixed=None, params=None, ndim=(0, 4)):
    """models for a kernel: every tensor parameter that is its own shape representative gets a random shape; integer parameters named by role"""
    rnd = random.Random(seed)
    for i in range(n):
        shapes, ps = {}, {}
        for p, d in zip(K.ps, rec['ps']):
            ty = strip_cvref(d['t'])
            if ty == 'tinytorch::Tensor':
                r = K.shapeof(p)
                if r not in shapes and r.op == 'param': shapes[r] = [rnd.randint(1, 4) for _ in range(rnd.randint(*ndim))]
        if fixed: fixed(K, rnd, shapes, ps)
        m0 = next(iter(shapes.values()), [2, 3])
        D = len(m0)
        for p, d in zip(K.ps, rec['ps']):
            if p in ps: continue
            ty = strip_cvref(d['t'])
            if ty == 'bool': ps[p] = rnd.random() < .5
            elif ty in ('float', 'double'): ps[p] = 0.1 + rnd.random()
            elif ty in ('int', 'long', 'unsigned long', 'unsigned int'):
                ps[p] = rnd.randint(-D, D - 1) if D else 0
            elif 'ArrayView<long>' in ty or 'IntArrayView' in ty:
                k = rnd.randint(1, D) if D else 0
                ps[p] = [x - (D if rnd.random() < .3 else 0) for x in rnd.sample(range(D), k)]
        yield Model(K, shapes, ps, i)


def close(x, y):
    if isinstance(x, str): return False
    if isinstance(x, (int, bool)) and isinstance(y, (int, bool)): return x == y
    if x == y: return True
    return abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y))


def differ(K, s, got, want, models):
    """witness model in which the two terms differ at some iteration of store s, 'same' when none of the models separates them, None when they cannot be evaluated"""
    n = 0
    why = None
    for m in models:
        try:
            if s is not None:
                for j in range(4):
                    m.its = {}
                    rnd = random.Random(hash((m.seed, j)))
                    ok = True
                    for l, N in s.nest:
                        c = m.count(N)
                        if c <= 0:
                            ok = False
                            break
                        m.its[l] = rnd.randrange(c)
                    if not ok: break
                    for c, p in s.conds:
                        try:
                            if bool(m.v(c)) != p: ok = False
                        except NoEval: pass
                    if not ok: continue
                    y = m.v(want)
                    try: x = m.v(got)
                    except OOB: x = 'an access outside the tensor'
                    n += 1
                    if not close(x, y): return dict(shapes=[(show(k)[:40], v) for k, v in m.shapes.items()], params={show(k)[:40]: v for k, v in m.params.items()}, its=[m.its[l] for l, _ in s.nest], got=x, want=y)
            else:
                m.its = {}
                y = m.v(want)
                try: x = m.v(got)
                except OOB: x = 'an access outside the tensor'
                n += 1
                if not close(x, y): return dict(shapes=[(show(k)[:40], v) for k, v in m.shapes.items()], params={show(k)[:40]: v for k, v in m.params.items()}, got=x, want=y)
        except Skip:
            continue
        except (NoEval, Undecided) as e:
            why = why or e
            continue
    if why is not None and n == 0: return None
    return 'same' if n else None


def lists_differ(K, got, want, models):
    """same for list terms (shapes)"""
    n = 0
    for m in models:
        try:
            x, y = m.lst(got), want(m)
        except (Skip, NoEval, Undecided):
            continue
        n += 1
        if list(x) != list(y): return dict(shapes=[(show(k)[:40], v) for k, v in m.shapes.items()], params={show(k)[:40]: v for k, v in m.params.items()}, got=x, want=y)
    return 'same' if n else None


def models(K, rec, n=200): return list(samples(K, rec, n, ndim=(1, 5)))


def decide(res, K, r, s, got, want, key, msg, integer=False, note=''):
    """equal by normal form: discharged; different in a finite model: violation; otherwise undecided"""
    try:
        ok = same_int(got, want) if integer else kequal(got, want)[0]
    except Undecided:
        ok = False
    if ok:
        res.ok('%s: %s' % (key, show(want)[:110]))
        return True
    w = differ(K, s, got, want, models(K, r.fn))
    if isinstance(w, dict):
        res.bad(key, evloc(s.e) if s is not None else loc_of(r.fn), '%s; they differ e.g. for %s' % (msg, wit(w)), detail=[show(got), show(want)])
        return False
    raise Unk('%s: %s' % (key, 'no difference found' if w == 'same' else 'not comparable'))


def wit(w):
    o = ', '.join('%s %s' % (k.split('(')[0], v) for k, v in w['shapes'])
    p = ', '.join('%s=%s' % kv for kv in w['params'].items())
    return '%s%s: %s instead of %s' % (o, ' with ' + p if p else '', w['got'], w['want'])
