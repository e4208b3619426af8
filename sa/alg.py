"""Algebra of the scalar expressions found in the code: rational functions over atoms with symbolic exponents,
plus a finite decision over orderings for values that are only compared.  Decides equality of two extracted
expressions up to the field laws, e^x laws and the meaning of comparisons; nothing is evaluated numerically."""
from fractions import Fraction
from itertools import product
from term import *


class Undecided(Exception):
    pass


class Missing(Undecided):
    def __init__(self, rs):
        Undecided.__init__(self, 'comparison outside the ordering')
        self.rs = rs


def num(v):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return Fraction(v)
    if isinstance(v, Fraction): return v
    if v != v or v in (float('inf'), float('-inf')):
        return None
    return Fraction('%.7g' % v)


# ---- polynomials: dict {monomial: coeff}; monomial = tuple of (atom, exponent) sorted; exponent = frozen poly
def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def fz(p):
    return tuple(sorted(p.items(), key=lambda kv: repr(kv[0])))


def unfz(t):
    return dict(t)


ONE_E = fz({(): Fraction(1)})


def p_atom(a, e=None):
    return {((a, e or ONE_E),): Fraction(1)}


def p_add(x, y, k=1):
    r = dict(x)
    for m, c in y.items():
        v = r.get(m, 0) + c * k
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def m_mul(a, b):
    d = dict(a)
    for at, e in b:
        if at in d:
            s = p_add(unfz(d[at]), unfz(e))
            if s: d[at] = fz(s)
            else: del d[at]
        else:
            d[at] = e
    return tuple(sorted(d.items(), key=lambda kv: repr(kv[0])))


def p_mul(x, y):
    r = {}
    for m1, c1 in x.items():
        for m2, c2 in y.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v: r[m] = v
            else: r.pop(m, None)
    if len(r) > 4000: raise Undecided('expression too large')
    return r


class R:
    """rational function num/den"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        d = d if d is not None else p_const(1)
        if len(d) == 1:
            (m, c), = d.items()
            if m != () or c != 1:
                inv = {tuple((a, fz({k: -v for k, v in unfz(e).items()})) for a, e in m): 1 / c}
                n = p_mul(n, inv)
                d = p_const(1)
        self.n, self.d = n, d

    def key(self):
        if len(self.d) == 1: return ('R', fz(self.n))
        lead = max(self.d.items(), key=lambda kv: repr(kv[0]))[1]
        return ('R', fz({m: c / lead for m, c in self.n.items()}), fz({m: c / lead for m, c in self.d.items()}))

    def const(self):
        if len(self.d) == 1 and all(m == () for m in self.n):
            return self.n.get((), Fraction(0))
        return None

    def __add__(s, o):
        if s.d == o.d: return R(p_add(s.n, o.n), s.d)
        return R(p_add(p_mul(s.n, o.d), p_mul(o.n, s.d)), p_mul(s.d, o.d))

    def __neg__(s): return R({m: -c for m, c in s.n.items()}, s.d)
    def __sub__(s, o): return s + (-o)
    def __mul__(s, o): return R(p_mul(s.n, o.n), p_mul(s.d, o.d))

    def __truediv__(s, o):
        if not o.n: raise Undecided('division by zero')
        return R(p_mul(s.n, o.d), p_mul(s.d, o.n))


def const(c): return R(p_const(num(c)))
def atom(a): return R(p_atom(a))


def rpow(b, e):
    ec = e.const()
    if ec is not None and ec.denominator == 1 and abs(ec) <= 8:
        k = int(ec)
        r = const(1)
        for _ in range(abs(k)): r = r * b
        return r if k >= 0 else const(1) / r
    if len(e.d) == 1 and len(b.d) == 1 and len(b.n) == 1:
        (m, c), = b.n.items()
        if c == 1:
            r = const(1)
            for a, x in m:
                r = r * R(p_atom(a, fz(p_mul(unfz(x), e.n))))
            return r
    if len(e.d) == 1:
        if not e.n: return const(1)
        return R({((('base', b.key()), fz(e.n)),): Fraction(1)})
    return atom(('pow', b.key(), e.key()))


def rexp(e):
    if len(e.d) == 1:
        if not e.n: return const(1)
        return R({(('E', fz(e.n)),): Fraction(1)})
    return atom(('exp', e.key()))


def rlog(b):
    if len(b.d) == 1 and len(b.n) == 1:
        (m, c), = b.n.items()
        es = [e for a, e in m if a == 'E']
        if es:
            rest = tuple((a, e) for a, e in m if a != 'E')
            r = R(unfz(es[0]))
            return r if c == 1 and not rest else r + rlog(R({rest: c}))
        if c == 1 and not m: return const(0)
    return atom(('log', b.key()))


def lead_neg(r):
    if not r.n: return False
    return max(r.n.items(), key=lambda kv: repr(kv[0]))[1] < 0


ODD = {'sin', 'tan', 'tanh', 'sinh', 'erf', 'atan', 'asin'}
EVEN = {'cos', 'cosh'}


def rfn(name, args):
    if name == 'exp': return rexp(args[0])
    if name == 'log': return rlog(args[0])
    if name == 'sqrt': return rpow(args[0], R(p_const(Fraction(1, 2))))
    if name == 'pow': return rpow(args[0], args[1])
    if name in ODD and lead_neg(args[0]): return -atom((name, (-args[0]).key()))
    if name in EVEN and lead_neg(args[0]): return atom((name, (-args[0]).key()))
    return atom((name,) + tuple(a.key() for a in args))


def is_zero(p, scale):
    return all(abs(c) <= Fraction(1, 50000) * scale for c in p.values())


def same(a, b):
    x, y = p_mul(a.n, b.d), p_mul(b.n, a.d)
    sc = max([abs(c) for c in list(x.values()) + list(y.values())] or [Fraction(1)])
    return is_zero(p_add(x, y, -1), sc)


CMP = {'<', '<=', '=='}
FNS = {'exp', 'log', 'sin', 'cos', 'tanh', 'sqrt', 'pow', 'abs', 'fabs', 'max', 'min', 'tan', 'erf', 'expf', 'logf', 'sinf', 'cosf', 'tanhf', 'sqrtf', 'powf',
       'fabsf', 'fmax', 'fmin', 'fmaxf', 'fminf', 'isinf', 'isnan', 'floor', 'ceil', 'round'}
FNALIAS = {'expf': 'exp', 'logf': 'log', 'sinf': 'sin', 'cosf': 'cos', 'tanhf': 'tanh', 'sqrtf': 'sqrt', 'powf': 'pow', 'fabs': 'abs', 'fabsf': 'abs',
           'fmax': 'max', 'fmaxf': 'max', 'fmin': 'min', 'fminf': 'min'}


def stdfn(t):
    """name of the std math function a call term applies, or None"""
    if t.op in ('max', 'min') and len(t.a) == 2: return t.op
    if t.op != 'call': return None
    fn = t.a[0]
    s = fn.split('::')[-1].split('<')[0]
    if t.a[1] is not None or not t.a[2]: return None
    if fn == s or fn.startswith('std::') or fn.startswith('tinytorch::math::'):
        if s in FNS: return FNALIAS.get(s, s)
    return None


def fargs(t):
    return t.a[2] if t.op == 'call' else t.a


class Conv:
    """term -> R under an ordering of compared operands"""
    LEAF = ()

    def __init__(self, atomof=None):
        self.atomof = atomof or (lambda t: None)
        self.pairs = []
        self.rank = None
        self.memo = {}

    # collection of compared operands
    def ops(self, t, seen, out):
        st = [t]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            r = self.atomof(x)
            if r is not None or x.op in self.LEAF: continue
            if x.op in CMP:
                out.append((x.a[0], x.a[1]))
            elif x.op == 'phi':
                self.truths(x.a[0], out)
            elif x.op in ('not', 'and', 'or'):
                for y in x.a: self.truths(y, out)
            elif x.op in ('call', 'max', 'min'):
                s = stdfn(x)
                if s in ('max', 'min'): out.append(fargs(x)[:2])
                if s == 'abs': out.append((x.a[2][0], C(0)))
                if s is None: continue
            st.extend(children(x))

    def truths(self, c, out):
        if c.op in CMP or c.op in ('not', 'and', 'or') or c.op == 'c': return
        if c.op == 'phi':
            for y in c.a: self.truths(y, out)
            return
        out.append((c, C(0)))

    def opkey(self, t):
        return self.conv(t).key()

    def less(self, x, y):
        """-1, 0, 1 of x ? y in current ordering"""
        x, y = self.norm_pair(x, y)
        cx, cy = self.conv0(x), self.conv0(y)
        a, b = cx.const(), cy.const()
        if a is not None and b is not None:
            return (a > b) - (a < b)
        if same(cx, cy): return 0
        kx, ky = cx.key(), cy.key()
        rx, ry = self.rank.get(kx), self.rank.get(ky)
        if rx is None or ry is None: raise Missing([r for r, k in ((cx, rx), (cy, ry)) if k is None])
        return (rx > ry) - (rx < ry)

    def norm_pair(self, x, y):
        if x.op == '-' and len(x.a) == 2 and y.op == 'c' and y.a[0] == 0: return x.a[0], x.a[1]
        if y.op == '-' and len(y.a) == 2 and x.op == 'c' and x.a[0] == 0: return y.a[1], y.a[0]
        return x, y

    def conv0(self, t):
        """operand of a comparison: converted without the ordering where possible"""
        return self.conv(t)

    def cond(self, t):
        if t.op == 'c': return bool(t.a[0])
        if t.op == 'not': return not self.cond(t.a[0])
        if t.op == 'and': return self.cond(t.a[0]) and self.cond(t.a[1])
        if t.op == 'or': return self.cond(t.a[0]) or self.cond(t.a[1])
        if t.op == '<': return self.less(*t.a) < 0
        if t.op == '<=': return self.less(*t.a) <= 0
        if t.op == '==': return self.less(*t.a) == 0
        if t.op == 'phi': return self.cond(t.a[1]) if self.cond(t.a[0]) else self.cond(t.a[2])
        return self.less(t, C(0)) != 0

    def conv(self, t):
        if not isinstance(t, T): return const(t)
        k = self.memo.get(t)
        if k is None:
            k = self.conv_(t)
            self.memo[t] = k
        return k

    def conv_(self, t):
        a = self.atomof(t)
        if a is not None:
            if isinstance(a, R): return a
            if isinstance(a, (int, float, Fraction)): return const(a)
            return atom(a)
        op = t.op
        if op == 'c':
            n = num(t.a[0])
            return atom(('c', str(t.a[0]))) if n is None else R(p_const(n))
        if op == 'enum': return atom(('enum', t.a[0]))
        if op == '+': return self.conv(t.a[0]) + self.conv(t.a[1])
        if op == '-' and len(t.a) == 2: return self.conv(t.a[0]) - self.conv(t.a[1])
        if op in ('neg', '-'): return -self.conv(t.a[0])
        if op == '*': return self.conv(t.a[0]) * self.conv(t.a[1])
        if op == '/': return self.conv(t.a[0]) / self.conv(t.a[1])
        if op == 'phi': return self.conv(t.a[1] if self.cond(t.a[0]) else t.a[2])
        if op in CMP or op in ('not', 'and', 'or'): return const(1 if self.cond(t) else 0)
        if op in ('cast', 'fcast', 'tofloat', 'bool') and t.a and isinstance(t.a[-1], T): return self.conv(t.a[-1])
        s = stdfn(t)
        if s:
            args = fargs(t)
            if s == 'max': return self.conv(args[0] if self.less(args[0], args[1]) >= 0 else args[1])
            if s == 'min': return self.conv(args[0] if self.less(args[0], args[1]) <= 0 else args[1])
            if s == 'abs':
                c = self.less(args[0], C(0))
                return self.conv(args[0]) if c >= 0 else -self.conv(args[0])
            return rfn(s, [self.conv(x) for x in args])
        return atom(('t', t.id))


def weak_orders(n):
    """all rank assignments (weak orderings) of n items"""
    seen = set()
    for r in product(range(n), repeat=n):
        used = sorted(set(r))
        c = tuple(used.index(x) for x in r)
        if c not in seen:
            seen.add(c)
            yield c


def equal(x, y, atomof=None, assume=None, conv=None):
    """do terms x and y denote the same scalar for all values of their atoms (positive bases for fractional powers)?
    returns (bool, explanation)"""
    conv = conv or Conv
    probe = conv(atomof)
    pairs = []
    seen = set()
    probe.ops(x, seen, pairs)
    probe.ops(y, seen, pairs)
    if not pairs:
        a, b = probe.conv(x), probe.conv(y)
        return same(a, b), '%s  vs  %s' % (pr(a), pr(b))
    keys = {}
    base = conv(atomof)
    base.rank = {}
    for p, q in pairs:
        p, q = base.norm_pair(p, q)
        for o in (p, q):
            try:
                r = base.conv(o)
            except Undecided:
                continue
            keys.setdefault(r.key(), r)
    while True:
        if len(keys) > 5: raise Undecided('too many compared operands (%d)' % len(keys))
        try:
            return equal_in(x, y, atomof, keys, assume, conv)
        except Missing as m:
            n0 = len(keys)
            for r in m.rs: keys.setdefault(r.key(), r)
            if len(keys) == n0: raise


def equal_in(x, y, atomof, keys, assume, conv=None):
    ks = list(keys)
    consts = {k: r.const() for k, r in keys.items() if r.const() is not None}
    for ranks in weak_orders(len(ks)):
        rank = dict(zip(ks, ranks))
        if any((consts[a] < consts[b]) != (rank[a] < rank[b]) for a in consts for b in consts): continue
        sub = {}
        for i, k in enumerate(ks):
            for k2 in ks[:i]:
                if rank[k2] == rank[k]:
                    sub.setdefault(k, k2)
                    break
        c = (conv or Conv)(atomof)
        c.rank = rank
        if assume and not assume(rank, keys): continue
        a, b = c.conv(x), c.conv(y)
        if not same(a, b):
            # equalities between operands of this ordering
            if sub and same_mod(a, b, sub, keys): continue
            order = ' ; '.join('%s:%d' % (pr(keys[k]), rank[k]) for k in ks)
            return False, 'under ordering [%s]: %s  vs  %s' % (order, pr(a), pr(b))
    return True, ''


def same_mod(a, b, sub, keys):
    """equality modulo the substitutions operand k -> operand sub[k], where k or sub[k] is a bare atom"""
    m = {}
    for k, k2 in sub.items():
        for p, q in ((k, k2), (k2, k)):
            r = keys[p]
            if len(r.d) == 1 and len(r.n) == 1:
                (mono, c), = r.n.items()
                if c == 1 and len(mono) == 1 and mono[0][1] == ONE_E:
                    m[mono[0][0]] = keys[q]
                    break
    if not m: return False

    def s(r):
        def sp(p):
            out = const(0)
            for mono, c in p.items():
                t = R(p_const(c))
                for at, e in mono:
                    t = t * (rpow(m[at], R(unfz(e))) if at in m else R(p_atom(at, e)))
                out = out + t
            return out
        return sp(r.n) / sp(r.d)
    try:
        return same(s(a), s(b))
    except Undecided:
        return False


def pr(r):
    def pa(a):
        if isinstance(a, tuple): return '(' + ' '.join(pa(x) for x in a) + ')'
        return str(a)

    def pp(p):
        if not p: return '0'
        out = []
        for m, c in sorted(p.items(), key=lambda kv: repr(kv[0])):
            s = [] if (c == 1 and m) else [str(float(c)) if c.denominator != 1 else str(c)]
            for a, e in m:
                ee = unfz(e)
                cst = ee.get(()) if len(ee) == 1 and () in ee else None
                s.append(pa(a) if cst == 1 else '%s^(%s)' % (pa(a), pp(ee)))
            out.append('*'.join(s))
        return ' + '.join(out)
    s = pp(r.n)
    return s if len(r.d) == 1 else '(%s)/(%s)' % (s, pp(r.d))


# ---- spec terms --------------------------------------------------------------------------------------------
def v(name): return mk('atom', name)
def call(fn, *a): return mk('call', 'std::' + fn, None, tuple(a), 0)
def add(x, y): return mk('+', x, y)
def sub(x, y): return mk('-', x, y)
def mul(x, y): return mk('*', x, y)
def div(x, y): return mk('/', x, y)
def ng(x): return mk('neg', x)
def ite(c, x, y): return mk('phi', c, x, y)
def lt(x, y): return mk('<', x, y)
def le(x, y): return mk('<=', x, y)


def diff(t, x):
    """symbolic derivative of a spec term with respect to atom x"""
    op = t.op
    if t is x: return C(1)
    if op in ('atom', 'c') or not contains(t, x): return C(0)
    if op == '+': return add(diff(t.a[0], x), diff(t.a[1], x))
    if op == '-': return sub(diff(t.a[0], x), diff(t.a[1], x))
    if op == 'neg': return ng(diff(t.a[0], x))
    if op == '*': return add(mul(diff(t.a[0], x), t.a[1]), mul(t.a[0], diff(t.a[1], x)))
    if op == '/':
        return div(sub(mul(diff(t.a[0], x), t.a[1]), mul(t.a[0], diff(t.a[1], x))), mul(t.a[1], t.a[1]))
    if op == 'phi': return ite(t.a[0], diff(t.a[1], x), diff(t.a[2], x))
    if op in ('tofloat', 'fcast', 'cast') and isinstance(t.a[-1], T): return diff(t.a[-1], x)
    s = stdfn(t)
    if s is None: raise Undecided('no derivative for ' + op)
    u = fargs(t)[0]
    if s == 'abs': return ite(lt(u, C(0)), ng(diff(u, x)), diff(u, x))
    if s in ('max', 'min'):
        w = fargs(t)[1]
        c = lt(u, w) if s == 'max' else lt(w, u)
        return ite(c, diff(w, x), diff(u, x))
    if s == 'sin': return mul(call('cos', u), diff(u, x))
    if s == 'cos': return ng(mul(call('sin', u), diff(u, x)))
    if s == 'exp': return mul(t, diff(u, x))
    if s == 'log': return div(diff(u, x), u)
    if s == 'sqrt': return div(diff(u, x), mul(C(2), t))
    if s == 'tanh': return mul(sub(C(1), mul(t, t)), diff(u, x))
    if s == 'pow':
        e = t.a[2][1]
        return add(mul(mul(e, call('pow', u, sub(e, C(1)))), diff(u, x)), mul(mul(t, call('log', u)), diff(e, x)))
    raise Undecided('no derivative for ' + s)
