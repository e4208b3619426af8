"""Hash-consed provenance terms."""

class T:
    __slots__ = ('op', 'a', 'id', '_s')
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + a
    t = T._tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        T._n += 1
        t.id = T._n
        t._s = None
        T._tab[k] = t
    return t


def C(v, kind='int'):
    if isinstance(v, bool):
        v = int(v)
    return mk('c', v, kind)


TRUE = C(1, 'bool')
FALSE = C(0, 'bool')
NULL = mk('null')
UNK = mk('unk')
VOID = mk('void')


def isconst(t):
    return t.op == 'c' and isinstance(t.a[0], (int, float))


def cval(t):
    if t.op == 'c':
        return t.a[0]
    if t.op == 'enum':
        return t.a[1]
    if t.op == 'null':
        return 0
    return None


def neg(t):
    if t.op == 'not':
        return t.a[0]
    if t.op == 'c':
        return C(0 if t.a[0] else 1, 'bool')
    if t.op == 'null':
        return TRUE
    if t.op == 'str':
        return FALSE
    return mk('not', t)


COMM = {'+', '*', '==', '&', '|', '^'}


def binop(op, x, y):
    if op == '>':
        return binop('<', y, x)
    if op == '>=':
        return binop('<=', y, x)
    if op == '!=':
        return neg(binop('==', x, y))
    if op == '&&':
        return t_and(x, y)
    if op == '||':
        return t_or(x, y)
    cx, cy = cval(x), cval(y)
    if cx is not None and cy is not None and isinstance(cx, int) and isinstance(cy, int):
        try:
            if op == '+': return C(cx + cy)
            if op == '-': return C(cx - cy)
            if op == '*': return C(cx * cy)
            if op == '==': return C(cx == cy, 'bool')
            if op == '<': return C(cx < cy, 'bool')
            if op == '<=': return C(cx <= cy, 'bool')
            if op == '/' and cy: return C(int(cx / cy))
            if op == '%' and cy: return C(cx - cy * int(cx / cy))
            if op == '<<': return C(cx << cy)
            if op == '>>': return C(cx >> cy)
            if op == '&': return C(cx & cy)
            if op == '|': return C(cx | cy)
        except Exception:
            pass
    if x is y:
        if op in ('==', '<='): return TRUE
        if op == '<': return FALSE
        if op == '-': return C(0)
    if op in ('+', '-') and cy == 0: return x
    if op == '+' and cx == 0: return y
    if op == '*' and cy == 1: return x
    if op == '*' and cx == 1: return y
    if op == '/' and cy == 1: return x
    # null comparisons become truthiness
    if op == '==':
        if y.op == 'null' or (y.op == 'c' and y.a[1] == 'bool' and y.a[0] == 0): return neg(truth(x))
        if x.op == 'null' or (x.op == 'c' and x.a[1] == 'bool' and x.a[0] == 0): return neg(truth(y))
        if y.op == 'c' and y.a[1] == 'bool' and y.a[0] == 1: return truth(x)
        if x.op == 'c' and x.a[1] == 'bool' and x.a[0] == 1: return truth(y)
    if op in COMM and y.id < x.id:
        x, y = y, x
    return mk(op, x, y)


def truth(t):
    v = cval(t)
    if v is not None:
        return C(1 if v else 0, 'bool')
    if t.op in ('addr', 'new', 'fnref', 'lam', 'str'):
        return TRUE
    return t


def t_and(x, y):
    x, y = truth(x), truth(y)
    if x is FALSE or y is FALSE: return FALSE
    if x is TRUE: return y
    if y is TRUE: return x
    if x is y: return x
    return mk('and', x, y)


def t_or(x, y):
    x, y = truth(x), truth(y)
    if x is TRUE or y is TRUE: return TRUE
    if x is FALSE: return y
    if y is FALSE: return x
    if x is y: return x
    return mk('or', x, y)


def phi(c, x, y):
    if x is y: return x
    if c is TRUE: return x
    if c is FALSE: return y
    if c.op == 'not':
        return phi(c.a[0], y, x)
    if x is TRUE and y is FALSE: return c
    if x is FALSE and y is TRUE: return neg(c)
    # nested resolution
    if x.op == 'phi' and x.a[0] is c: x = x.a[1]
    if y.op == 'phi' and y.a[0] is c: y = y.a[2]
    if x is y: return x
    # boolean shapes
    if x is TRUE and isboolish(y): return t_or(c, y)
    if y is FALSE and isboolish(x): return t_and(c, x)
    return mk('phi', c, x, y)


BOOLOPS = {'==', '<', '<=', 'not', 'and', 'or'}


def isboolish(t):
    return t.op in BOOLOPS or (t.op == 'c' and t.a[1] == 'bool')


def children(t):
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            st.extend(x)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, p):
    for x in subterms(t):
        if x is p:
            return True
    return False


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 7:
        return '..'
    op, a = t.op, t.a
    if op == 'c': return str(a[0])
    if op == 'enum': return a[0].split('::')[-1]
    if op == 'str': return repr(a[0])
    if op in ('null', 'this', 'unk', 'void'): return op
    if op == 'param': return a[1]
    if op == 'fld':
        return show(a[0], d + 1) + '.' + a[1]
    if op == 'F': return show(a[0], d + 1) + '.' + a[1]
    if op == 'V': return 'v%s_%s' % (a[0], a[1]) if len(a) < 3 or not a[2] else '%s' % a[2]
    if op == 'D': return '*' + show(a[0], d + 1)
    if op == 'E': return '%s[%s]' % (show(a[0], d + 1), show(a[1], d + 1))
    if op == 'elem': return '%s[%s]' % (show(a[0], d + 1), show(a[1], d + 1))
    if op == 'deref': return '*' + show(a[0], d + 1)
    if op == 'call':
        n = a[0].split('::')
        n = '::'.join(n[-2:])
        o = show(a[1], d + 1) + '.' if a[1] is not None else ''
        return o + n + '(' + ', '.join(show(x, d + 1) for x in a[2]) + ')'
    if op == 'new':
        return 'new:' + str(a[0]) + '(' + ', '.join(show(x, d + 1) for x in a[1]) + ')'
    if op == 'phi': return '(%s ? %s : %s)' % tuple(show(x, d + 1) for x in a)
    if op == 'hav': return '~%s@%s' % (a[2], a[0])
    if op == 'mut': return 'mut(%s,#%s)' % (show(a[0], d + 1), a[1])
    if op == 'not': return '!' + show(a[0], d + 1)
    if op in ('+', '-', '*', '/', '%', '==', '<', '<=', 'and', 'or', '&', '|', '<<', '>>', '^'):
        return '(%s %s %s)' % (show(a[0], d + 1), op, show(a[1], d + 1))
    return op + '(' + ', '.join(show(x, d + 1) for x in a) + ')'


def mapt(y, memo):
    return tuple(memo[z] if isinstance(z, T) else mapt(z, memo) if isinstance(z, tuple) else z for z in y)


def rewrite(t, f, memo=None):
    """bottom-up rewriting of a term: f(term) -> replacement or None"""
    if memo is None: memo = {}
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        ch = [y for y in children(x) if y not in memo]
        if ch:
            st.extend(ch)
            continue
        a = tuple(memo[y] if isinstance(y, T) else mapt(y, memo) if isinstance(y, tuple) else y for y in x.a)
        n = x if a == x.a else mk(x.op, *a)
        r = f(n)
        memo[x] = n if r is None else r
        st.pop()
    return memo[t]


def subst(t, m):
    """top-down replacement of the terms in m (outermost first, replacements not revisited)"""
    memo = {}

    def go(x):
        if x in m: return m[x]
        r = memo.get(x)
        if r is None:
            a = tuple(gt(y) for y in x.a)
            r = x if a == x.a else mk(x.op, *a)
            memo[x] = r
        return r

    def gt(y):
        if isinstance(y, T): return go(y)
        if isinstance(y, tuple): return tuple(gt(z) for z in y)
        return y
    return go(t)
