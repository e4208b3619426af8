"""Element counts, extents, strides and offsets are carried in 64 bits: a flow-insensitive, interprocedural origin analysis over the type-checked syntax tree.
Every expression gets the set of its origins: C (number of elements, extent, stride, byte count or something computed from one), F (such a number that went through a 32-bit float);
axis numbers, ranks and lengths of lists carry none.  A value of origin C must not be converted to a narrower integer, bound a loop whose counter is narrower, or come back from a 32-bit float."""
import re
from base import *

W64 = re.compile(r'(long|int64_t|size_t|ptrdiff_t|difference_type|size_type)')
N32 = re.compile(r'^(unsigned |signed )?(int|short|char|int)$|^(u?int(8|16|32)_t)$')
CONT = re.compile(r'(SizeVector|SmallVector|ArrayView|DimArray|IntArrayView|std::vector<(long|int64_t|size_t|unsigned long)|std::array<)')
SEED = re.compile(r'tinytorch::Tensor(Impl)?::(numel|nbytes|shape|sizes|size|strides?)$')
COUNT0 = {'numel', 'nbytes'}


def base(t): return re.sub(r'^(const|volatile) ', '', (t or '')).replace(' &', '').strip()
def narrow(t): return bool(N32.match(base(t)))
def wide(t): return not narrow(t) and bool(W64.search(base(t))) and '*' not in t and '<' not in t
def strip(n):
    while n and n.get('k') in ('ICast', 'Cast', 'Paren'): n = n['e']
    return n


class Flow:
    def __init__(self, P):
        self.P = P
        self.O = {}
        self.stp = {}
        self.ch = True
        self.recs = [r for r in P.funcs.values() if r.get('body') is not None]
        it = 0
        while self.ch and it < 30:
            self.ch = False
            it += 1
            for r in self.recs: self.scan(r)
        self.rounds = it

    def add(self, key, s):
        if key is None or not s: return
        o = self.O.setdefault(key, set())
        if not s <= o:
            o |= s
            self.ch = True

    def key(self, n, r):
        """storage an lvalue expression belongs to"""
        n = strip(n)
        if not n: return None
        k = n['k']
        if k == 'Ref': return ('l', r['u'] if 'u' in r else id(r), n['d']) if 'd' in n else ('g', n.get('g')) if n.get('g') else None
        if k == 'Member':
            b = n['b']
            if n.get('fc') and not CONT.search(n.get('fc', '')): return ('f', n['fc'], n['n'])
            return self.key(b, r) if b else ('f', n.get('fc'), n['n'])
        if k == 'Call' and n.get('op') == '[]': return self.key(n['obj'] if n.get('obj') else n['a'][0], r)
        if k == 'Call' and n.get('fn', '').split('::')[-1] in ('data', 'begin', 'end', 'back', 'front', 'at') and n.get('obj'): return self.key(n['obj'], r)
        if k == 'Sub': return self.key(n.get('x') or n.get('b'), r)
        if k == 'Un' and n['op'] in ('*', '&', '++', '--'): return self.key(n['e'], r)
        return None

    def scan(self, r):
        for ini in r.get('inits') or []:
            if ini.get('e') is not None and 'm' in ini and r.get('cls'): self.add(('f', r['cls'], ini['m']), self.o(ini['e'], r))
        for n in [x for x in allnodes(r)]:
            k = n['k']
            if k == 'Var' and n.get('init') is not None: self.add(('l', r['u'], n['id']), self.o(n['init'], r))
            elif k == 'Bin' and n['op'] in ('=', '+=', '-=', '*='): self.add(self.key(n['x'], r), self.o(n['y'], r))
            elif k == 'Bin' and n['op'] in ('<', '<=', '>', '>=', '!='):
                for x, y in ((n['x'], n['y']), (n['y'], n['x'])):
                    v = strip(x)
                    if v and v['k'] == 'Ref' and v.get('d') in self.steps(r) and 'C' in self.o(y, r): self.add(self.key(v, r), frozenset('C'))
            elif k == 'Return' and n.get('e') is not None:
                self.add(('r', r['u']), self.o(n['e'], r))
                if SEED.match(r['fn']): self.add(self.key(n['e'], r), frozenset('C'))
            elif k == 'RangeFor' and isinstance(n.get('var'), dict): self.add(('l', r['u'], n['var'].get('id')), self.o(n['range'], r))
            elif k in ('Call', 'Construct'):
                f = self.P.funcs.get(n.get('u'))
                a = n.get('a', [])
                if f is not None and f.get('body') is not None:
                    for p, x in zip(f.get('ps', []), a):
                        s = self.o(x, r)
                        pk = ('l', f['u'], p.get('id', p.get('d')))
                        self.add(pk, s)
                        if '&' in (p.get('t') or '') and not (p.get('t') or '').startswith('const'): self.add(self.key(x, r), self.O.get(pk, set()))
                fn = n.get('fn') or ''
                m = fn.split('::')[-1]
                if k == 'Call' and n.get('obj') is not None and m in ('pushBack', 'push_back', 'emplace_back', 'resize', 'assign', 'insert') and a:
                    self.add(self.key(n['obj'], r), self.o(a[-1], r) if not (m == 'resize' and len(a) == 1) else set())
                if k == 'Call' and n.get('op') == '=' and n.get('obj') is not None and a: self.add(self.key(n['obj'], r), self.o(a[0], r))

    def steps(self, r):
        if r['u'] not in self.stp: self.stp[r['u']] = {d for d in stepvars(list(allnodes(r)))}
        return self.stp[r['u']]

    def o(self, n, r):
        if not n or 'cv' in n: return frozenset()
        k = n['k']
        O = lambda x: self.o(x, r)
        if k in ('ICast', 'Cast'):
            s = O(n['e'])
            if 'C' in s and base(n.get('t')) == 'float' and base(n['e'].get('t')) not in ('float',): s = frozenset(s | {'F'})
            return s
        if k in ('Paren',): return O(n['e'])
        if k in ('Ref', 'Sub', 'Member'):
            ky = self.key(n, r)
            return frozenset(self.O.get(ky, ())) if ky else frozenset()
        if k == 'Un':
            return O(n['e']) if n['op'] in ('-', '+', '++', '--', '*', '&') else frozenset()
        if k == 'Bin':
            if n['op'] in ('<', '<=', '>', '>=', '==', '!=', '&&', '||'): return frozenset()
            x, y = O(n['x']), O(n['y'])
            if n['op'] in ('%', '%='): return x if 'C' in y else frozenset()
            if n['op'] in ('&', '&=') and (not x or not y): return frozenset()
            if n['op'] == '=': return y
            return frozenset(x | y)
        if k == 'CondOp':
            return frozenset(O(n['c'][1]) | O(n['c'][2]))
        if k == 'InitList': return frozenset().union(*[O(x) for x in n.get('a', [])]) if n.get('a') else frozenset()
        if k == 'Construct':
            a = n.get('a', [])
            if CONT.search(n.get('t', '')) or n.get('cp') or n.get('mv') or 'initializer_list' in n.get('t', ''): return frozenset().union(*[O(x) for x in a]) if a else frozenset()
            return frozenset()
        if k == 'Call':
            fn = n.get('fn') or ''
            m = re.sub('<.*', '', fn.split('::')[-1] if not fn.endswith('>') else re.sub(r'<.*', '', fn).split('::')[-1])
            a = n.get('a', [])
            own = fn.startswith(('tinytorch::Tensor::', 'tinytorch::TensorImpl::', 'tinytorch::Storage::'))
            if own:
                if m in COUNT0: return frozenset('C')
                if m in ('size', 'shape', 'stride') and len(a) == 1: return frozenset('C')
                if m in ('shape', 'sizes', 'strides'): return frozenset('C')
                if m in ('dim', 'dataPtr', 'data'): return frozenset()
            if fn.startswith('std::'):
                if m in ('min',) and len(a) >= 2:
                    s = [O(x) for x in a[:2]]
                    return frozenset(s[0] & s[1]) if not (s[0] and s[1]) else frozenset(s[0] | s[1])
                if m in ('max', 'move', 'forward', 'abs', 'ceil', 'floor', 'round', 'ceilf', 'floorf', 'lround', 'accumulate', 'swap', 'exchange', 'clamp'):
                    return frozenset().union(*[O(x) for x in a]) if a else frozenset()
            if n.get('obj') is not None and CONT.search(n['obj'].get('t', '')):
                if m in ('size', 'empty'): return frozenset()
                if n.get('op') in ('[]',) or m in ('data', 'begin', 'end', 'back', 'front', 'at', 'view', 'slice'): return O(n['obj'])
            if n.get('op') == '[]' and n.get('obj') is not None:
                ky = self.key(n, r)
                return frozenset(self.O.get(ky, ())) if ky and CONT.search(n['obj'].get('t', '')) else frozenset()
            f = self.P.funcs.get(n.get('u'))
            if f is not None: return frozenset(self.O.get(('r', f['u']), ()))
            if n.get('obj') is not None and m.startswith('operator '): return O(n['obj'])
            return frozenset()
        return frozenset()


def allnodes(r):
    st = [r['body']]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x: yield x
            st.extend(x.values())
        elif isinstance(x, list): st.extend(x)


def check_width(res):
    P = res.p
    res.rule = ('origin analysis of integer values: a value computed from an element count, extent, stride or byte count is never converted to an integer of less than 64 bits, never bounds a loop with a '
                'narrower counter, and never comes back from a 32-bit float')
    for r in P.funcs.values():
        r.setdefault('u', r.get('usr'))
    F = Flow(P)
    seen = set()
    nsites = 0
    for r in F.recs:
        fl = r.get('file') or ''
        if not fl or fl.endswith(('.cu', '.cuh')): continue
        res.fn(r)
        types = {}
        for p in r.get('ps', []): types[p.get('id', p.get('d'))] = p.get('t')
        nodes = list(allnodes(r))
        bounded = set()
        for n in nodes:
            if n['k'] == 'Var': types[n['id']] = n.get('t')
            if n['k'] == 'Bin' and n['op'] in ('<', '<=', '>', '>='):
                for a, b in ((n['x'], n['y']), (n['y'], n['x'])):
                    b = b if 'cv' in b else strip(b)
                    if b and 'cv' in b and isinstance(b['cv'], (int, str)) and str(b['cv']).lstrip('-').isdigit() and abs(int(b['cv'])) >= 2 ** 15:
                        a = strip(a)
                        if a and a['k'] == 'Ref': bounded.add(a.get('d'))
        for n in nodes:
            k = n['k']
            if k in ('ICast', 'Cast') and 'cv' not in n:
                t, s = n.get('t'), n['e'].get('t')
                if k == 'Cast' and base(t) in targs(r): continue       # a value converted to the element type of the kernel
                if narrow(t) and wide(s):
                    nsites += 1
                    o = F.o(n['e'], r)
                    e = strip(n['e'])
                    if 'C' in o and not (e['k'] == 'Ref' and e.get('d') in bounded): bad(res, seen, r, n, 'narrow', 'an element count, extent or offset is converted from %s to %s' % (base(s), base(t)))
                    else: res.ok('conversion')
                elif base(s) == 'float' and (wide(t) or narrow(t)):
                    nsites += 1
                    if 'F' in F.o(n['e'], r): bad(res, seen, r, n, 'float', 'an element count, extent or offset comes back from a 32-bit float')
                    else: res.ok('conversion')
            elif k == 'Bin' and n['op'] in ('+=', '-=', '*=') and narrow(n['x'].get('t')):
                nsites += 1
                if 'C' in F.o(n['y'], r) and not boolish(n['y']): bad(res, seen, r, n, 'narrow', 'an element count, extent or offset is accumulated in a variable of type %s' % base(n['x'].get('t')))
                else: res.ok('accumulation')
            elif k == 'Bin' and n['op'] in ('<', '<=', '>', '>=', '!='):
                for x, y in ((n['x'], n['y']), (n['y'], n['x'])):
                    v = strip(x)
                    if v and v['k'] == 'Ref' and narrow(types.get(v.get('d'))) and wide(y.get('t')) and v.get('d') not in bounded:
                        nsites += 1
                        if 'C' in F.o(y, r) and stepped(nodes, v['d']): bad(res, seen, r, n, 'counter', 'a counter of type %s runs up to an element count or extent' % base(types[v['d']]))
                        else: res.ok('comparison')
                if wide(n['x'].get('t')) and wide(n['y'].get('t')): 
                    res.ok('comparison')
    res.floor('functions', len(F.recs), 500)
    res.counts['origins'] = sum(1 for s in F.O.values() if 'C' in s)
    res.floor('variables with a count', res.counts['origins'], 200)
    res.assumptions += ['counts enter through numel, nbytes, shape, size, sizes, stride and strides of tensors', 'ranks, axis numbers and lengths of lists fit into 32 bits']


def targs(r): return [base(x) for x in re.findall(r'[\w: ]+', ' , '.join(x if isinstance(x, str) else str(x) for x in (r.get('ta') or [])))]


def boolish(n): return base(strip(n).get('t')) == 'bool'


def stepvars(nodes):
    """variables that are counted up or down"""
    for n in nodes:
        if n['k'] == 'Un' and n['op'] in ('++', '--'): e = strip(n['e'])
        elif n['k'] == 'Bin' and n['op'] in ('+=', '-='): e = strip(n['x'])
        else: continue
        if e and e['k'] == 'Ref' and 'd' in e: yield e['d']


def stepped(nodes, d): return d in set(stepvars(nodes))


def bad(res, seen, r, n, kind, msg):
    fn = re.sub(r'<.*', '', r['fn'])
    k = (fn, n.get('l'), kind)
    if k in seen: return
    seen.add(k)
    res.bad('%s/%s' % (fn.split('::')[-1], kind), loc_of(r, n.get('l')), '%s: %s' % (fn, msg))
