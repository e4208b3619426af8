"""Elementwise operator kernels: scalar formula per (operator, variant, dtype) and full coverage of the output."""
from model import *
import alg
from alg import v, call, add, sub, mul, div, ng, ite, lt, le, diff

a, b, c, g, al = v('a'), v('b'), v('c'), v('g'), v('alpha')
ONE, ZERO = C(1), C(0)
SIG = div(ONE, add(ONE, call('exp', ng(a))))
GELU = mul(mul(C(0.5), a), add(ONE, call('tanh', mul(C(0.7978845608), add(a, mul(C(0.044715), mul(a, mul(a, a))))))))
# operator -> (number of tensor operands, formula, uses)  -- the oracle is the operator's mathematical definition
UN = {'abs': ite(lt(a, ZERO), ng(a), a), 'neg': ng(a), 'sqrt': call('sqrt', a), 'square': mul(a, a), 'exp': call('exp', a), 'log': call('log', a), 'sin': call('sin', a),
      'cos': call('cos', a), 'sigmoid': SIG, 'tanh': call('tanh', a), 'relu': ite(lt(ZERO, a), a, ZERO), 'gelu': GELU, 'silu': mul(a, SIG),
      'sign': ite(lt(ZERO, a), ONE, C(-1)), 'logicNot': mk('==', a, ZERO)}
BI = {'add': add(a, mul(al, b)), 'sub': sub(a, mul(al, b)), 'mul': mul(a, b), 'div': div(a, b), 'pow': call('pow', a, b), 'maximum': ite(lt(a, b), b, a),
      'minimum': ite(lt(b, a), b, a), 'clampMin': ite(lt(a, b), b, a), 'clampMax': ite(lt(b, a), b, a)}
CM = {'eq': mk('==', a, b), 'ne': mk('not', mk('==', a, b)), 'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}
LO = {'logicAnd': mk('and', mk('not', mk('==', a, ZERO)), mk('not', mk('==', b, ZERO))), 'logicOr': mk('or', mk('not', mk('==', a, ZERO)), mk('not', mk('==', b, ZERO)))}
TE = {'clamp': ite(lt(a, b), b, ite(lt(c, a), c, a)), 'addcmul': add(a, mul(al, mul(b, c)))}
BW = {'sinBackwardP1': mul(g, diff(UN['sin'], a)), 'cosBackwardP1': mul(g, diff(UN['cos'], a)), 'divBackwardP2': mul(g, diff(BI['div'], b)),
      'powBackwardP1': mul(g, diff(BI['pow'], a)), 'powBackwardP2': mul(g, diff(BI['pow'], b)), 'siluMul': mul(mul(a, SIG), b)}
SPEC = {}
for tab, n in ((UN, 1), (BI, 2), (CM, 2), (LO, 2), (TE, 3)):
    for k, f in tab.items(): SPEC[k] = (n, f)


def spec_of(op):
    """(variant, operand names by parameter position, formula) or None"""
    if op in BW:
        if op == 'siluMul': return 'bw', ['a', 'b'], BW[op]
        return 'bw', ['g', 'a', 'b'], BW[op]
    for suf, var in (('Inplace', 'inplace'), ('Out', 'out'), ('', 'new')):
        base = op[:len(op) - len(suf)] if suf else op
        if op.endswith(suf) and base in SPEC:
            n, f = SPEC[base]
            names = ['a', 'b', 'c'][:n]
            if var == 'out': names = [None] + names
            return var, names, f
    return None


NOTATION = {'a': a, 'b': b, 'c': c, 'g': g}


def strip(t):
    while t.op == 'mut': t = t.a[0]
    return t


def pdata(t, sub=('dataPtr',)):
    """tensor term whose buffer pointer term t points to"""
    t = strip(t)
    if t.op == 'call' and t.a[0].split('::')[-1].startswith('dataPtr') and t.a[1] is not None: return strip(t.a[1])
    if t.op == 'addr': return pdata_loc(t.a[0])
    if t.op == 'cast' and isinstance(t.a[-1], T): return pdata(t.a[-1])
    return None


def pdata_loc(l):
    if l.op == 'E': return pdata_loc(l.a[0])
    if l.op == 'D': return pdata(l.a[0])
    return None


class Formula:
    """sinks of a kernel: list of (tensor written, value term, index info, event, env)"""

    def __init__(self, P, rec):
        self.P = P
        self.I = I = Interp(P, kpolicy())
        self.rets = I.run(rec)
        self.sinks = []
        evs = list(I.evs)
        for e in evs:
            if e.kind == 'call' and e.fn.split('::')[-1].startswith('forEach') and 'TensorIterator' in e.fn:
                it = strip(e.obj)
                ins = [strip(x) for x in it.a[1]] if it.op == 'new' else None
                self.sinks.append(('iter', strip(e.args[0]), ins, e.args[1], e))
            elif e.kind == 'write' and e.objloc is not None and e.objloc.op == 'E':
                t = pdata_loc(e.objloc)
                if t is not None: self.sinks.append(('loop', t, e.objloc.a[1], e.args[0], e))
            elif e.kind == 'write' and e.objloc is not None and e.objloc.op == 'D':
                t = pdata(e.objloc.a[0])
                if t is not None: self.sinks.append(('loop', t, C(0), e.args[0], e))


def loop_covers(I, e, idx, tensors):
    """None: the write provably happens for every element; ('und', why) / ('bad', why) otherwise"""
    if idx.op != 'hav': return ('und', 'index %s is not a loop counter' % show(idx)[:80])
    if idx.a[0] not in e.loops or idx.a[0] not in I.loopinfo: return ('und', 'index is not a counter of an enclosing loop')
    return counter_range(I, idx.a[0], idx, tensors)


def counter_range(I, lid, idx, tensors):
    info = I.loopinfo[lid]
    loc = idx.a[2]
    i0, nx, cd = info['init'].get(loc), info['next'].get(loc), info['cond']
    if i0 is None or nx is None or cd is None or cval(i0) is None: return ('und', 'loop shape not recognised')
    if nx is not binop('+', C(1), idx): return ('und', 'step not recognised')
    if cd.op == '<' and cd.a[0] is idx: bnd, off = cd.a[1], 0
    elif cd.op == 'not' and cd.a[0].op == '==' and idx in cd.a[0].a: bnd, off = [x for x in cd.a[0].a if x is not idx][0], 0
    elif cd.op == '<=' and cd.a[0] is idx: bnd, off = cd.a[1], 1
    else: return ('und', 'loop condition not recognised')
    numels = [s for s in subterms(bnd) if s.op == 'call' and s.a[0].endswith('::numel') and s.a[1] is not None and any(strip(s.a[1]) is t for t in tensors)]
    if len(numels) != 1: return ('und', 'loop bound not recognised')
    nm = numels[0]
    k = None
    if bnd is nm: k = 0
    elif bnd.op == '+' and len(bnd.a) == 2 and nm in bnd.a:
        k = cval([x for x in bnd.a if x is not nm][0])
    elif bnd.op == '-' and len(bnd.a) == 2 and bnd.a[0] is nm and cval(bnd.a[1]) is not None: k = -cval(bnd.a[1])
    if k is None: return ('und', 'loop bound not recognised')
    if cval(i0) != 0: return ('bad', 'the loop starts at element %s' % cval(i0))
    if k + off != 0: return ('bad', 'the loop ends at element count %+d' % (k + off))
    return None


RED = ('tinytorch::Half', 'tinytorch::BFloat16')


def red_opaque(rec):
    return rec.get('file') in ('Utils/Half.h', 'Utils/BFloat16.h') and (rec['n'].startswith('operator') or rec.get('ctor'))


def red_opaque_plain(rec):
    """as red_opaque, but compound assignments are followed (x += y stores x + y)"""
    return red_opaque(rec) and rec['n'] not in ('operator+=', 'operator-=', 'operator*=', 'operator/=')


def kpolicy():
    return Policy(opaque=lambda rec: rec['fn'].startswith(KERNEL_OPAQUE) or red_opaque(rec))


def dehalf(t):
    """reduced-precision operators and conversions as their real-number meaning"""
    def f(x):
        if x.op == 'new' and x.a[0] in RED and len(x.a[1]) == 1: return x.a[1][0]
        if x.op == 'call':
            s = x.a[0].split('::')[-1]
            if s == 'operator float' and x.a[1] is not None: return strip(x.a[1])
            if s.startswith('operator') and x.a[1] is None and x.a[0].startswith('tinytorch::'):
                o, a = s[8:], x.a[2]
                if o in ('+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!=') and len(a) == 2: return binop(o, a[0], a[1])
                if o == '-' and len(a) == 1: return mk('neg', a[0])
        if x.op in ('cast', 'fcast') and isinstance(x.a[-1], T): return x.a[-1]
        return None
    return rewrite(t, f)


def gsubst(guard):
    """equalities implied by the path: term -> term"""
    m = {}
    for t, p in guard:
        if t.op == '==' and p:
            x, y = t.a
            if y.op == 'c': m[x] = y
            elif x.op == 'c': m[y] = x
    return m


def check_formula(res):
    P = res.p
    O = Ops(P)
    res.rule = ('every registered elementwise kernel instance stores, into every element of its result, exactly the scalar formula of its operator applied to the '
                'same element of its operands in order (algebraic normal form / finite order comparison against the definition table)')
    n = 0
    und = 0
    for (op, dev, dt), r in sorted(O.table.items(), key=lambda kv: kv[0]):
        sp = spec_of(op)
        if sp is None or dev != 'CPU' or op == 'siluMul': continue
        var, names, spec = sp
        n += 1
        res.fn(r.fn)
        F = Formula(P, r.fn)
        ps = [mk('param', i, p['n']) for i, p in enumerate(r.fn['ps'])]
        tens = [p for p, d in zip(ps, r.fn['ps']) if strip_cvref(d['t']) == 'tinytorch::Tensor']
        scal = [p for p, d in zip(ps, r.fn['ps']) if strip_cvref(d['t']) == 'tinytorch::Scalar']
        nm = {p: q for p, q in zip(tens, names) if q}
        key = '%s/%s' % (op, dt)
        where = loc_of(r.fn)
        if not F.sinks:
            und += 1
            continue
        if dt in FLOATING:
            for e in F.I.evs:
                if e.kind == 'int2float' and strip(e.args[0]).op == 'call' and atomof_al(strip(e.args[0]), scal):
                    res.bad(key + '/scalar', evloc(e), '%s[%s] reads its scalar operand through an integer type: a fractional scalar loses its fraction' % (op, dt))
        for kind, out, ix, val, e in F.sinks:
            I = F.I
            want = None
            if var == 'new':
                if not all(strip(v2) is out for _, v2, _ in F.rets):
                    res.bad(key + '/target', evloc(e), 'kernel of %s writes %s, which is not the tensor it returns' % (op, show(out)))
                    continue
            elif var in ('out', 'inplace') and out is not ps[0]:
                res.bad(key + '/target', evloc(e), 'kernel of %s writes %s instead of its result parameter' % (op, show(out)))
                continue
            prob = []
            if kind == 'iter':
                if ix is None: und += 1; continue
                at = [mk('in', i) for i in range(len(ix))]
                val = I.apply(val, at)
                amap = {}
                for i, t in enumerate(ix):
                    if t in nm: amap[at[i]] = nm[t]
            else:
                amap = {}
                why = loop_covers(I, e, ix, tens + [out])
                if why and (why[0] == 'und' or len(F.sinks) > 1): und += 1
                elif why: prob.append(('cover', 'not every element is written: ' + why[1]))
                def atomof_elem(x):
                    if x.op == 'elem':
                        b0 = x.a[0]
                        while b0.op == 'hav' or b0.op in ('mut', 'mutd'):
                            b0 = b0.a[2] if b0.op == 'hav' else b0.a[0]
                        t = None
                        if b0.op == 'deref' or b0.op == 'D': t = pdata(b0.a[0])
                        if t is not None:
                            if x.a[1] is not ix and t in nm: prob.append(('index', 'reads %s at index %s while writing index %s' % (nm[t], show(x.a[1]), show(ix))))
                            return nm.get(t)
                    return None
            val = dehalf(val)
            subs = {dehalf(k): x for k, x in gsubst(e.guard).items()}

            def atomof(x, kind=kind, amap=amap):
                if x in NAMES: return x.a[0]
                if x.op == 'atom': return x.a[0]
                if x in amap: return amap[x]
                if x in subs: return subs[x].a[0]
                if x.op == 'call' and x.a[0].startswith('tinytorch::Scalar::') and x.a[1] is not None and strip(x.a[1]) in scal: return 'alpha'
                if kind == 'loop': return atomof_elem(x)
                return None
            sub_spec = spec
            for k, x in subs.items():
                if atomof_al(k, scal): sub_spec = rewrite(sub_spec, lambda y, x=x: x if y is al else None)
            try:
                assume = None
                if op.startswith('clamp') and spec is TE['clamp']: assume = ordered('b', 'c')
                if spec is UN['sign']: assume = nonzero('a')
                ok, why = alg.equal(val, sub_spec, atomof, assume)
            except alg.Undecided as x:
                und += 1
                continue
            for k, m in prob: res.bad(key + '/' + k, evloc(e), '%s[%s]: %s' % (op, dt, m))
            res.check(ok, key + '/formula', evloc(e), '%s[%s] does not compute its definition: %s' % (op, dt, why), sample='%s = %s' % (key, show(spec)))
    res.floor('kernels', n, 150)
    res.counts['undecided_sinks'] = und
    res.assumptions += ['floating-point rounding and NaN payloads are outside the algebra', 'clamp is compared for min<=max, sign for nonzero operands',
                        'TensorIterator::forEach applies its functor to corresponding elements (checked separately)']


NAMES = set()
FLOATING = ('Float32', 'Float16', 'BFloat16', 'Float64')


def atomof_al(t, scal):
    return t.op == 'call' and t.a[0].startswith('tinytorch::Scalar::') and t.a[1] is not None and strip(t.a[1]) in scal


def ordered(x, y):
    def f(rank, keys):
        kx, ky = alg.atom(x).key(), alg.atom(y).key()
        return kx not in rank or ky not in rank or rank[kx] <= rank[ky]
    return f


def nonzero(x):
    def f(rank, keys):
        kx, k0 = alg.atom(x).key(), alg.const(0).key()
        return kx not in rank or k0 not in rank or rank[kx] != rank[k0]
    return f
