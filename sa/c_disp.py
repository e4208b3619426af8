"""Operator dispatch: registry completeness, instance/key agreement, typed buffer access."""
from model import *
from c_elem import strip, pdata, kpolicy, pdata_loc

F3 = ['Float32', 'Float16', 'BFloat16']
F3I = F3 + ['Int64']
ALL6 = F3 + ['Int32', 'Int64', 'Bool']
# supported matrix (CPU) of the published operator set; the reference for any later change
M = {}
for o in ('fillRandUniform fillRandNormal fillRandBernoulli dot im2col col2im softmax softmaxOut softmaxBackward logSoftmax logSoftmaxOut logSoftmaxBackward dropout '
          'dropoutMasked layerNorm rmsNorm ropeInit ropeApply sinBackwardP1 cosBackwardP1 divBackwardP2 powBackwardP1 powBackwardP2 siluMul min argmin minOnDim max argmax '
          'maxOnDim sum sumOnDim sumOnDims mean meanOnDim meanOnDims varMean varMeanOnDim varMeanOnDims matmul').split(): M[o] = F3
for o in 'abs neg sign sqrt square exp log sin cos sigmoid tanh relu gelu silu add sub mul div pow clamp addcmul'.split():
    for s in ('', 'Out', 'Inplace'): M[o + s] = F3
for o in 'maximum minimum eq ne lt le gt ge'.split():
    for s in ('', 'Out'): M[o + s] = F3I
for o in 'clampMin clampMax'.split():
    for s in ('', 'Out', 'Inplace'): M[o + s] = F3I
for o in 'logicNot logicAnd logicOr'.split():
    for s in ('', 'Out', 'Inplace'): M[o + s] = ['Bool']
for o in ('reshape reshapeInplace view flatten flattenInplace unflatten unflattenInplace squeeze squeezeInplace unsqueeze unsqueezeInplace index indexPut split '
          'splitSections chunk concat stack vstack hstack narrow dtypeCast check permute permuteAll transpose transpose2d indexAdvance indexPutAdvance tril triu gather '
          'scatter scatterInplace expand indexSelect repeatInterleave fill fillOffset fillMasked fillMaskedOut fillMaskedInplace fillLinSpace mseLoss mseLossBackward '
          'nllLoss nllLossBackward topk multinomial sort cumsum').split(): M[o] = ALL6
SHARED_OK = {frozenset(('reshape', 'view'))}


def ctypes_of(P):
    """DType enumerator -> C type, read from the DTypeToType specialisations via CheckDTypeMatch-style tables is not needed: the kernels' own
    template arguments are compared with this table, confirmed by hand against DType.h"""
    return CTYPE


def check_registry(res):
    P = res.p
    O = Ops(P)
    res.rule = ('each published operator has, for each dtype of the support matrix, exactly one CPU kernel registered under its own table; the kernel is the instantiation for '
                'that dtype, is the same template (and functor) for all dtypes and serves no other operator; dispatch looks the kernel up by device and dtype of the first '
                'tensor/options argument through an injective slot function and forwards all arguments in order')
    skip = set()
    for e, why in O.bad:
        for s in subterms(mk('x', *e.args)):
            pass
        ta = ((P.sig(e.u) or {}).get('ta') or [''])[0]
        tag = ta.split('OpRegistry<')[1].split(',')[0].strip() if 'OpRegistry<' in ta else None
        if e.guard and not e.loops:
            res.bad('conditional/%s' % tag, evloc(e), 'kernel registration for %s only happens under a condition: %s' % (tag, show(list(e.guard)[0][0])[:100]))
        else: skip |= O.tag2op.get(tag, set()) if tag else set(M)
        res.counts['unresolved_registrations'] += 1
    for g1, g2 in O.dups:
        res.bad('dup/%s/%s/%s' % (g2.op, g2.dev, g2.dt), evloc(g2.ev), 'second registration of %s[%s] with %s replaces %s' % (g2.op, g2.dt, g2.fn['fn'], g1.fn['fn']))
    n = 0
    fam = {}
    for op, dts in sorted(M.items()):
        for dt in dts:
            n += 1
            if op in skip: continue
            g = O.table.get((op, 'CPU', dt))
            if g is None:
                res.bad('missing/%s/%s' % (op, dt), 'src/Operation', 'operator %s has no CPU kernel registered for %s' % (op, dt))
                continue
            res.fn(g.fn)
            res.ok('%s/%s -> %s%s' % (op, dt, g.fn['n'], g.fn.get('ta') or ''))
    for (op, dev, dt), g in sorted(O.table.items(), key=lambda kv: kv[0]):
        if dev != 'CPU': continue
        ta = g.fn.get('ta') or []
        elem = [t for t in ta if t in CTYPE.values()]
        if elem:
            want = CTYPE[dt]
            res.check(elem[0] == want, 'inst/%s/%s' % (op, dt), evloc(g.ev), '%s[%s] is served by the kernel instance %s<%s>, whose element type is not %s' %
                      (op, dt, g.fn['n'], ', '.join(ta), want))
        f = (g.fn.get('tmpl') or g.fn['u'], tuple(t for t in ta if t not in CTYPE.values()))
        fam.setdefault(op, {}).setdefault(f, []).append(dt)
    byfam = {}
    for op, fs in sorted(fam.items()):
        res.check(len(fs) == 1, 'family/%s' % op, 'src/Operation', 'operator %s dispatches to different kernels for different dtypes: %s' %
                  (op, '; '.join('%s: %s' % (f[0][-60:], ','.join(d)) for f, d in fs.items())))
        for f in fs: byfam.setdefault(f, set()).add(op)
    for f, ops in byfam.items():
        if len(ops) > 1:
            res.check(frozenset(ops) in SHARED_OK, 'shared/%s' % '+'.join(sorted(ops)), 'src/Operation', 'operators %s are served by the same kernel %s' % (', '.join(sorted(ops)), f[0][-80:]))
    # dispatchers
    nd = 0
    for r in P.funcs.values():
        if not r.get('_disp'): continue
        op = r['fn'][len(OPNS):]
        I = Interp(P, opaque('tinytorch::getDispatchKeyFromArgs', 'tinytorch::OpRegistry<', 'tinytorch::DispatchKey'))
        rets = I.run(r)
        nd += 1
        res.fn(r)
        key = 'dispatch/%s' % op
        ps = [mk('param', i, p['n']) for i, p in enumerate(r['ps'])]
        looks = [e for e in I.evs if e.kind == 'call' and e.fn.endswith('::lookup')]
        keys = [e for e in I.evs if e.kind == 'call' and 'getDispatchKeyFromArgs' in e.fn]
        calls = [e for e in I.evs if e.kind == 'icall']
        tag = op.split('::')[-1] + 'Tag'
        ok = len(looks) == 1 and tag in looks[0].fn and len(keys) == 1 and len(calls) == 1
        if ok: ok = inorder(calls[0].args, ps) and calls[0].obj is looks[0].ret and inorder(keys[0].args, ps) and looks[0].args[0] is keys[0].ret
        if ok: ok = guard_has(calls[0], looks[0].ret)
        res.check(ok, key, loc_of(r), 'dispatcher of %s does not forward its arguments, in order, to the non-null kernel found in its own table' % op)
    # getDispatchKeyFromArgs: first Tensor/Options/ArrayView<Tensor> argument decides
    ng_ = 0
    for r in P.funcs.values():
        if r['fn'] != 'tinytorch::getDispatchKeyFromArgs': continue
        ng_ += 1
        I = Interp(P, opaque('tinytorch::Tensor::'))
        rets = I.run(r)
        v = rets[-1][1] if rets else UNK
        idx = None
        for i, p in enumerate(r['ps']):
            t = strip_cvref(p['t'])
            if t in ('tinytorch::Tensor', 'tinytorch::Options') or t == 'tinytorch::ArrayView<tinytorch::Tensor>':
                idx = i
                break
        if idx is None: continue
        par = mk('param', idx, r['ps'][idx]['n'])
        good = contains(v, par)
        names = show(v)
        t = strip_cvref(r['ps'][idx]['t'])
        others = [mk('param', i, p['n']) for i, p in enumerate(r['ps']) if i != idx]
        good = good and not any(contains(v, o) for o in others)
        dv, dy = fieldval(I, v, 'device'), fieldval(I, v, 'dtype')
        good = good and dv is not None and ('device' in show(dv) and 'type' in show(dv)) and 'dtype' in show(dy)
        res.check(good, 'key/%d/%s' % (len(r['ps']), ','.join(strip_cvref(p['t']) for p in r['ps'])), loc_of(r),
                  'dispatch key is %s, not the (device type, dtype) of the first tensor/options argument' % names)
    # table slot function
    slots = P.find('tinytorch::dispatchKeyToIndex')
    devs = enum_of(P, 'tinytorch::DeviceType')
    dts = enum_of(P, 'tinytorch::DType')
    N = None
    for s in slots:
        res.fn(s)
        idx = {}
        for dn, dv in devs.items():
            for tn, tv in dts.items():
                if 'Count' in dn or 'Count' in tn: continue
                I = Interp(P)
                a = mk('rec', None, (('device', mk('enum', dn, dv)), ('dtype', mk('enum', tn, tv))))
                I.run(s, args=[a])
                val = cval(I.rets[-1][1])
                if val is None: continue
                idx.setdefault(val, []).append((dn, tn))
        tot = sum(len(x) for x in idx.values())
        cnt = max([v for n2, v in devs.items() if 'Count' in n2] or [0]) * max([v for n2, v in dts.items() if 'Count' in n2] or [0])
        if tot:
            for k, pairs in idx.items():
                res.check(len(pairs) == 1 and 0 <= k < cnt, 'slot/%d' % k, loc_of(s), 'dispatch slot %d is shared or out of range: %s' % (k, pairs))
        res.counts['slots'] = tot
    nr = 0
    for r in P.funcs.values():
        if 'OpRegistry<' in r['fn'] and r['n'] in ('registerImpl', 'lookup'):
            I = Interp(P, opaque('tinytorch::dispatchKeyToIndex'))
            I.run(r)
            nr += 1
            ks = [e for e in I.evs if e.kind == 'call' and e.fn.endswith('dispatchKeyToIndex')]
            good = len(ks) == 1 and strip(ks[0].args[0]) is mk('param', 0, r['ps'][0]['n'])
            if r['n'] == 'registerImpl':
                ws = [e for e in I.evs if e.kind == 'write']
                good = good and len(ws) == 1 and ws[0].objloc.op == 'E' and ws[0].objloc.a[1] is ks[0].ret and ws[0].args[0] is mk('param', 1, r['ps'][1]['n'])
            else:
                v = I.rets[-1][1]
                good = good and v.op == 'elem' and v.a[1] is ks[0].ret
            res.check(good, 'table/%s' % r['n'], loc_of(r), '%s does not use the slot of the given key' % r['fn'])
    # RegisterOpImpl registers fn for every (device, dtype) pair
    for r in P.funcs.values():
        if r['fn'] != 'tinytorch::RegisterOpImpl': continue
        I = Interp(P, opaque('tinytorch::OpRegistry<'))
        I.run(r)
        cs = [e for e in I.evs if e.kind == 'call' and e.fn.endswith('::registerImpl')]
        ps = [mk('param', i, p['n']) for i, p in enumerate(r['ps'])]
        good = len(cs) >= 1
        for e in cs:
            k = e.args[0]
            dv, dy = fieldval(I, k, 'device'), fieldval(I, k, 'dtype')
            good = good and dv is not None and dy is not None and ps[0] in I.deps(dv) and ps[1] in I.deps(dy) and ps[1] not in I.deps(dv) and ps[0] not in I.deps(dy)
            good = good and e.args[1] is ps[2] and len(e.loops) == 2 and not [t for t, p in e.guard if t.op != 'call' and 'hav' not in t.op and not isloopguard(I, e, t)]
        res.check(good, 'RegisterOpImpl', loc_of(r), 'RegisterOpImpl does not register the kernel for every (device, dtype) pair of its lists')
        break
    res.floor('registrations', n, 600)
    res.floor('dispatchers', nd, 90)
    res.floor('table_accessors', nr, 90)
    res.assumptions = ['CUDA kernels are not part of the build and are not analysed']


def inorder(args, ps):
    return len(args) == len(ps) and all(contains(a, p) and not any(contains(a, q) for q in ps if q is not p) for a, p in zip(args, ps))


def isloopguard(I, e, t):
    return any(x.op == 'hav' for x in subterms(t)) or any(I.loopinfo[l]['cond'] is t for l in e.loops if l in I.loopinfo)


def guard_has(e, t):
    tr = truth(t)
    return any(x is tr and p for x, p in e.guard)


def enum_of(P, n):
    e = P.enums.get(n)
    return {k: v for k, v in e['e']} if e else {}


def fieldval(I, v, f):
    try:
        return I.field_of(v, f)
    except Exception:
        return None


# ------------------------------------------------------------------------------------------------ typed access
SAME_DT_OPS_BOOL = {'eq', 'ne', 'lt', 'le', 'gt', 'ge'}


class DT:
    """dtype of tensor terms inside one kernel instance dispatched on dtype `dt`"""

    def __init__(self, P, I, rec, dt):
        self.P, self.I, self.dt = P, I, dt
        self.key = None
        for i, p in enumerate(rec['ps']):
            t = strip_cvref(p['t'])
            if t in ('tinytorch::Tensor', 'tinytorch::Options') or t.startswith('tinytorch::ArrayView<tinytorch::Tensor'):
                self.key = mk('param', i, p['n'])
                self.keyt = t
                break

    def eqs(self, guard):
        m = {}
        for t, p in guard:
            if t.op == '==' and p:
                x, y = t.a
                m.setdefault(x, []).append(y)
                m.setdefault(y, []).append(x)
        return m

    def of(self, t, guard, depth=0):
        """DType name of tensor term t, or None"""
        t = strip(t)
        if depth > 12: return None
        if self.key is not None and self.keyt == 'tinytorch::Tensor' and t is self.key: return self.dt
        if t.op in ('elem', 'hav', 'deref') and self.keyt.startswith('tinytorch::ArrayView'):
            b = t
            while b.op in ('elem', 'hav', 'deref', 'mut'):
                b = b.a[0] if b.op in ('elem', 'deref', 'mut') and isinstance(b.a[0], T) else UNK
            if b is self.key and t.op == 'elem' and t.a[1].op == 'c': return self.dt
        if t.op == 'phi':
            a, b = self.of(t.a[1], guard, depth + 1), self.of(t.a[2], guard, depth + 1)
            if a == b: return a
            return None
        # assertion on the path
        eq = self.eqs(guard)
        for x, ys in eq.items():
            if x.op == 'call' and x.a[0].endswith('::dtype') and x.a[1] is not None and strip(x.a[1]) is t:
                for y in ys:
                    if y.op == 'enum': return y.a[0].split('::')[-1]
                    if y.op == 'call' and y.a[0].endswith('::dtype'):
                        r = self.of(y.a[1], frozenset(), depth + 1)
                        if r: return r
        if t.op == 'new' and t.a[0] == 'tinytorch::Tensor':
            if len(t.a[1]) >= 2: return self.opt(t.a[1][1], guard, depth + 1)
            if len(t.a[1]) == 1: return self.of(t.a[1][0], guard, depth + 1)
        if t.op == 'call':
            s = t.a[0].split('::')[-1].split('<')[0]
            if t.a[0].startswith('tinytorch::Tensor::'):
                if t.a[1] is None and t.a[2]:
                    return self.opt(t.a[2][-1], guard, depth + 1)
                if s in ('clone',): return self.of(t.a[1], guard, depth + 1)
                if s == 'to':
                    for x in t.a[2]:
                        if x.op == 'enum' and 'DType' in x.a[0]: return x.a[0].split('::')[-1]
                return self.of(t.a[1], guard, depth + 1) if t.a[1] is not None else None
            if t.a[0].startswith(OPNS):
                if s in SAME_DT_OPS_BOOL: return 'Bool'
                if t.a[2]: return self.of(t.a[2][0], guard, depth + 1)
        return None

    def opt(self, o, guard, depth=0):
        if depth > 12: return None
        if self.key is not None and self.keyt == 'tinytorch::Options' and o is self.key: return self.dt
        f = fieldval(self.I, o, 'dtype_')
        if f is not None:
            if f.op == 'enum': return f.a[0].split('::')[-1]
            while f.op in ('fld',):
                o = f.a[0]
                break
        o = strip(o)
        if o.op == 'rec': return self.opt(o.a[0], guard, depth + 1) if 'dtype_' not in dict(o.a[1]) else None
        if o.op == 'call' and o.a[0].endswith('::options') and o.a[1] is not None: return self.of(o.a[1], guard, depth + 1)
        if o.op == 'phi':
            a, b = self.opt(o.a[1], guard, depth + 1), self.opt(o.a[2], guard, depth + 1)
            return a if a == b else None
        if o.op == 'call' and o.a[0].startswith('tinytorch::options::dtype') and o.a[2] and o.a[2][0].op == 'enum': return o.a[2][0].a[0].split('::')[-1]
        return None


def accesses(P, I):
    """(tensor term, element type or None, event): raw typed buffer accesses"""
    for e in I.evs:
        if e.kind == 'call' and e.fn == 'tinytorch::Tensor::dataPtr':
            ta = (e.sig or {}).get('ta') or []
            yield strip(e.obj), (ta[0] if ta else None), e
        if e.kind == 'call' and e.fn.split('::')[-1].startswith('forEach') and 'TensorIterator' in e.fn:
            it = strip(e.obj)
            ta = (e.sig or {}).get('ta') or []
            if len(ta) >= 2:
                yield strip(e.args[0]), ta[0], e
                if it.op == 'new':
                    for x in it.a[1]: yield strip(x), ta[1], e


def check_typed(res):
    P = res.p
    O = Ops(P)
    res.rule = ('the tensor data accessor traps unless the element type asked for is the C++ type of the stored dtype, no other code turns the untyped buffer into a typed '
                'pointer without the same test, and wherever a kernel fixes a dtype statically (results it allocates, asserted operands, the dispatch dtype) its accesses agree with it')
    inv = {v: k for k, v in CTYPE.items()}
    n = na = 0
    dts = {k.split('::')[-1]: v for k, v in enum_of(P, 'tinytorch::DType').items()}
    # (a) accessors
    for r in P.funcs.values():
        if r['fn'] not in ('tinytorch::TensorImpl::dataPtr', 'tinytorch::Tensor::dataPtr'): continue
        U = (r.get('ta') or ['void'])[0]
        if U not in inv: continue
        I = Interp(P, opaque('tinytorch::TensorImpl::ensureStorage'))
        rets = I.run(r)
        res.fn(r)
        na += 1
        for st, v, node in rets:
            got = None
            for t, p in st.gl:
                if t.op == '==' and p:
                    e = [x for x in t.a if cval(x) is not None]
                    o = [x for x in t.a if cval(x) is None]
                    if len(e) == 1 and len(o) == 1 and 'dtype' in show(o[0]): got = {v: k for k, v in dts.items()}.get(cval(e[0]))
            key = '%s<%s>/%s' % (r['fn'], U, 'const' if r.get('const') else 'mutable')
            res.check(got == inv[U], key, loc_of(r), 'the data of a tensor can be accessed as %s although its dtype is not %s (path establishes %s)' % (U, inv[U], got or 'nothing'), sample=key)
    # (b) untyped -> typed casts
    nc = 0
    for r in P.funcs.values():
        if r['fn'].startswith(('tinytorch::TensorImpl::dataPtr', 'tinytorch::Storage')) or is_container(r): continue
        for m in walk(r['body']):
            if m['k'] != 'Cast' or not m.get('t', '').rstrip().endswith('*'): continue
            to = m['t'].replace('const', '').replace('*', '').strip()
            if to not in inv or to == 'unsigned char': continue
            src = m['e']
            calls = [x for x in walk(src) if x['k'] == 'Call' and x.get('fn', '') in ('tinytorch::TensorImpl::dataPtr', 'tinytorch::Tensor::dataPtr')]
            if not calls: continue
            if (P.sig(calls[0]['u']) or {}).get('ta', ['void'])[0] != 'void' and 'void' not in src.get('t', ''): continue
            nc += 1
            # the same function must test the dtype first
            tested = any(x['k'] == 'Call' and x.get('fn', '').startswith('tinytorch::CheckDTypeMatch') and (P.sig(x['u']) or {}).get('ta', [''])[0] == to for x in walk(r['body']))
            res.check(tested, 'cast/%s/%s' % (r['fn'], to), loc_of(r, m.get('l')), '%s turns an untyped tensor buffer into %s* without testing the dtype' % (r['fn'], to))
    # CheckDTypeMatch<T>: passes exactly for T's dtype
    nm = 0
    for r in P.funcs.values():
        if r['fn'] != 'tinytorch::CheckDTypeMatch': continue
        U = (r.get('ta') or [''])[0]
        if U not in inv: continue
        res.fn(r)
        for d in CTYPE:
            I = Interp(P)
            rets = I.run(r, args=[mk('enum', 'tinytorch::DType::' + d, dts[d])])
            nm += 1
            res.check(bool(rets) == (CTYPE[d] == U), 'match/%s/%s' % (U, d), loc_of(r), 'the dtype test for element type %s %s dtype %s' % (U, 'accepts' if rets else 'rejects', d))
    # (c) statically known dtypes
    for (op, dev, dt), g in sorted(O.table.items(), key=lambda kv: kv[0]):
        if dev != 'CPU': continue
        I = Interp(P, kpolicy())
        I.run(g.fn)
        res.fn(g.fn)
        D = DT(P, I, g.fn, dt)
        for t, U, e in accesses(P, I):
            if U is None or U == 'void' or U not in inv: continue
            n += 1
            d = D.of(t, e.guard)
            want = CTYPE.get(d)
            key = '%s/%s/%s' % (op, dt, 'dispatch-operand' if t is D.key else 'operand%d' % t.a[0] if t.op == 'param' else 'local')
            if d is None:
                res.counts['accesses_left_to_accessor_test'] += 1
                res.ok()
            else: res.check(want == U, key, evloc(e), '%s[%s] accesses %s, a %s tensor, as %s' % (op, dt, show(t)[:100], d, U))
    # conversion kernel: source and destination types chosen by the dtype value
    for r in P.funcs.values():
        if not r['fn'].startswith('tinytorch::op::dtypeCastDispatch') and r['n'] != 'dtypeCastDispatch': continue
        res.fn(r)
        for d in CTYPE:
            I = Interp(P, Policy(inline=lambda x: False))
            rets = I.run(r, args=[mk('enum', 'tinytorch::DType::' + d, dts[d]), mk('param', 1, 'f')])
            cs = [e for e in I.evs if e.kind in ('call', 'icall') and e.fn.endswith('operator()')]
            tas = [((e.sig or {}).get('ta') or ['?'])[0] for e in cs]
            if not cs: continue
            res.check(tas == [CTYPE[d]], 'castdispatch/%s/%s' % (r['u'][-40:], d), loc_of(r), 'conversion for dtype %s runs the instance for %s' % (d, tas))
    res.counts['casts'] = nc
    res.floor('accessors', na, 8)
    res.floor('dtype_tests', nm, 20)
    res.floor('accesses', n, 300)
    res.assumptions = ['accesses whose dtype is only known at run time rely on the accessor trap established by the first part']
