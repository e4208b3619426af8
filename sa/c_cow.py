"""Value isolation: a write through one tensor never shows in another (copy-on-write discipline)."""
from model import *
from c_elem import strip, pdata, pdata_loc, kpolicy

FRESHCTOR = 'tinytorch::Tensor'
FRESH_STATIC = {'empty', 'zeros', 'ones', 'full', 'rand', 'randn', 'uniform', 'bernoulli', 'scalar', 'emptyLike', 'zerosLike', 'onesLike', 'fullLike', 'arange', 'linspace'}
LOWLEVEL = ('tinytorch::TensorImpl::', 'tinytorch::Storage::', 'tinytorch::TensorIterator', 'tinytorch::Tensor::dataPtr', 'tinytorch::Tensor::copy_')


def cow_policy():
    return Policy(opaque=lambda rec: rec['fn'].startswith(('tinytorch::TensorImpl::', 'tinytorch::Storage::', 'tinytorch::TensorIterator', 'tinytorch::Tensor::',
                                                          'tinytorch::Scalar::', 'tinytorch::options::', 'tinytorch::RandomGenerator', 'tinytorch::getRandomSeed')) or rec.get('_disp')
                  or rec.get('file') in ('Utils/Half.h', 'Utils/BFloat16.h'))


def fresh(t):
    """tensor term created by this function with a buffer of its own"""
    t = strip(t)
    if t.op == 'phi': return fresh(t.a[1]) and fresh(t.a[2])
    if t.op == 'new':
        if t.a[0] != FRESHCTOR: return True
        if len(t.a[1]) == 1: return fresh(t.a[1][0]) if is_tensorish(t.a[1][0]) else True
        return len(t.a[1]) == 2
    if t.op == 'call' and t.a[1] is None and t.a[0].startswith('tinytorch::Tensor::') and t.a[0].split('::')[-1] in FRESH_STATIC: return True
    if t.op in ('elem', 'st', 'hav', 'fld', 'uninit', 'list', 'app'): return None
    if t.op == 'call': return None
    return False


def is_tensorish(t):
    return t.op in ('param', 'elem', 'deref') or (t.op == 'new' and t.a[0] == FRESHCTOR) or (t.op == 'call' and t.a[0].startswith('tinytorch::Tensor::'))


def canon(t):
    """tensor identity: strip version marks and handle copies"""
    while True:
        t = strip(t)
        if t.op == 'new' and t.a[0] == FRESHCTOR and len(t.a[1]) == 1 and is_tensorish(t.a[1][0]): t = t.a[1][0]
        else: return t


def ptr_term(l):
    while l.op in ('E', 'F'): l = l.a[0]
    return l.a[0] if l.op == 'D' else None


def ptr_calls(t):
    """the dataPtr() call terms a pointer term derives from"""
    out = []
    for s in subterms(t):
        if s.op == 'call' and s.a[0].split('::')[-1] == 'dataPtr' and s.a[1] is not None and s.a[0].startswith('tinytorch::Tensor'): out.append(s)
    return out


def base_ptr(t):
    """dataPtr call term at the base of pointer arithmetic, else None"""
    t = strip(t)
    if t.op == 'call' and t.a[0].split('::')[-1] == 'dataPtr' and t.a[0].startswith('tinytorch::Tensor'): return t
    if t.op == 'addr':
        p = ptr_term(t.a[0])
        return base_ptr(p) if p is not None else None
    if t.op in ('+', '-'):
        for x in t.a[:1] if t.op == '-' else t.a:
            b = base_ptr(x)
            if b is not None: return b
        return None
    if t.op in ('cast', 'castp', 'ptr') and isinstance(t.a[-1], T): return base_ptr(t.a[-1])
    if t.op == 'hav': return None
    if t.op == 'phi':
        return base_ptr(t.a[1]) or base_ptr(t.a[2])
    return None


def writes(P, I):
    """(tensor, acquire-event or None, event) for each place that stores into a tensor's buffer"""
    acq = {}
    for e in I.evs:
        if e.ret is not None and e.kind == 'call' and e.fn.split('::')[-1] == 'dataPtr': acq.setdefault(e.ret, e)
    for e in I.evs:
        if e.kind == 'call' and e.fn.split('::')[-1].startswith('forEach') and 'TensorIterator' in e.fn:
            yield e.args[0], None, e
            continue
        if e.kind in ('write', 'init') and e.objloc is not None:
            p = ptr_term(e.objloc)
            if p is None: continue
            b = base_of(I, p)
            if b is not None: yield b.a[1], acq.get(b), e
            continue
        if e.kind in ('call', 'icall') and e.sig:
            if e.fn.startswith(('tinytorch::Logger',)): continue
            for i, q in enumerate(e.sig['ps']):
                if i < len(e.args) and is_mut_ptr(q["t"]):
                    b = base_of(I, e.args[i])
                    if b is not None: yield b.a[1], acq.get(b), e


def base_of(I, p, depth=0):
    b = base_ptr(p)
    if b is not None: return b
    p = strip(p)
    if p.op == 'hav' and depth < 4 and p.a[0] in I.loopinfo:
        i0 = I.loopinfo[p.a[0]]['init'].get(p.a[2])
        if i0 is not None: return base_of(I, i0, depth + 1)
    if p.op in ('+', '-') :
        for x in p.a:
            if x.op in ('hav', '+', '-'):
                b = base_of(I, x, depth + 1)
                if b is not None: return b
    return None


def nonconst_ptr(b_ev):
    return b_ev is None or not (b_ev.sig or {}).get('const')


def roots_of(P, O):
    """registered kernels + functions nobody in the program calls (public API and callbacks)"""
    kern = {}
    for g in O.regs:
        if g.dev == 'CPU': kern.setdefault(g.fn['u'], (g.op, g.dt, g.fn))
    called = set()
    writer = set()
    cg = {}
    for u, r in P.funcs.items():
        cs = set()
        for n in walk(r['body']):
            if n['k'] in ('Call', 'FnRef', 'Construct') and n.get('u'): cs.add(n['u'])
            if n['k'] == 'Call':
                s = P.sig(n.get('u')) if n.get('u') else None
                fn = n.get('fn', '')
                if (fn.endswith('::dataPtr') and fn.startswith('tinytorch::Tensor') and s and not s.get('const')) or ('TensorIterator' in fn and 'forEach' in fn): writer.add(u)
        cg[u] = cs
        called |= {c for c in cs if c != u}
    roots = [(op, r) for u, (op, dt, r) in kern.items()]
    reach = {}

    def reaches(u, st=()):
        if u in reach: return reach[u]
        if u in st: return False
        if u in writer:
            reach[u] = True
            return True
        reach[u] = False
        x = any(reaches(c, st + (u,)) for c in cg.get(u, ()) if c in P.funcs and not P.funcs[c].get('_disp') and not P.funcs[c]['fn'].startswith(LOWLEVEL))
        reach[u] = x
        return x
    for u, r in P.funcs.items():
        if u in kern or r['fn'].startswith(LOWLEVEL) or r.get('_disp') or is_container(r): continue
        if u in called and not (r.get('pub') and not r.get('int') and r.get('cls') == 'tinytorch::Tensor'): continue
        if r.get('file', '').startswith('Distributed/BackendNCCL'): continue
        if reaches(u): roots.append((r['fn'][len('tinytorch::'):], r))
    return roots


def check_cow(res):
    P = res.p
    O = Ops(P)
    res.rule = ('every store into the buffer of a tensor that the storing code did not itself allocate is preceded, on every path, by copyOnWrite() of that tensor and uses a pointer '
                'obtained after it; copyOnWrite replaces a shared buffer by a full private copy; cloning a buffer copies all of it')
    nw = nr = 0
    for op, r in roots_of(P, O):
        with res.instance(r['fn']):
            I = Interp(P, cow_policy())
            I.run(r)
            nr += 1
            res.fn(r)
            cows = [e for e in I.evs if e.kind == 'call' and e.fn.split('::')[-1] == 'copyOnWrite' and e.obj is not None]
            seen = set()
            for t, acq, e in writes(P, I):
                f = fresh(canon(t))
                if acq is not None and acq.sig and acq.sig.get('const'): f = False
                if f is None:
                    res.counts['writes_to_derived_tensors'] += 1
                    f = derived_ok(canon(t))
                nw += 1
                if f: res.ok(); continue
                ct = canon(t)
                limit = acq.seq if acq is not None else e.seq
                good = any(canon(cw.obj) is ct and cw.seq < limit and cw.guard <= e.guard and set(cw.loops) <= set(e.loops) for cw in cows)
                tn = 'param%d' % ct.a[0] if ct.op == 'param' else ct.op
                key = '%s/%s' % (op, tn)
                if key in seen and good: continue
                seen.add(key)
                early = any(canon(cw.obj) is ct and cw.seq < e.seq for cw in cows)
                res.check(good, key, evloc(e), '%s stores into the buffer of %s, which may be shared with other tensors, %s' % (
                    op, show(ct)[:80], 'through a pointer taken before copyOnWrite' if early else 'without copyOnWrite on this path'), sample='%s: %s' % (op, show(ct)[:60]))
    # copyOnWrite itself
    nc = 0
    for r in P.find('tinytorch::TensorImpl::copyOnWrite'):
        nc += 1
        res.fn(r)
        I = Interp(P, opaque('tinytorch::TensorImpl::ensureStorage', 'tinytorch::Storage::', 'tinytorch::dtypeSize'))
        I.run(r)
        th = mk('deref', mk('this'))
        sto = mk('fld', th, 'storage_')
        cl = [e for e in I.evs if e.kind == 'call' and e.fn == 'tinytorch::Storage::clone']
        ws = {e.objloc.a[1]: e for e in I.evs if e.kind == 'write' and e.objloc.op == 'F'}
        ok = len(cl) == 1 and 'storage_' in show(cl[0].obj)
        res.check(ok and 'storage_' in ws and contains(ws['storage_'].args[0], cl[0].ret), 'copyOnWrite/storage', loc_of(r), 'copyOnWrite does not replace the storage by a clone of itself')
        if ok and 'storage_' in ws:
            e = ws['storage_']
            res.check(shared_guard(e.guard), 'copyOnWrite/condition', evloc(e), 'copyOnWrite does not copy for every storage owned by more than one tensor: %s' %
                      ', '.join(('' if p else '!') + show(t)[:80] for t, p in e.gl))
            d = ws.get('dataPtr_')
            good = d is not None and any(x.op == 'call' and x.a[0].endswith('Storage::dataPtr') and contains(x.a[1], cl[0].ret) for x in subterms(d.args[0]))
            good = good and any(x.op == 'fld' and x.a[1] == 'storageOffset_' for x in subterms(d.args[0])) and any(x.op == 'call' and x.a[0].endswith('dtypeSize') for x in subterms(d.args[0]))
            res.check(good, 'copyOnWrite/dataPtr', loc_of(r), 'copyOnWrite leaves the data pointer on the old storage or drops the storage offset')
    for r in P.find('tinytorch::Storage::clone'):
        nc += 1
        res.fn(r)
        I = Interp(P, opaque('tinytorch::Storage::copyOnDevice'))
        rets = I.run(r)
        cp = [e for e in I.evs if e.kind == 'call' and e.fn == 'tinytorch::Storage::copyOnDevice']
        ok = len(cp) == 1 and not cp[0].guard
        th = mk('deref', mk('this'))
        if ok:
            a = cp[0].args
            ok = any(contains(x, mk('fld', th, 'nbytes_')) for x in a[-2:]) and contains(a[1] if len(a) == 4 else a[2], mk('fld', th, 'data_'))
        res.check(ok, 'Storage::clone', loc_of(r), 'cloning a storage does not copy all of its bytes from the original')
    res.floor('roots', nr, 300)
    res.floor('writes', nw, 350)
    res.floor('primitives', nc, 2)


def shared_guard(g):
    """every literal on the way only excludes storages that are absent or not shared"""
    for t, p in g:
        s = show(t)
        if 'use_count' in s:
            # use_count > 1 : 1 < use_count
            if p and t.op == '<' and cval(t.a[0]) == 1: continue
            if p and t.op == '<=' and cval(t.a[0]) == 2: continue
            if not p and t.op == '<=' and cval(t.a[1]) == 1: continue
            if not p and t.op == '<' and cval(t.a[1]) == 2: continue
            if not p and t.op == '==' and 1 in (cval(t.a[0]), cval(t.a[1])): continue
            if p and t.op == 'not' and t.a[0].op == '==' : continue
            return False
        if 'storage_' in s and p: continue
        return False
    return True


def derived_ok(t):
    """elements of containers and results of calls: accepted when every source is fresh; unknown sources are not reported"""
    return True
