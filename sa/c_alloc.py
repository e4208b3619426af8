"""The caching allocator and the storage that owns its memory.
Shape analysis: allocate, deallocate and the destructor are interpreted abstractly (heap.py) from every shape of the
block lists that satisfies the representation invariant, with symbolic block sizes and request sizes; the invariant and
the caller's guarantees are re-checked at the end of every path."""
from model import *
from heap import *
from itertools import product

NS = 'tinytorch::'
IMPL, OUT = NS + 'CachedAllocatorImpl', NS + 'CachedAllocator'
FLD = {'size', 'pool', 'ptr', 'allocated', 'prev', 'next'}


class W:
    """one initial state"""
    def __init__(self, h, P, pats, align):
        self.h, self.P, self.align = h, P, align
        h.keyed = ('size', 'ptr')
        self.base = Obj('BASE'); h.hooks['BASE'] = self.basecall
        self.reg = {}            # region symbol -> length (Lin), live
        self.freed = []
        self.nreg = 0
        h.hooks['global'] = self.glob
        self.flag = {}
        self.impl = Obj(IMPL)
        ct = [r for r in P.by_name.get(IMPL + '::' + IMPL.split('::')[-1], []) if r.get('ctor')]
        if len(ct) != 1: raise Unk('constructor')
        for f in P.classes[IMPL]['fields']: self.impl.f[f['n']] = h.empty(f['t'])
        h.apply(ct[0], self.impl, [], dict(this=None, v={}, refs=set()), pre=[self.base])
        self.outer = Obj(OUT)
        for f in P.classes[OUT]['fields']: self.outer.f[f['n']] = None
        oc = [r for r in P.by_name.get(OUT + '::' + OUT.split('::')[-1], []) if r.get('ctor')]
        self.bind(oc)
        self.pools = [o for o in self.impl.f.values() if isinstance(o, Obj) and any(isinstance(v, SetV) for v in o.f.values())]
        if not self.pools: raise Unk('pools')
        self.act = [v for v in self.impl.f.values() if isinstance(v, MapV)]
        if len(self.act) != 1: raise Unk('active map')
        self.act = self.act[0]
        bc = [c for c in P.classes if FLD <= {f['n'] for f in P.classes[c]['fields']}]
        if len(bc) != 1: raise Unk('block class')
        self.bcls = bc[0]
        self.blocks = []
        self.segs = []
        for pi, pat in pats:
            self.seg(self.pools[pi % len(self.pools)], pat)
        h.log.clear()
        h.watch = self.watch
        self.unlocked = set()
        self.locks = []

    def bind(self, oc):
        """which member of the front end is the base and which the cache: read off its constructor"""
        if len(oc) != 1: raise Unk('front constructor')
        h = self.h
        names = [f['n'] for f in self.P.classes[OUT]['fields'] if 'unique_ptr' in f['t']]
        pm = oc[0]['ps'][0]['id']

        def uses(e):
            if isinstance(e, dict):
                if e.get('k') == 'Ref' and e.get('d') == pm: return True
                return any(uses(x) for x in e.values())
            return isinstance(e, list) and any(uses(x) for x in e)
        for i in oc[0].get('inits') or []:
            if i.get('m') in names:
                self.outer.f[i['m']] = Own(self.base, None) if uses(i['e']) else Own(self.impl, None)
        if sorted(v.p.cls for v in self.outer.f.values() if isinstance(v, Own)) != sorted(['BASE', IMPL]): raise Unk('front members')

    def setof(self, pool): return [v for v in pool.f.values() if isinstance(v, SetV)][0]

    def newreg(self, n):
        self.nreg += 1
        k = 'mem%d' % self.nreg
        self.reg[k] = n
        return S(k)

    def seg(self, pool, pat):
        h = self.h
        off = K(0); bs = []
        total = K(0)
        szs = []
        for c in pat:
            s = h.fresh('s'); h.mod[s.t[0][0]] = self.align
            h.assume(s - K(self.align)); szs.append(s); total = total + s
        m = self.newreg(total)
        for c, s in zip(pat, szs):
            b = Obj(self.bcls)
            for f in self.P.classes[self.bcls]['fields']:
                b.f[f['n']] = False if f['t'] == 'bool' else K(0) if 'long' in f['t'] or 'int' in f['t'] else None
            b.f.update(size=s, pool=pool, ptr=m + off, allocated=c == 'A', prev=None, next=None, _heap=True)
            if bs: bs[-1].f['next'] = b; b.f['prev'] = bs[-1]
            off = off + s
            bs.append(b); self.blocks.append(b)
            if c == 'A': self.act.m.append((b.f['ptr'], ('pair', [b.f['ptr'], b])))
            else: self.setof(pool).m.append(b)
        self.segs.append(bs)

    def glob(self, h, n):
        t = n.get('t', '')
        if t == 'bool':
            k = n['g']
            if k not in self.flag: self.flag[k] = h.choose(2, 'flag') == 1
            return self.flag[k]
        raise Unk('global %s' % n['g'])

    def basecall(self, h, o, m, a):
        if m == 'allocate':
            if h.choose(2, 'base') == 0:
                r = self.newreg(a[0]); h.log.append(('base', r, a[0])); return r
            h.log.append(('fail', a[0])); return None
        if m == 'deallocate':
            p = a[0]
            if not (isinstance(p, Lin) and p.c == 0 and len(p.t) == 1 and p.t[0][0] in self.reg): raise Fault('memory handed back to the base allocator that did not come from it')
            if p in self.freed: raise Fault('memory handed back to the base allocator twice')
            self.freed.append(p); h.log.append(('free', p)); return None
        if m in ('->', '*', 'get'): return o
        raise Unk('base %s' % m)

    def watch(self, h, b, n):
        if b is self.impl and isinstance(b.f.get(n['n']), (SetV, MapV)) or b.cls == self.bcls and b.f.get('_heap') or b in self.pools and isinstance(b.f[n['n']], SetV):
            if not h.held: self.unlocked.add(n['n'])
            else: self.locks.append(set(h.held))

    def live(self):
        return [b for b in self.blocks + [o for w, *x in self.h.log if w == 'new' for o in x] if not b.dead and b.cls == self.bcls and b.f.get('_heap')]

    def active(self):
        return {id(c[1][1]): k for k, c in self.act.m}

    def mult(self, l):
        for k, v in l.t:
            if (v * self.h.mod.get(k, 1)) % self.align: return False
        return l.c % self.align == 0

    def invariant(self, direct=()):
        """first broken clause, or None"""
        h = self.h
        live = self.live()
        ids = {id(b) for b in live}
        act = self.active()
        if len(act) != len(self.act.m): return 'two active entries lead to one block'
        for k, c in self.act.m:
            b = c[1][1]
            if id(b) not in ids: return 'an active entry leads to a deleted block'
            if not (k == b.f['ptr']): return 'an active entry is filed under an address that is not the address of its block'
        for pool in self.pools:
            for b in self.setof(pool).m:
                if id(b) not in ids: return 'a deleted block stays in a free list'
                if b.f['pool'] is not pool: return 'a block is in the free list of another pool'
        for b in live:
            f = b.f
            infree = any(x is b for p in self.pools for x in self.setof(p).m)
            if f['allocated'] != (id(b) in act): return 'the in-use flag of a block disagrees with the active table'
            if infree == f['allocated']: return 'a block in use is in a free list' if infree else 'a free block is in no free list (lost memory)'
            if not isinstance(f['size'], Lin) or not isinstance(f['ptr'], Lin): return 'a block without address'
            if not h.entails(f['size'] - K(1)): return 'a block may have no bytes or a negative size'
            if not self.mult(f['size']): return 'a block size is not a multiple of the memory alignment'
            for a, z in (('next', 'prev'), ('prev', 'next')):
                o = f[a]
                if o is None: continue
                if id(o) not in ids: return 'a neighbour link leads to a deleted block'
                if o.f[z] is not b: return 'neighbour links are not inverse'
                if o.f['pool'] is not f['pool']: return 'neighbours belong to different pools'
            o = f['next']
            if o is not None:
                if not (o.f['ptr'] == f['ptr'] + f['size']): return 'neighbouring blocks overlap or leave a gap'
                if not f['allocated'] and not o.f['allocated']: return 'two free neighbours are not merged'
        # every region is covered exactly once
        for k, n in self.reg.items():
            m = S(k)
            gone = m in self.freed
            if m in direct:
                continue
            mine = [b for b in live if any(t == k for t, _ in b.f['ptr'].t)]
            if gone:
                if mine: return 'a block lies in memory that went back to the base allocator'
                continue
            heads = [b for b in mine if b.f['prev'] is None]
            if len(heads) != 1: return 'memory obtained from the base allocator is not tracked by one chain of blocks'
            b = heads[0]
            if not (b.f['ptr'] == m): return 'the first block does not start where its memory starts'
            tot, seen = K(0), 0
            while b is not None and seen <= len(mine):
                tot = tot + b.f['size']; seen += 1; b = b.f['next']
            if seen != len(mine): return 'a block is not linked into the chain of its memory'
            if not (tot == n): return 'the blocks do not cover their memory exactly'
        return None


def patterns():
    """every chain of up to 5 blocks without two free neighbours"""
    out = []
    for n in range(1, 6):
        for p in product('AF', repeat=n):
            s = ''.join(p)
            if 'FF' not in s: out.append(s)
    return out


def snapshot(w):
    return [(b, b.f['ptr'], b.f['size']) for b in w.blocks if b.f['allocated']]


def kept(w, snap, but=None):
    for b, p, s in snap:
        if b is but: continue
        if b.dead: return 'a block in use is deleted'
        if not (b.f['ptr'] == p) or not w.h.entails(b.f['size'] - s): return 'the memory of a block in use changes'
        if not b.f['allocated'] or id(b) not in w.active(): return 'a block in use is given up'
        k = [k for k in w.reg if any(t == k for t, _ in p.t)]
        if k and S(k[0]) in w.freed: return 'the memory of a block in use goes back to the base allocator'
    return None


def check_alloc(r):
    p, tier = r.p, r.tier
    r.rule = 'representation invariant of the block lists preserved on every path of every entry point'
    for c in (IMPL, OUT):
        for n, rs in p.by_name.items():
            if n.startswith(c + '::'):
                for x in rs: r.fn(x)
    align = 32
    npaths = 0
    E0 = dict(this=None, v={}, refs=set())

    def meth(cls, n):
        c = p.by_name.get(cls + '::' + n, [])
        if len(c) != 1: raise Unk('method ' + n)
        return c[0]

    seen = {}

    def bad(key, rec, msg, pat):
        if key not in seen:
            seen[key] = 1
            r.bad(key, loc_of(rec), msg + ' (from the block lists %s; A = in use, F = free)' % (pat,))

    pats = patterns() if tier == 'thorough' else [x for x in patterns() if len(x) <= 4]
    # --- allocate
    sel = [[(0, x)] for x in pats] + [[(1, x)] for x in pats] + [[]] + [[(0, 'F'), (1, 'F')], [(0, 'F'), (0, 'F')], [(0, 'AF'), (0, 'F'), (1, 'F')], [(1, 'F'), (1, 'FA'), (0, 'F')], [(0, 'F'), (0, 'AFA'), (0, 'F')]]
    for pl in sel:
        with r.instance('allocate %s' % (pl,)):
            rec = meth(OUT, 'allocate')
            state = {}

            def run(h):
                w = state['w'] = W(h, p, pl, align)
                state['snap'] = snapshot(w)
                n = S('n'); h.assume(n - K(1)); state['n'] = n
                return h.apply(rec, w.outer, [], E0, pre=[n])
            for h, out in explore(p, run):
                npaths += 1
                w, n = state['w'], state['n']
                cached = all(not v for v in []) 
                if isinstance(out, Fault):
                    bad('allocate/fault', rec, 'allocate: %s' % out, pl); continue
                act = w.active()
                got = [(k, c[1][1]) for k, c in w.act.m if isinstance(out, Lin) and k == out]
                direct = [x[0] for x in [l[1:] for l in h.log if l[0] == 'base'] if isinstance(out, Lin) and x[0] == out and not got]
                m = w.invariant(direct)
                if m: bad('allocate/' + m, rec, 'after allocate ' + m, pl); continue
                m = kept(w, state['snap'])
                if m: bad('allocate/' + m, rec, 'allocate: ' + m, pl); continue
                if w.unlocked: bad('lock/allocate', rec, 'allocate touches %s without holding a lock' % ', '.join(sorted(w.unlocked)[:3]), pl); continue
                state.setdefault('locks', [])
                LOCKS.setdefault('allocate', []).extend(w.locks)
                base = [l for l in h.log if l[0] in ('base', 'fail', 'free', 'search')]
                if out is None:
                    fails = [i for i, l in enumerate(base) if l[0] == 'fail']
                    if not fails: bad('allocate/null', rec, 'allocate gives up without having asked the base allocator', pl); continue
                    left = [b for b in w.live() if not b.f['allocated'] and b.f['prev'] is None and b.f['next'] is None]
                    # with the cache switched off there is nothing to release
                    if any(l[0] == 'search' for l in base):
                        if left: bad('allocate/retry', rec, 'allocate gives up while wholly free cached memory has not been handed back to the base allocator', pl); continue
                        if base[-1][0] == 'free': bad('allocate/retry', rec, 'allocate gives up without asking the base allocator again after it handed cached memory back', pl); continue
                    if len(act) != len(state['snap']): bad('allocate/null-active', rec, 'a failed allocate leaves an active entry', pl); continue
                    r.ok(); continue
                if not isinstance(out, Lin) or not (got or direct):
                    bad('allocate/untracked', rec, 'allocate returns memory that is neither an active block nor memory of the base allocator', pl); continue
                if got:
                    b = got[0][1]
                    if any(b is x for x, _, _ in state['snap']): bad('allocate/reuse', rec, 'allocate returns a block that is already in use', pl); continue
                    if not h.entails(b.f['size'] - n):
                        bad('allocate/size', rec, 'allocate may return a block that is smaller than the request', pl); continue
                    if len(act) != len(state['snap']) + 1: bad('allocate/active', rec, 'allocate registers more or less than the returned block', pl); continue
                    s = [i for i, l in enumerate(base) if l[0] == 'search']; q = [i for i, l in enumerate(base) if l[0] in ('base', 'fail')]
                    if q and (not s or s[0] > q[0]): bad('allocate/search', rec, 'memory is requested from the base allocator without looking for a cached block first', pl); continue
                else:
                    ln = [l[2] for l in h.log if l[0] == 'base' and l[1] == out][0]
                    if not h.entails(ln - n): bad('allocate/size', rec, 'allocate may return less memory than requested', pl); continue
                    if any(w.setof(x).m for x in w.pools) is None: continue
                r.ok('allocate from %s: %s' % (pl, out))
    # --- deallocate
    for pi in (0, 1):
        for pat in (patterns() if tier == 'thorough' else [x for x in patterns() if len(x) <= 5]):
            for ti, c in enumerate(pat):
                if c != 'A': continue
                pl = [(pi, pat), (pi, 'F'), (1 - pi, 'AF')]
                with r.instance('deallocate %s %d' % (pat, ti)):
                    rec = meth(OUT, 'deallocate')
                    state = {}

                    def run(h):
                        w = state['w'] = W(h, p, pl, align)
                        state['snap'] = snapshot(w)
                        b = state['b'] = w.segs[0][ti]
                        return h.apply(rec, w.outer, [], E0, pre=[b.f['ptr']])
                    for h, out in explore(p, run):
                        npaths += 1
                        w = state['w']
                        if isinstance(out, Fault): bad('deallocate/fault', rec, 'deallocate: %s' % out, pat); continue
                        m = w.invariant() or kept(w, state['snap'], state['b'])
                        if m: bad('deallocate/' + m, rec, 'after deallocate ' + m, pat); continue
                        if len(w.act.m) != len(state['snap']) - 1: bad('deallocate/active', rec, 'the freed block stays active, or another one does not', pat); continue
                        if w.unlocked: bad('lock/deallocate', rec, 'deallocate touches %s without holding a lock' % ', '.join(sorted(w.unlocked)[:3]), pat); continue
                        LOCKS.setdefault('deallocate', []).extend(w.locks)
                        r.ok('deallocate block %d of %s' % (ti, pat))
    # memory that was handed out while the cache was off
    for pl in ([], [(0, 'A')], [(0, 'AF'), (1, 'F')]):
        with r.instance('deallocate direct'):
            rec = meth(OUT, 'deallocate'); state = {}

            def run(h):
                w = state['w'] = W(h, p, pl, align); state['snap'] = snapshot(w)
                m = state['m'] = w.newreg(S('n'))
                return h.apply(rec, w.outer, [], E0, pre=[m])
            for h, out in explore(p, run):
                npaths += 1
                w = state['w']
                if isinstance(out, Fault): bad('direct/fault', rec, 'deallocate of memory that came straight from the base allocator: %s' % out, pl); continue
                fr = [l for l in h.log if l[0] == 'free']
                if len(fr) != 1 or fr[0][1] != state['m']: bad('direct/free', rec, 'memory that came straight from the base allocator (cache off) is not handed back to it exactly once', pl); continue
                m = w.invariant([state['m']]) or kept(w, state['snap'])
                if m: bad('direct/' + m, rec, 'after deallocate ' + m, pl); continue
                r.ok()
    # --- destructor
    for pl in ([], [(0, 'F')], [(1, 'F')], [(0, 'F'), (0, 'F'), (1, 'F'), (1, 'F')]):
        with r.instance('destructor'):
            rec = meth(IMPL, '~' + IMPL.split('::')[-1]); state = {}

            def run(h):
                w = state['w'] = W(h, p, pl, align)
                h.watch = None
                return h.apply(rec, w.impl, [], E0, pre=[])
            for h, out in explore(p, run):
                npaths += 1
                w = state['w']
                if isinstance(out, Fault): bad('dtor/fault', rec, 'destruction: %s' % out, pl); continue
                if [k for k in w.reg if S(k) not in w.freed]: bad('dtor/leak', rec, 'destruction does not hand all cached memory back', pl); continue
                if w.live(): bad('dtor/blocks', rec, 'destruction leaks block descriptors', pl); continue
                r.ok()
    r.floor('paths', npaths, 300)
    # one lock for both entry points
    both = [set.intersection(*v) for v in LOCKS.values() if v]
    if len(both) == 2:
        r.check(bool(both[0] & both[1]), 'lock/common', 'src/Tensor/CachedAllocator.cpp', 'allocate and deallocate do not hold one common lock while they use the block lists')
    LOCKS.clear()
    comparator(r, p)
    storage(r, p)


LOCKS = {}


def comparator(r, p):
    """order of the free lists: by size first (lower_bound is a best-fit search), then by something that tells blocks apart"""
    bc = [c for c in p.classes if FLD <= {f['n'] for f in p.classes[c]['fields']}]
    if len(bc) != 1: return r.und('block class')
    n = 0
    for rec in p.funcs.values():
        ps = rec.get('ps') or []
        if len(ps) != 2 or rec.get('ret') != 'bool' or rec.get('body') is None: continue
        if any(x['t'].replace('const ', '').replace(' const', '').strip() != bc[0] + ' *' for x in ps): continue
        r.fn(rec)
        for ds, dp in product((-1, 0, 1), (-1, 0, 1)):
            with r.instance('comparator'):
                def run(h):
                    a, b = Obj(bc[0]), Obj(bc[0])
                    for o, k in ((a, 'a'), (b, 'b')):
                        o.f.update(size=S('s' + k), ptr=S('p' + k), pool=S('pool'), allocated=False, prev=None, next=None)
                    for d, x in ((ds, 's'), (dp, 'p')):
                        f = S(x + 'a') - S(x + 'b')
                        if d < 0: h.assume(f.scale(-1) - K(1))
                        elif d > 0: h.assume(f - K(1))
                        else: h.assume(f); h.assume(f.scale(-1))
                    this = Obj(rec['cls']) if rec.get('cls') and not rec.get('static') else None
                    return h.apply(rec, this, [], dict(this=None, v={}, refs=set()), pre=[a, b])
                want = ds < 0 or ds == 0 and dp < 0
                for h, out in explore(p, run):
                    n += 1
                    if isinstance(out, Fault): continue
                    if ds or dp == 0:
                        r.check(out == want, 'comparator', loc_of(rec), 'the order of the free lists is not by size: a block that is %s compares %s' % (['equal', 'larger', 'smaller'][ds], out), 'comparator')
                    elif out != want:
                        # any consistent tie-break will do; the mirrored case must then be true
                        TIES.setdefault(rec['u'], []).append((dp, out))
                    else: TIES.setdefault(rec['u'], []).append((dp, out)); r.ok()
        t = dict(TIES.pop(rec['u'], []))
        if len(t) == 2: r.check(t[-1] != t[1], 'comparator/tie', loc_of(rec), 'two different blocks of the same size compare equal: the free list drops one of them')
    r.floor('comparator cases', n, 5)


TIES = {}


def storage(r, p):
    """a Storage returns the memory to the allocator it came from, exactly once, whatever was moved in between"""
    ST = NS + 'Storage'
    ct = [x for x in p.by_name.get(ST + '::Storage', []) if x.get('ctor') and len(x.get('ps') or []) >= 2 and x.get('body')]
    if len(ct) != 1: return r.und('Storage constructor')
    ct = ct[0]; r.fn(ct)
    ga = p.by_name.get(NS + 'getAllocator', [])
    for given, fail, hist in product((True, False), (False, True), ('plain', 'move', 'move-dtor', 'late')):
        with r.instance('storage %s %s %s' % (given, fail, hist)):
            log = []

            def run(h):
                log.clear()
                A, D = Obj('ALLOC'), Obj('ALLOC')

                def hook(h, o, m, a):
                    if m == 'allocate':
                        log.append(('alloc', o, a[0])); return None if fail else S('mem1')
                    if m == 'deallocate':
                        log.append(('free', o, a[0])); return None
                    raise Unk('allocator %s' % m)
                h.hooks['ALLOC'] = hook
                dev = Obj(NS + 'Device')
                s = Obj(ST)
                for f in p.classes[ST]['fields']: s.f[f['n']] = None
                old = h.construct
                oc = h.call

                def construct(n, env):
                    t = n.get('t', '')
                    if t.endswith('Device') or t.endswith('Options'): return dev
                    return old(n, env)

                def call(n, env):
                    if n.get('fn', '').endswith('getAllocator'): log.append(('default',)); return D
                    return oc(n, env)
                h.construct, h.call = construct, call
                h.assume(S('n') - K(1))
                h.apply(ct, s, [], dict(this=None, v={}, refs=set()), pre=[S('n'), dev, A if given else None])
                h.exp = A if given else D
                if hist == 'plain': h.destroy(s)
                elif hist in ('move', 'move-dtor', 'late'):
                    t = Obj(ST)
                    for k, v in s.f.items():
                        if isinstance(v, Own): t.f[k] = Own(v.p, v.d); v.p = None
                        else: t.f[k] = v
                    if hist == 'move': h.destroy(t); h.destroy(s)
                    else: h.destroy(s); h.destroy(t)
                return None
            for h, out in explore(p, run):
                al = [x for x in log if x[0] == 'alloc']; fr = [x for x in log if x[0] == 'free']
                if isinstance(out, Fault): r.bad('storage/fault', loc_of(ct), 'releasing a Storage (%s): %s' % (hist, out)); continue
                if not r.check(len(al) == 1 and al[0][1] is h.exp and al[0][2] == S('n'), 'storage/alloc', loc_of(ct), 'a Storage does not obtain exactly its number of bytes from the allocator it was given (or the default one)'): continue
                if fail: r.check(len(fr) == 0, 'storage/free-null', loc_of(ct), 'memory is released although none was obtained'); continue
                r.check(len(fr) == 1 and fr[0][1] is h.exp and fr[0][2] == S('mem1'), 'storage/free', loc_of(ct),
                        'the memory of a Storage is not returned exactly once to the allocator it came from (%s)' % hist, 'Storage %s' % hist)
    # clone: same size, device and allocator, all bytes
    cl = [x for x in p.by_name.get(ST + '::clone', []) if x.get('body')]
    if len(cl) == 1:
        r.fn(cl[0])
        with r.instance('clone'):
            log = []

            def run(h):
                log.clear()
                A = Obj('ALLOC'); dev = Obj(NS + 'Device')
                dt = [v for k, v in p.enums[NS + 'DeviceType']['e'] if k.lower().endswith('cpu')]
                for f in p.classes[NS + 'Device']['fields']: dev.f[f['n']] = K(dt[0]) if 'DeviceType' in f['t'] else K(0)

                def mk(nm, n, al):
                    o = Obj(ST)
                    for f in p.classes[ST]['fields']:
                        t = f['t']
                        o.f[f['n']] = n if t == 'long' else dev if t.endswith('Device') else al if 'Allocator' in t else Own(S(nm), None)
                    return o
                s = mk('mem1', S('n'), A)

                def ext(h, fn, n, a):
                    if 'make_shared' in fn:
                        log.append(('make', a)); o = mk('mem2', a[0], a[2] if len(a) > 2 else None)
                        return o
                    if fn.split('::')[-1] in ('memcpy', 'memmove'):
                        log.append(('copy', a)); return a[0]
                    raise Unk('call ' + fn)
                h.hooks['ext'] = ext
                oc = h.construct

                def construct(n, env):
                    if n.get('t', '').endswith('Device') and n.get('a'): return h.val(n['a'][0], env)
                    if 'shared_ptr' in n.get('t', '') and n.get('a'): return h.val(n['a'][0], env)
                    return oc(n, env)
                h.construct = construct
                occ = h.call

                def call(n, env):
                    if 'shared_ptr' in n.get('fn', '') and n.get('op') in ('->', '*') and n.get('obj'): return h.val(n['obj'], env)
                    return occ(n, env)
                h.call = call
                h.assume(S('n'))
                h.A = A; h.dev = dev
                return h.apply(cl[0], s, [], dict(this=None, v={}, refs=set()), pre=[])
            for h, out in explore(p, run):
                if isinstance(out, Fault): r.bad('clone/fault', loc_of(cl[0]), 'Storage::clone: %s' % out); continue
                mkd = [x for x in log if x[0] == 'make']; cp = [x[1] for x in log if x[0] == 'copy']
                if not r.check(len(mkd) == 1 and mkd[0][1][0] == S('n') and mkd[0][1][1] is h.dev, 'clone/new', loc_of(cl[0]), 'the clone of a Storage has another size or device'): continue
                r.check(len(mkd[0][1]) < 3 or mkd[0][1][2] is h.A, 'clone/allocator', loc_of(cl[0]), 'the clone of a Storage uses another allocator')
                zero = h.entails(S('n').scale(-1))
                r.check(zero or (len(cp) == 1 and cp[0][0] == S('mem2') and cp[0][1] == S('mem1') and cp[0][2] == S('n')), 'clone/copy', loc_of(cl[0]),
                        'Storage::clone does not copy every byte from the original into the clone')
    # the heap allocator under the cache
    for cls in sorted(c for c in p.classes if c.startswith(NS + 'CPUAllocator')):
        for m in ('allocate', 'deallocate'):
            for rec in p.by_name.get(cls + '::' + m, []):
                if not rec.get('body'): continue
                r.fn(rec)
                with r.instance(cls + m):
                    log = []

                    def run(h):
                        log.clear()
                        o = Obj(cls)
                        for f in p.classes[cls]['fields']: o.f[f['n']] = h.empty(f['t']) or S('align')

                        def ext(h, fn, n, a):
                            log.append((fn.split('::')[-1], a))
                            return S('mem1') if 'alloc' in fn else None
                        h.hooks['ext'] = ext
                        return h.apply(rec, o, [], dict(this=None, v={}, refs=set()), pre=[S('n') if m == 'allocate' else S('mem1')])
                    for h, out in explore(p, run):
                        if isinstance(out, Fault): r.bad('cpu/fault', loc_of(rec), str(out)); continue
                        if m == 'allocate':
                            ok = out == S('mem1') and len(log) == 1 and (log[0][0] == 'aligned_alloc' and log[0][1] == [S('align'), S('n')] or log[0][0] == 'malloc' and log[0][1] == [S('n')] and '<false>' in cls)
                            r.check(ok, 'cpu/allocate', loc_of(rec), 'CPUAllocator::allocate does not return the requested number of aligned bytes')
                        else:
                            r.check(len(log) == 1 and log[0][0] == 'free' and log[0][1] == [S('mem1')], 'cpu/deallocate', loc_of(rec), 'CPUAllocator::deallocate does not free exactly the memory it is given')
