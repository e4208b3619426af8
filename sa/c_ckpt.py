"""Checkpoints: what Serializer::save writes, Serializer::load reads back, and nothing else is accepted.
Both functions are reduced to their effects (stream writes; reads of the mapped file; copies into tensors; the success flag) with their guards.
The writer's layout is decided symbolically (sizes and offsets as polynomials over the entries), the reader by decision tables over the guards of
one record: which reads, copies, verdicts and cursor advances a record leads to, for records that are whole, truncated, mismatching or hostile."""
from itertools import product
from model import *
import alg
from c_module import bare
from c_bcast import Und, counter, poly, zero

M64 = 1 << 64
S = 'tinytorch::Serializer::'
OPQ = ('tinytorch::MMapUtils', 'tinytorch::nn::Module', 'tinytorch::Tensor', 'tinytorch::Storage')
SZ = {'bool': 1, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 4}


class Addr:
    def __init__(self, o): self.o = o


class Oob(Exception): pass


def tsize(t):
    t = t.replace('const ', '').strip()
    if t in SZ: return SZ[t]
    return {'uint8_t': 1, 'int8_t': 1, 'uint16_t': 2, 'uint32_t': 4, 'int32_t': 4}.get(t.split('::')[-1], 8)


def layout(p, cls):
    """offset and size of every field, sizeof"""
    out, o, al = {}, 0, 1
    for f in p.classes[cls]['fields']:
        n = tsize(f['t'])
        o = (o + n - 1) // n * n
        out[f['n']] = (o, n)
        o += n
        al = max(al, n)
    return out, (o + al - 1) // al * al


def last(fn): return fn.split('<')[0].split('::')[-1] if not fn.split('::')[-1].startswith('operator') else fn.split('::')[-1]


def mname(fn):
    """method name of a (templated) class: the last component outside angle brackets"""
    d, i = 0, len(fn)
    while i:
        i -= 1
        if fn[i] == '>' and not fn[:i + 1].endswith(('operator>', 'operator->', 'operator>>')): d += 1
        elif fn[i] == '<' and not fn[:i + 1].endswith(('operator<', 'operator<<')): d -= 1
        elif not d and fn[i] == ':': return fn[i + 1:]
    return fn


def is_map(t): return t.op == 'call' and t.a[0].endswith('MMapUtils::mapFileForRead')


class Load:
    def __init__(self, res, rec):
        self.res, self.rec = res, rec
        self.I = Interp(res.p, Policy(opaque=lambda r: r['fn'].startswith(OPQ)))
        self.rets = self.I.run(rec)
        for u in {e.rec['u'] for e in self.I.evs if e.rec}: res.functions.add(u)
        self.by_seq = {e.seq: e for e in self.I.evs}
        self.conds = {c for i in self.I.loopinfo.values() for c in [i['cond']] if c is not None}
        self.hdr, self.hsize = layout(res.p, S + 'TensorHeader')
        self.lids = {l for e in self.I.evs for l in e.loops}

    def where(self, e=None): return loc_of(self.rec, e.line() if e else None)

    def loopcond(self, g): return g.op == 'inrange' or g in self.conds or any(c.op in ('and', 'not') and g in c.a for c in self.conds)

    # ---- evaluation of a term in a world
    def ev(self, t, w, act):
        t0, t = t, bare(t)
        v = self.atom(t0 if t0.op == 'mut' else t, w, act)
        if v is not None: return v
        c = cval(t)
        if c is not None: return int(c) % M64 if not isinstance(c, bool) else c
        if t.op == 'enum': return [x for x in t.a if isinstance(x, int)][0] if any(isinstance(x, int) for x in t.a) else self.enum(t)
        E = lambda x: self.ev(x, w, act)
        if t.op == 'list' and len(t.a[0]) == 1: return E(t.a[0][0])
        if t.op == 'phi': return E(t.a[1] if E(t.a[0]) else t.a[2])
        if t.op == 'not': return not E(t.a[0])
        if t.op in ('and', 'or'):
            # the operands' order is not kept: a read past the end counts only when no other operand decides
            oob = und = None
            for x in t.a:
                try: v = bool(E(x))
                except Oob as q: oob = q; continue
                except Und as q: und = q; continue
                if v == (t.op == 'or'): return v
            if und: raise und
            if oob: raise oob
            return t.op == 'and'
        if t.op in ('min', 'max'): return (min if t.op == 'min' else max)(E(x) for x in t.a)
        if t.op == 'neg': return -E(t.a[0]) % M64
        if t.op in ('addr', 'addrof') and len(t.a) == 1 and isinstance(t.a[0], T) and t.a[0].op in ('elem', 'E'):
            return self.add(E(t.a[0].a[0]), E(t.a[0].a[1]))
        if t.op in ('+', '-', '*', '/', '%', '<', '<=', '==') and len(t.a) == 2:
            x, y = E(t.a[0]), E(t.a[1])
            if t.op == '+' and (isinstance(x, Addr) or isinstance(y, Addr)): return self.add(x, y)
            if isinstance(x, Addr) and isinstance(y, Addr) and t.op in ('-', '<', '<=', '=='):
                x, y = x.o, y.o
            elif isinstance(x, Addr) and t.op == '-': return Addr(x.o - y)
            elif isinstance(x, Addr) or isinstance(y, Addr): raise Und('pointer arithmetic')
            if t.op in '/%':
                if not y: raise Und('division')
                return x // y if t.op == '/' else x % y
            return {'+': lambda: (x + y) % M64, '-': lambda: (x - y) % M64, '*': lambda: (x * y) % M64, '<': lambda: x < y, '<=': lambda: x <= y, '==': lambda: x == y}[t.op]()
        raise Und('value ' + show(t)[:90])

    def enum(self, t):
        """enumerators get their declared order"""
        n = t.a[0] if isinstance(t.a[0], str) else show(t)
        return self.enums.setdefault(n.split('::')[-1], len(self.enums))

    enums = {}

    def add(self, x, y):
        if isinstance(x, Addr) and isinstance(y, Addr): raise Und('pointer sum')
        if isinstance(y, Addr): x, y = y, x
        return Addr(x.o + y)

    def atom(self, t, w, act):
        E = lambda x: self.ev(x, w, act)
        if t.op == 'mut':
            e = self.by_seq.get(t.a[1])
            if e is not None and e.kind == 'call' and mname(e.fn) in ('memcpy', 'memmove') and len(e.args) == 3: return self.mem(E(e.args[1]), E(e.args[2]), w)
            t = bare(t)
        if t.op == 'fld' and isinstance(t.a[0], T):
            b = bare(t.a[0])
            if is_map(b): return {'dataPtr': Addr(0), 'fileSize': w['FS'], 'success': w.get('mapped', True)}.get(t.a[1])
            if b.op in ('deref', 'D', 'elem'):
                a = self.addr_of(b, w, act)
                if a is not None and t.a[1] in self.hdr: return self.field(a.o, t.a[1], w)
            s = self.struct_copy(t.a[0])
            if s is not None and t.a[1] in self.hdr: return self.field(E(s).o, t.a[1], w)
        if is_map(t): return None
        if t.op in ('deref', 'D', 'elem', 'E'):
            a = self.addr_of(t, w, act)
            if a is not None: return self.mem(a, 8, w)
        if t.op == 'param':
            if t is self.strict: return w['strict']
            return None
        if t.op == 'hav':
            return self.hav(t, w, act)
        if t.op == 'call':
            n = mname(t.a[0])
            if t.a[0] == 'tinytorch::Tensor::dtype': return w['tdtype']
            if t.a[0] == 'tinytorch::Tensor::numel': return w['N']
            if n in ('count', 'contains') and t.a[1] is not None and len(t.a[2]) == 1: return self.member(t.a[1], t.a[2][0], w)
            if n in ('operator==', 'operator!='):
                a = [x for x in ((t.a[1],) if t.a[1] is not None else ()) + tuple(t.a[2])]
                v = self.compare(a, w)
                if v is not None: return v == (n == 'operator==')
        if t.op == '==' and len(t.a) == 2: return self.compare(list(t.a), w)
        return None

    def struct_copy(self, t):
        """a local struct filled by one memcpy from the file"""
        if t.op != 'mut': return None
        e = self.by_seq.get(t.a[1])
        return e.args[1] if e is not None and e.kind == 'call' and mname(e.fn) in ('memcpy', 'memmove') and len(e.args) == 3 else None

    def compare(self, a, w):
        a = [bare(x) for x in a]
        if len(a) != 2: return None
        n = [mname(x.a[0]) if x.op == 'call' else '' for x in a]
        if 'find' in n and 'end' in n:
            f = a[n.index('find')]
            return not self.member(f.a[1], f.a[2][0], w)
        if any(x.op == 'call' and x.a[0] == 'tinytorch::Tensor::shape' for x in a): return w['shapeEq']
        return None

    def member(self, m, k, w):
        """a look-up of a key: the record's name among the module's states, or a state's name among the keys of the file"""
        k = bare(k)
        m = bare(m)
        if self.is_name(k, w): return w['found']
        if k.op == 'fld' and k.a[1] == 'first': return w['present']
        raise Und('look-up of ' + show(k)[:60])

    def is_name(self, k, w):
        """std::string(base + cursor, length)"""
        if k.op == 'new' and 'basic_string' in k.a[0] and len(k.a[1]) >= 2:
            a, n = self.ev(k.a[1][0], w, ()), self.ev(k.a[1][1], w, ())
            if isinstance(a, Addr):
                if isinstance(n, Addr): n = n.o - a.o
                self.names.add((a.o - w['h'], n == w['hdr'][self.role['name']] if self.role.get('name') else None, n))
                return True
        return False

    def addr_of(self, t, w, act):
        try:
            if t.op in ('deref', 'D'): a = self.ev(t.a[0], w, act)
            else: a = self.add(self.ev(t.a[0], w, act), self.ev(t.a[1], w, act))
        except (Und, AttributeError): return None
        return a if isinstance(a, Addr) else None

    def touch(self, o, n, w):
        if o < 0 or o + n > w['FS'] and n: raise Oob((o, n))

    def field(self, o, f, w):
        fo, n = self.hdr[f]
        self.touch(o + fo, n, w)
        if o != w['h']:
            raise Und('header at %s' % o)
        return w['hdr'][f]

    def mem(self, a, n, w):
        if not isinstance(a, Addr): raise Und('read')
        if isinstance(n, Addr): raise Und('read')
        self.touch(a.o, n, w)
        if a.o in w['fixed']: return w['fixed'][a.o]
        q = a.o - w['h']
        for f, (fo, k) in self.hdr.items():
            if q == fo: return w['hdr'][f]
        return w.get('dim', 3)

    def hav(self, t, w, act):
        lid, l = t.a[0], t.a[2]
        info = self.I.loopinfo.get(lid)
        if info is None or lid not in self.lids: raise Und('loop value')
        if l is self.sloc: return w['ok']
        if lid == self.L:
            try:
                h = counter(self.I, lid)[0]
            except Und: h = None
            if h is t: return w['i']
            if w.get('havs') is not None: w['havs'].add(l)
            i = info['init'].get(l)
            if i is None: raise Und('loop value')
            v = self.ev(i, dict(w, FS=10**6), ())
            return Addr(w['h']) if isinstance(v, Addr) else w['h']
        if lid == self.D:
            h, way, a, n = counter(self.I, lid)
            cnt = self.ev(n, w, ()) - self.ev(a, w, ())
            j = w.get('j', 0) if lid in act else max(0, cnt)
            if h is t: return (self.ev(a, w, ()) + j) % M64
            i = info['init'].get(l)
            nx = info['next'].get(l)
            if i is None or nx is None: raise Und('loop value')
            st = self.step(t, nx)
            v = self.ev(i, w, ())
            return Addr(v.o + j * st) if isinstance(v, Addr) else (v + j * st) % M64
        raise Und('loop value of ' + lid)

    def step(self, h, nx):
        def at(x):
            x = bare(x)
            if x is h: return alg.atom('h')
            return None
        d = poly(nx, at) - alg.atom('h')
        for k in range(0, 65):
            if zero(d - alg.const(k)): return k
        raise Und('step')

    # ---- guards and effects
    def holds(self, e, w, pre=0):
        for g, p in e.gl:
            if self.loopcond(g):
                continue
            v = self.ev(g, w, e.loops)
            if bool(v) != p: return False
        return True

    def check(self):
        res = self.res
        I = self.I
        ps = self.rec['ps']
        self.strict = mk('param', [i for i, p in enumerate(ps) if p['t'] == 'bool'][0], [p['n'] for p in ps if p['t'] == 'bool'][0])
        self.names, self.role = set(), {}
        self.sloc = None
        # the verdict
        fin = [bare(t) for _, t, *_ in self.rets if cval(bare(t)) is None]
        v = fin[-1] if fin else None
        if v is None or v.op != 'hav': raise Und('verdict')
        self.sloc = v.a[2]
        # the copy into a tensor, and the loop over the records around it
        cps = [e for e in I.evs if e.kind == 'call' and e.loops and (mname(e.fn) in ('memcpy', 'memmove', 'copyOnDevice') and self.dst(e))]
        if not cps: raise Und('copy')
        self.L = cps[0].loops[0]
        self.D = None
        inner = [l for e in I.evs for l in e.loops if e.loops[0] == self.L and l != self.L]
        if len(set(inner)) != 1: raise Und('loops of a record')
        self.D = inner[0]
        self.cps = cps
        self.roles()
        self.gates()
        self.records()
        self.missing()

    def dst(self, e):
        a = bare(e.args[0])
        return a.op == 'call' and a.a[0].startswith('tinytorch::Tensor::dataPtr')

    def src_n(self, e):
        """(source address, bytes) of a copy"""
        if mname(e.fn) == 'copyOnDevice': return e.args[2], e.args[4]
        return e.args[1], e.args[2]

    def roles(self):
        """which header field means what to the reader"""
        def only(t):
            fs = {x.a[1] for x in subterms(t) if x.op == 'fld' and x.a[1] in self.hdr}
            return fs
        s, n = self.src_n(self.cps[0])
        self.role['offset'] = self.one(only(s))
        f = only(n)
        self.role['size'] = self.one(f) if f else None
        _, _, _, cnt = counter(self.I, self.D)
        self.role['ndim'] = self.one(only(cnt))
        nm = [e for e in self.I.evs if e.kind == 'ctor' and 'basic_string' in e.fn and len(e.args) >= 2 and self.L in e.loops and only(e.args[1])]
        if not nm: raise Und('name')
        self.role['name'] = self.one({f for f in only(nm[0].args[1])} - only(nm[0].args[0]) or only(nm[0].args[1]))
        self.nm = nm[0]
        dt = set()
        for e in self.I.evs:
            for g, _ in e.gl:
                for x in subterms(g):
                    if x.op == '==' and any(y.op == 'call' and y.a[0] == 'tinytorch::Tensor::dtype' for y in map(bare, x.a)):
                        for y in map(bare, x.a): dt |= only(y) if y.op != 'call' and y.op != 'enum' else set()
        self.role['dtype'] = self.one(dt) if len(dt) == 1 else None
        for k in ('size', 'dtype'):
            rest = set(self.hdr) - set(self.role.values())
            if self.role[k] is None: self.role[k] = self.one(rest) if len(rest) == 1 else None
        if len(set(self.role.values())) != 5: raise Und('roles of the header fields')

    def one(self, s):
        if len(s) != 1: raise Und('field ' + ','.join(sorted(s)))
        return next(iter(s))

    def world(self, **k):
        r = self.role
        w = dict(FS=200, h=24, i=0, strict=True, found=True, shapeEq=True, tdtype=self.f32, N=4, ok=True, present=True, mapped=True,
                 fixed={0: self.magic, 8: self.version, 16: 3}, hdr={r['name']: 5, r['ndim']: 2, r['dtype']: self.f32, r['offset']: 120, r['size']: 16})
        hd = k.pop('hdr', {})
        w.update(k)
        w['hdr'].update({r[x]: y for x, y in hd.items()})
        return w

    def gates(self):
        """the prefix: magic, version, count; their values must be the ones save writes (compared by Save)"""
        I = self.I
        self.magic, self.version = self.consts
        ev0 = mk('param', 0, 'x')
        self.f32 = None
        for x in {y for e in I.evs for g, _ in e.gl for y in subterms(g)} | {y for e in I.evs for a in e.args if isinstance(a, T) for y in subterms(a)}:
            if x.op == 'enum' and str(x.a[0]).endswith('Float32') or x.op == 'enum' and 'Float32' in show(x):
                self.f32 = self.ev(x, dict(FS=0, h=0), ())
        if self.f32 is None: raise Und('dtype sizes')
        for nm, k in (('not mapped', dict(mapped=False)), ('shorter than its prefix', dict(FS=7)), ('shorter than its prefix', dict(FS=8)), ('shorter than its prefix', dict(FS=16)), ('shorter than its prefix', dict(FS=23)), ('shorter than its prefix', dict(FS=15)),
                      ('with another magic', dict(fixed={0: self.magic ^ 1, 8: self.version, 16: 3})), ('with another magic', dict(fixed={0: self.magic + (1 << 32), 8: self.version, 16: 3})), ('with another version', dict(fixed={0: self.magic, 8: self.version + 1, 16: 3})), ('with another version', dict(fixed={0: self.magic, 8: 0, 16: 3}))):
            w = self.world(**k)
            self.prefix(nm, w)

    def prefix(self, nm, w):
        """everything before the first record: the first return that is reached must refuse, after releasing the mapping"""
        res = self.res
        un = 0
        for e in sorted(self.I.evs, key=lambda e: e.seq):
            if e.loops: 
                if e.kind == 'call' and e in self.cps: break
                continue
            try:
                if not self.holds(e, w): continue
                if e.kind == 'load' or e.kind == 'call' and mname(e.fn) in ('memcpy', 'memmove'):
                    t = e.objloc if e.kind == 'load' else mk('D', e.args[1])
                    self.ev(t, w, ())
            except Oob as o:
                res.bad('load/prefix-read', self.where(e), 'Serializer::load of a file %s reads bytes %d..%d of %d' % (nm, o.args[0][0], o.args[0][0] + o.args[0][1], w['FS']))
                return
            if e.kind == 'call' and e.fn.endswith('MMapUtils::unmapFile'): un += 1
            if e.kind == 'return' and e.rec is self.rec:
                t = bare(e.args[0])
                v = cval(t)
                if v is None: break
                res.check(not v, 'load/refuse', self.where(e), 'Serializer::load accepts a file %s' % nm)
                res.check(un == (1 if w['mapped'] else 0), 'load/unmap', self.where(e), 'Serializer::load of a file %s releases the mapping %d times' % (nm, un), sample='a file %s is refused' % nm)
                return
        res.bad('load/refuse', self.where(), 'Serializer::load does not refuse a file %s' % nm)

    def need(self, w):
        """bytes of the record that exist; None when it is cut off"""
        rem = w['FS'] - w['h']
        if rem < self.hsize: return None
        rem -= self.hsize
        n, d = w['hdr'][self.role['name']], w['hdr'][self.role['ndim']]
        if n > rem: return None
        rem -= n
        if d * 8 > rem: return None
        return self.hsize + n + 8 * d

    def replay(self, w):
        """effects of one record in a world"""
        out = dict(copies=[], ok=w['ok'], ret=None, insert=False, cow=None, unmap=0, oob=None, stop=False)
        for e in sorted((x for x in self.I.evs if x.loops and x.loops[0] == self.L), key=lambda e: e.seq):
            if out['ret'] is not None: break
            try:
                ws = [w]
                if self.D in e.loops:
                    h, way, a, n = counter(self.I, self.D)
                    pre = [(g, p) for g, p in e.gl if not self.loopcond(g)]
                    if not self.holds(e, dict(w, j=0)): continue
                    cnt = max(0, self.ev(n, w, ()) - self.ev(a, w, ()))
                    ws = [dict(w, j=j) for j in sorted({0, 1, 2, cnt - 1}) if 0 <= j < cnt]
                for x in ws:
                    if not self.holds(e, x): continue
                    self.effect(e, x, out)
            except Oob as o:
                out['oob'] = (e, o.args[0])
                return out
        out['next'] = None
        return out

    def effect(self, e, w, out):
        if e.kind == 'load' and e.objloc is not None: self.ev(e.objloc, w, e.loops) if self.mapped(e.objloc) else None
        elif e.kind in ('decl', 'branch', 'write'):
            for a in e.args:
                if isinstance(a, T) and self.mapped(a) and a.op != 'new':
                    try: self.ev(a, w, e.loops)
                    except Und: pass
        elif e.kind == 'ctor' and 'basic_string' in e.fn and len(e.args) >= 2 and self.mapped(e.args[0]):
            a, n = self.ev(e.args[0], w, e.loops), self.ev(e.args[1], w, e.loops)
            if isinstance(n, Addr): n = n.o - a.o
            self.touch(a.o, n, w)
            out['name'] = (a.o - w['h'], n)
        if e.kind == 'write' and e.objloc is self.sloc and e.args: out['ok'] = bool(self.ev(e.args[0], dict(w, ok=out['ok']), e.loops))
        if e in self.cps:
            s, n = self.src_n(e)
            s, n = self.ev(s, w, e.loops), self.ev(n, w, e.loops)
            if not isinstance(s, Addr): raise Und('source of the copy')
            self.touch(s.o, n, w)
            out['copies'].append((s.o, n, out['cow'], bare(e.args[0]).a[1], e))
        if e.kind == 'call' and e.fn.endswith('::copyOnWrite'): out['cow'] = e.obj
        if e.kind == 'call' and e.fn.endswith('MMapUtils::unmapFile'): out['unmap'] += 1
        if e.kind == 'call' and mname(e.fn) in ('insert', 'emplace', 'emplace_back', 'push_back') and e.args and self.is_name(bare(e.args[0]), w): out['insert'] = True
        if e.kind == 'return' and e.rec is self.rec:
            v = bare(e.args[0])
            out['ret'] = bool(self.ev(v, dict(w, ok=out['ok']), e.loops))

    def mapped(self, t): return any(is_map(x) for x in subterms(t))

    def records(self):
        res = self.res
        r = self.role
        big = M64 - 1
        n = 0
        vars_ = [dict()]
        vars_ += [dict(FS=x) for x in (24, 63, 64, 68, 69, 76, 84, 85, 135)]
        vars_ += [dict(h=x) for x in (40, 135, 136, 155, 160, 161, 199, 200)]
        vars_ += [dict(hdr=dict(name=x)) for x in (0, 40, 120, 136, 137, big, M64 - 40, M64 - 64, 1 << 63)]
        vars_ += [dict(hdr=dict(ndim=x)) for x in (0, 1, 16, 17, 1 << 61, big, (1 << 61) + 1, 1 << 63)]
        vars_ += [dict(hdr=dict(name=100, ndim=x)) for x in (4, 5, (1 << 61) - 12)]
        vars_ += [dict(hdr=dict(offset=x)) for x in (184, 185, 200, 201, big, M64 - 16, M64 - 8, 1 << 63)]
        vars_ += [dict(hdr=dict(size=x, offset=o)) for x in (8, 24, 0, 80, 81, big, 4) for o in (120, 136)]
        vars_ += [dict(hdr=dict(size=M64 - 100, offset=200), N=(M64 - 100) // 4), dict(hdr=dict(size=88, offset=120), N=22), dict(hdr=dict(size=0, offset=200), N=0), dict(hdr=dict(size=8, offset=M64 - 4), N=2)]
        flags = [dict(strict=s, ok=k, found=f, shapeEq=q, dt=d) for s, k, f, q, d in product((True, False), repeat=5)]
        for v in vars_:
            for f in flags if not v else [dict(), dict(found=False, strict=False), dict(shapeEq=False, strict=False)]:
                f = dict(f)
                d = f.pop('dt', True)
                for o in [self.f32] if d else self.others() if not v else [self.f32 + 1000]:
                    w = self.world(**f, **{k: (dict(x) if isinstance(x, dict) else x) for k, x in v.items()})
                    w['tdtype'] = o
                    self.record(w, d)
                    n += 1
        res.counts['records'] = n
        # the cursor
        info = self.I.loopinfo[self.L]
        w = self.world(havs=set())
        cur = [l for l in info['next'] if self.is_cursor(l, info)]
        if len(cur) != 1: raise Und('cursor')
        c = cur[0]
        v0 = self.ev(info['init'][c], dict(w, FS=10**6), ())
        v0 = v0.o if isinstance(v0, Addr) else v0
        self.start = v0
        for nl, nd in product((0, 5, 31), (0, 1, 3)):
            w = self.world(hdr=dict(name=nl, ndim=nd))
            v = self.ev(info['next'][c], w, ())
            v = v.o if isinstance(v, Addr) else v
            res.check(v == w['h'] + self.hsize + nl + 8 * nd, 'load/cursor', self.where(), 'after a record with a name of %d bytes and %d dimensions Serializer::load moves its cursor by %s, not by %d' % (nl, nd, v - w['h'], self.hsize + nl + 8 * nd), sample='the cursor moves by the record')
        # the dimensions are read where save puts them and are what is compared
        h, way, a, cnt = counter(self.I, self.D)
        di = self.I.loopinfo[self.D]
        rd = [e for e in self.I.evs if e.kind == 'load' and self.D in e.loops and self.mapped(e.objloc)] or [e for e in self.I.evs if e.kind == 'call' and mname(e.fn) in ('memcpy',) and self.D in e.loops]
        if not rd: raise Und('dims')
        for nl, j in product((0, 5), (0, 1, 2)):
            w = self.world(hdr=dict(name=nl, ndim=3), j=j)
            t = rd[0].objloc if rd[0].kind == 'load' else mk('D', rd[0].args[1])
            o = self.ev(t.a[0], w, rd[0].loops) if t.op in ('D', 'deref') else self.add(self.ev(t.a[0], w, rd[0].loops), self.ev(t.a[1], w, rd[0].loops))
            res.check(isinstance(o, Addr) and o.o == w['h'] + self.hsize + nl + 8 * j, 'load/dims', self.where(rd[0]), 'Serializer::load reads dimension %d of a record at byte %s of it, not at %d' % (j, o.o - w['h'] if isinstance(o, Addr) else '?', self.hsize + nl + 8 * j))
            res.check(self.ev(cnt, w, ()) - self.ev(a, w, ()) == 3, 'load/ndim', self.where(rd[0]), 'Serializer::load reads %s dimensions of a record with 3' % (self.ev(cnt, w, ()) - self.ev(a, w, ())))

    def is_cursor(self, l, info):
        if l is self.sloc: return False
        try:
            if counter(self.I, self.L)[0].a[2] is l: return False
        except Und: pass
        h = [x for e in self.I.evs if self.L in e.loops for a in list(e.args) + ([e.objloc] if e.objloc is not None else []) if isinstance(a, T) and self.mapped(a) for x in subterms(a) if x.op == 'hav' and x.a[0] == self.L and x.a[2] is l]
        if not h: return False
        try: v = self.ev(info['init'][l], dict(self.world(), FS=10**6), ())
        except (Und, KeyError): return False
        return isinstance(v, (Addr, int)) and not isinstance(v, bool)

    def others(self):
        return sorted(x for x in {v for _, v in self.res.p.enums['tinytorch::DType']['e'][:6]} | {self.f32 + 1000} if x != self.f32)

    def desc(self, w):
        r = self.role
        h = w['hdr']
        return 'a record at %d of %d bytes (name %d, ndim %d, data %d+%d; strict=%s found=%s shape %s dtype %s)' % (w['h'], w['FS'], h[r['name']], h[r['ndim']], h[r['offset']], h[r['size']], w['strict'], w['found'], 'equal' if w['shapeEq'] else 'different', 'equal' if w['tdtype'] == h[r['dtype']] else 'different')

    def record(self, w, dtok):
        res, r = self.res, self.role
        out = self.replay(w)
        if out['oob']:
            e, (o, n) = out['oob']
            res.bad('load/read', self.where(e), 'Serializer::load reads bytes %d..%d of a file of %d bytes for %s' % (o, o + n, w['FS'], self.desc(w)))
            return
        need = self.need(w)
        off, size = w['hdr'][r['offset']], w['hdr'][r['size']]
        fits = off <= w['FS'] and size <= w['FS'] - off
        exp = w['N'] * 4
        match = w['shapeEq'] and dtok and size == exp and fits
        ok = out['ok'] if out['ret'] is None else out['ret']
        d = self.desc(w)
        if need is None or w['found'] and not match:
            res.check(not out['copies'], 'load/copy-refused', self.where(out['copies'][0][4] if out['copies'] else None), 'Serializer::load copies data for %s' % d)
            res.check(not ok, 'load/verdict', self.where(), 'Serializer::load reports success for %s' % d)
            return
        if not w['found']:
            res.check(not out['copies'], 'load/copy-unknown', self.where(), 'Serializer::load copies data for %s' % d)
            res.check(ok == (w['ok'] and not w['strict']), 'load/unexpected', self.where(), 'Serializer::load reports %s for %s' % ('success' if ok else 'failure', d))
            return
        # a record that ends exactly or leaves room is accepted
        if off < w['h'] + need and size: return          # data inside the header section: a stricter reader may refuse
        res.check(len(out['copies']) == 1, 'load/copy', self.where(), 'Serializer::load makes %d copies for %s' % (len(out['copies']), d))
        res.check(ok == w['ok'], 'load/accept', self.where(), 'Serializer::load turns its verdict from %s to %s for %s' % (w['ok'], ok, d))
        for s, n, cow, t, e in out['copies']:
            res.check((s, n) == (off, size), 'load/copy-range', self.where(e), 'Serializer::load copies %s bytes from %s for %s' % (n, s, d), sample='a matching record: its bytes are copied')
            res.check(cow is not None and isinstance(cow, T) and bare(cow) is bare(t), 'load/detach', self.where(e), 'Serializer::load writes into a tensor whose storage may be shared (no copyOnWrite on it before)')
            k = self.key_of(t)
            res.check(k is not False, 'load/target', self.where(e), 'Serializer::load copies a record into a tensor that was not looked up by its name')
        res.check(out.get('name') == (self.hsize, w['hdr'][r['name']]), 'load/name', self.where(self.nm), 'Serializer::load reads the name %s bytes into the record, %s bytes long, for %s' % (*(out.get('name') or ('?', '?')), d))
        res.check(out['insert'] or not w['ok'], 'load/seen', self.where(), 'Serializer::load does not note the key of %s as present' % d)

    def key_of(self, t):
        """the tensor copied into is the mapped value found under the record's name"""
        for x in subterms(t):
            if x.op == 'call' and mname(x.a[0]) in ('find', 'at', 'operator[]') and x.a[2]: return bare(x.a[2][0]).op == 'new' and 'basic_string' in bare(x.a[2][0]).a[0]
        raise Und('tensor of the copy')

    def missing(self):
        """after the records: a state without a record is missing; then the mapping is released once"""
        res, I = self.res, self.I
        post = [l for l in I.loopinfo if l in self.lids and l != self.L and any(e.kind == 'write' and e.objloc is self.sloc and e.loops and e.loops[0] == l for e in I.evs)]
        last_copy = max(e.seq for e in self.cps)
        post = [l for l in post if min(e.seq for e in I.evs if e.loops and e.loops[0] == l) > last_copy]
        if not post: res.bad('load/missing', self.where(), 'Serializer::load never reports states the file lacks'); return
        l = post[-1]
        for pr, st, ok in product((True, False), repeat=3):
            w = self.world(present=pr, strict=st, ok=ok)
            v = ok
            for e in I.evs:
                if e.kind == 'write' and e.objloc is self.sloc and e.loops and e.loops[0] == l and self.holds(e, dict(w, ok=v)): v = bool(self.ev(e.args[0], dict(w, ok=v), e.loops))
            res.check(v == (ok and (pr or not st)), 'load/missing', self.where(), 'with strict=%s a state that is %s in the file turns the verdict from %s to %s' % (st, 'present' if pr else 'missing', ok, v), sample='missing keys fail only a strict load')
        # every state of the module is a candidate
        w = self.world()
        un = [e for e in I.evs if e.kind == 'call' and e.fn.endswith('MMapUtils::unmapFile') and not e.loops and self.holds(e, w)]
        res.check(len(un) == 1, 'load/unmap', self.where(), 'after reading all records Serializer::load releases the mapping %d times' % len(un))
        if un: res.check(un[0].seq > last_copy, 'load/unmap-early', self.where(un[0]), 'Serializer::load releases the mapping before the records are read')
        reg = [e for e in I.evs if e.loops and e.loops[0] not in (self.L, l) and (e.kind == 'write' or e.kind == 'call' and mname(e.fn) in ('emplace', 'insert', 'try_emplace', 'insert_or_assign')) and any(isinstance(a, T) and any(x.op == 'fld' and x.a[1] == 'second' for x in subterms(a)) for a in e.args)]
        if not reg: raise Und('candidates')
        for e in reg:
            g = [(c, p) for c, p in e.gl if not self.loopcond(c)]
            ok = all(self.safe(c, w) == p for c, p in g)
            res.check(ok, 'load/candidates', self.where(e), 'Serializer::load considers a state only under a condition')

    def safe(self, c, w):
        try: return bool(self.ev(c, w, ()))
        except (Und, Oob): return None


class Save:
    def __init__(self, res, rec):
        self.res, self.rec = res, rec
        self.I = Interp(res.p, Policy(opaque=lambda r: r['fn'].startswith(OPQ)))
        self.rets = self.I.run(rec)
        for u in {e.rec['u'] for e in self.I.evs if e.rec}: res.functions.add(u)
        self.hdr, self.hsize = layout(res.p, S + 'TensorHeader')
        self.conds = {c for i in self.I.loopinfo.values() for c in [i['cond']] if c is not None}

    def where(self, e=None): return loc_of(self.rec, e.line() if e else None)

    def loopcond(self, g): return g.op == 'inrange' or g in self.conds

    def norm(self, t):
        """terms of an entry, whichever loop visits it; tags of calls dropped"""
        def f(x):
            x = bare(x) if x.op == 'mut' else x
            if x.op == 'elem' and self.is_states(x.a[0]) and self.idx(x.a[1]): return mk('ENTRY')
            if x.op == 'call': return mk('call', x.a[0], x.a[1], x.a[2], None)
            if x.op == 'elem' and x.a[0].op == 'call' and x.a[0].a[0] == 'tinytorch::Tensor::shape' and self.idx(x.a[1]): return mk('DIM', x.a[0])
            return x
        return rewrite(t, f)

    def is_states(self, t):
        t = bare(t)
        return t.op == 'call' and t.a[0].endswith('::namedStates')

    def idx(self, t):
        t = bare(t)
        if t.op != 'hav': return False
        i = self.I.loopinfo.get(t.a[0])
        if i is None: return False
        if i['range'] is not None or i.get('idx') is not None: return True
        try: h, way, a, n = counter(self.I, t.a[0])
        except Und: return False
        return h is t and way == 'up' and cval(a) == 0

    def over(self, lid):
        """what a loop iterates over"""
        i = self.I.loopinfo[lid]
        if i['range'] is not None: return bare(i['range'])
        h, way, a, n = counter(self.I, lid)
        n = bare(n)
        if way == 'up' and cval(a) == 0 and n.op == 'call' and mname(n.a[0]) == 'size': return bare(n.a[1])
        if way == 'up' and cval(a) == 0 and n.op == 'call' and n.a[0] == 'tinytorch::Tensor::dim': return mk('call', 'tinytorch::Tensor::shape', n.a[1], (), None)
        raise Und('loop over')

    def value(self, loc, field, e):
        """value a local holds when e happens: its last write in the same iteration"""
        best = None
        for x in self.I.evs:
            if x.seq >= e.seq or x.kind not in ('decl', 'write', 'init') or x.objloc is None: continue
            if field is None and x.objloc is loc or field is not None and x.objloc.op in ('F', 'fld') and x.objloc.a[0] is loc and x.objloc.a[1] == field: best = x
            elif field is not None and x.objloc is loc: best = x if x.kind == 'decl' else best
        if best is None or len(best.loops) and best.loops != e.loops[:len(best.loops)]: raise Und('value written')
        v = bare(best.args[0])
        if field is not None and best.objloc is loc:
            if v.op == 'rec':
                d = dict(v.a[1])
                return d.get(field, mk('fld', v, field))
            if v.op == 'list':
                k = list(self.hdr).index(field)
                return v.a[0][k] if k < len(v.a[0]) else C(0)
            raise Und('record written')
        return v

    def check(self, L):
        res, I = self.res, self.I
        ws = [e for e in I.evs if e.kind == 'call' and mname(e.fn) == 'write' and len(e.args) == 2 and 'stream' in e.fn]
        if len(ws) < 5: raise Und('writes')
        strm = ws[0].objloc
        if any(e.objloc is not strm for e in ws): raise Und('streams')
        pre = [e for e in ws if not e.loops]
        lo = []
        for e in ws:
            if e.loops and e.loops[0] not in lo: lo.append(e.loops[0])
        if len(pre) != 3 or len(lo) != 2 or any(e.seq > min(x.seq for x in ws if x.loops) for e in pre): raise Und('sections')
        H = [e for e in ws if e.loops and e.loops[0] == lo[0]]
        D = [e for e in ws if e.loops and e.loops[0] == lo[1]]
        for l in lo:
            c = self.over(l)
            res.check(self.is_states(c), 'save/entries', self.where(), 'Serializer::save writes entries of %s' % show(c)[:60])
        # prefix
        cont = []
        for e in pre:
            a = bare(e.args[0])
            if a.op not in ('addr', 'addrof'): raise Und('prefix')
            cont.append((self.value(a.a[0], None, e), cval(bare(e.args[1]))))
        ptotal = sum(n for _, n in cont)
        vals = [cval(bare(v)) for v, _ in cont]
        self.consts = (vals[0], vals[1])
        if None in self.consts: raise Und('prefix values')
        cnt = bare(cont[2][0])
        res.check([n for _, n in cont] == [8, 8, 8], 'save/prefix', self.where(pre[0]), 'Serializer::save writes a prefix of sizes %s' % [n for _, n in cont])
        res.check(cnt.op == 'call' and mname(cnt.a[0]) == 'size' and self.is_states(cnt.a[1]), 'save/count', self.where(pre[2]), 'Serializer::save writes %s as the number of entries' % show(cnt)[:60])
        for e in ws: self.guarded(e)
        # header section
        hd = [e for e in H if len(e.loops) == 1]
        dm = [e for e in H if len(e.loops) == 2]
        if len(hd) != 2 or len(dm) != 1: raise Und('header writes')
        res.check(hd[0].seq < hd[1].seq < dm[0].seq, 'save/order', self.where(hd[0]), 'Serializer::save does not write header, name and dimensions in this order')
        hr = [e for e in hd if bare(e.args[0]).op in ('addr', 'addrof')]
        nm = [e for e in hd if e not in hr]
        if len(hr) != 1 or len(nm) != 1: raise Und('header writes')
        hr, nm, dm = hr[0], nm[0], dm[0]
        res.check(hr.seq < nm.seq, 'save/order', self.where(hr), 'Serializer::save writes the name before the header')
        res.check(cval(bare(hr.args[1])) == self.hsize, 'save/header', self.where(hr), 'Serializer::save writes %s bytes of a header of %d' % (show(hr.args[1]), self.hsize))
        loc = bare(hr.args[0]).a[0]
        F = {f: self.value(loc, f, hr) for f in self.hdr}
        R = L.role
        nb = self.norm(nm.args[0])
        res.check(nb.op == 'call' and mname(nb.a[0]) in ('c_str', 'data') and self.norm(nb.a[1]) is mk('fld', mk('ENTRY'), 'first'), 'save/name', self.where(nm), 'Serializer::save writes %s as the name' % show(nb)[:80])
        res.check(self.same(nm.args[1], lambda w: w['len']), 'save/name-length', self.where(nm), 'Serializer::save writes %s bytes of the name' % show(nm.args[1])[:60])
        res.check(self.same(F[R['name']], lambda w: w['len']), 'save/name-length', self.where(hr), 'the name length in the header is %s, the name is written with %s' % (show(F[R['name']])[:60], show(nm.args[1])[:60]), sample='header.name length = bytes of the name')
        dc = self.norm(self.over(dm.loops[1]))
        ten = mk('fld', mk('ENTRY'), 'second')
        res.check(dc.op == 'call' and dc.a[0] == 'tinytorch::Tensor::shape' and self.tensor(dc.a[1]), 'save/dims', self.where(dm), 'Serializer::save writes dimensions of %s' % show(dc)[:60])
        a = bare(dm.args[0])
        if a.op not in ('addr', 'addrof'): raise Und('dimension')
        dv = a.a[0]
        v = self.value(dv, None, dm) if dv.op == 'V' else None
        if v is None: raise Und('dimension')
        v = self.norm(v)
        res.check(v.op == 'DIM', 'save/dims', self.where(dm), 'Serializer::save writes %s as a dimension' % show(v)[:60])
        res.check(cval(bare(dm.args[1])) == 8, 'save/dims', self.where(dm), 'Serializer::save writes a dimension with %s bytes; load reads 8' % show(dm.args[1]))
        res.check(self.rank(F[R['ndim']]), 'save/ndim', self.where(hr), 'the header states %s dimensions' % show(F[R['ndim']])[:60])
        dt = self.norm(F[R['dtype']])
        res.check(dt.op == 'call' and dt.a[0] == 'tinytorch::Tensor::dtype' and self.tensor(dt.a[1]), 'save/dtype', self.where(hr), 'the header states the dtype as %s' % show(dt)[:60])
        # data section
        for e in D:
            if len(e.loops) != 1: raise Und('data')
            b = self.norm(e.args[0])
            ok = b.op == 'call' and b.a[0].startswith('tinytorch::Tensor::dataPtr') and (self.tensor(b.a[1]) or bare(b.a[1]).op == 'call' and bare(b.a[1]).a[0] == 'tinytorch::Tensor::to' and self.tensor(bare(b.a[1]).a[1]))
            res.check(ok, 'save/data', self.where(e), 'Serializer::save writes %s as the data of an entry' % show(b)[:80])
            res.check(self.same(e.args[1], lambda w: w['numel'] * w['esize']), 'save/data-size', self.where(e), 'Serializer::save writes %s bytes of data, not all elements' % show(self.norm(e.args[1]))[:80])
        self.complete(D)
        res.check(self.same(F[R['size']], lambda w: w['numel'] * w['esize']), 'save/size', self.where(hr), 'the header states %s bytes of data, not all elements' % show(self.norm(F[R['size']]))[:80])
        # offsets: start = prefix + all headers; step = the entry's data
        off = bare(F[R['offset']])
        if off.op != 'hav' or off.a[0] != lo[0]: raise Und('data offset')
        i = I.loopinfo[lo[0]]
        ov = off.a[2]
        res.check(self.same(i['next'][ov], lambda w: w['h'] + w['numel'] * w['esize'], off), 'save/offset-step', self.where(hr), 'the data offset advances by %s per entry' % show(self.norm(i['next'][ov]))[-120:], sample='offsets advance by the data of each entry')
        st0 = bare(i['init'][ov])
        if st0.op != 'hav': raise Und('data offset start')
        j = I.loopinfo[st0.a[0]]
        if not self.is_states(self.over(st0.a[0])): raise Und('header total')
        init = j['init'][st0.a[2]]
        res.check(cval(bare(init)) == ptotal, 'save/offset-start', self.where(hr), 'the header section is taken to start at %s; the prefix has %d bytes' % (show(init)[:40], ptotal))
        res.check(self.same(j['next'][st0.a[2]], lambda w: w['h'] + self.hsize + w['len'] + 8 * w['rank'], st0), 'save/offset-headers', self.where(hr), 'the header section is taken to grow by %s per entry, not by header + name + 8 per dimension' % show(self.norm(j['next'][st0.a[2]]))[-140:], sample='first data byte = prefix + all headers')
        self.verdict(ws, strm)

    def lenof(self, t):
        t = self.norm(bare(t))
        return t.op == 'call' and mname(t.a[0]) in ('length', 'size') and t.a[1] is mk('fld', mk('ENTRY'), 'first')

    def rank(self, t):
        t = self.norm(bare(t))
        if t.op != 'call': return False
        if mname(t.a[0]) == 'size' and t.a[1] is not None:
            b = t.a[1]
            return b.op == 'call' and b.a[0] == 'tinytorch::Tensor::shape' and self.tensor(b.a[1])
        return t.a[0] == 'tinytorch::Tensor::dim' and self.tensor(t.a[1])

    def tensor(self, t):
        t = bare(t)
        while t.op in ('deref', 'D', 'addrof'): t = bare(t.a[0])
        return t is mk('fld', mk('ENTRY'), 'second')

    def is_dsize(self, t):
        """dtypeSize(tensor.dtype()), inlined"""
        return t.op == 'phi' and all(x.a[0] == 'tinytorch::Tensor::dtype' for x in subterms(t) if x.op == 'call') and any(x.op == 'call' for x in subterms(t)) or t.op == 'call' and t.a[0].endswith('dtypeSize')

    def same(self, t, want, h=None):
        """two sizes agree for every number of elements, element size, name length and rank that is tried (h: a loop's running total)"""
        def ev(t, w):
            t = bare(t)
            c = cval(t)
            if c is not None: return int(c)
            if h is not None and t is h: return w['h']
            if t.op == '?': return w[t.a[0]]
            n = self.norm(t)
            if self.lenof(t): return w['len']
            if self.rank(t): return w['rank']
            if self.is_dsize(n): return w['esize']
            if n.op == 'call' and mname(n.a[0]) == 'empty' and n.a[1] is not None and not n.a[2]:
                b = n.a[1]
                if b is mk('fld', mk('ENTRY'), 'first'): return w['len'] == 0
                if b.op == 'call' and b.a[0] == 'tinytorch::Tensor::shape' and self.tensor(b.a[1]): return w['rank'] == 0
            if n.op == 'call' and n.a[0] == 'tinytorch::Tensor::numel' and self.tensor(n.a[1]): return w['numel']
            if t.op == 'call' and n.a[0].split('<')[0] in ('std::max', 'std::min'): return (max if n.a[0].startswith('std::max') else min)(ev(x, w) for x in t.a[2])
            if t.op in ('min', 'max'): return (min if t.op == 'min' else max)(ev(x, w) for x in t.a)
            if t.op == 'list' and len(t.a[0]) == 1: return ev(t.a[0][0], w)
            if t.op == 'phi': return ev(t.a[1] if ev(t.a[0], w) else t.a[2], w)
            if t.op == 'not': return not ev(t.a[0], w)
            if t.op == 'neg': return -ev(t.a[0], w)
            if t.op in ('+', '-', '*', '/', '%', '<', '<=', '==') and len(t.a) == 2:
                x, y = ev(t.a[0], w), ev(t.a[1], w)
                if t.op in '/%' and not y: raise Und('division')
                return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x // y, '%': lambda: x % y, '<': lambda: x < y, '<=': lambda: x <= y, '==': lambda: x == y}[t.op]()
            if t.op in ('and', 'or'): return (all if t.op == 'and' else any)(ev(x, w) for x in t.a)
            raise Und('size ' + show(t)[:80])
        for nu, es, le, ra, hh in product((0, 1, 3, 6, 1001), (1, 2, 4, 8), (0, 5, 12), (0, 1, 3), (24, 331)):
            w = dict(numel=nu, esize=es, len=le, rank=ra, h=hh)
            if ev(t, w) != want(w): return False
        return True

    def guarded(self, e):
        """writes happen for every entry: the only conditions are the open stream and the device"""
        g = [(c, p) for c, p in e.gl if not self.loopcond(c)]
        for c, p in g:
            s = show(c)
            if 'is_open' in s or 'good' in s or 'fail' in s or 'operator bool' in s or 'Tensor::device' in s or 'ofstream' in s or 'inrange' in s: continue
            raise Und('condition of a write: ' + s[:60])

    def complete(self, D):
        gs = [tuple((c, p) for c, p in e.gl if not self.loopcond(c) and 'Tensor::device' in show(c)) for e in D]
        if len(D) == 1: self.res.check(not gs[0], 'save/data-all', self.where(D[0]), 'Serializer::save writes the data of some entries only')
        elif len(D) == 2 and all(len(g) == 1 for g in gs):
            n = [self.norm(g[0][0]) for g in gs]
            self.res.check(n[0] is n[1] and gs[0][0][1] != gs[1][0][1], 'save/data-all', self.where(D[0]), 'Serializer::save does not write the data of every entry exactly once')
        else: raise Und('data writes')

    def verdict(self, ws, strm):
        """success is reported only after the stream was found good behind the last write"""
        res = self.res
        lastw = max(e.seq for e in ws)
        tests = {}
        for e in self.I.evs:
            if e.kind == 'call' and e.objloc is strm and e.seq > lastw and mname(e.fn) in ('operator bool', 'operator!', 'good', 'fail', 'bad'): tests[e.ret] = (e, mname(e.fn) in ('operator bool', 'good'))
        flushed = [e.seq for e in self.I.evs if e.kind == 'call' and e.objloc is strm and e.seq > lastw and mname(e.fn) in ('close', 'flush')]
        bad = 0
        for e in self.I.evs:
            if e.kind != 'return' or e.rec is not self.rec: continue
            v = bare(e.args[0])
            c = cval(v)
            if c is not None and not c: continue
            if e.seq < lastw:
                g = [show(x) for x, _ in e.gl]
                res.bad('save/verdict', self.where(e), 'Serializer::save returns %s before everything is written' % show(v)[:40])
                continue
            used = [t for t in tests if any(x is t for x in subterms(v)) or any(any(x is t for x in subterms(g)) for g, _ in e.gl)]
            pol = [t for t in used if tests[t][0].seq > max(flushed, default=-1)]
            okpol = True
            for g, p in e.gl:
                b = g
                q = p
                while b.op == 'not': b, q = b.a[0], not q
                if b in tests and q != tests[b][1]: okpol = False
            res.check(bool(pol) and bool(flushed), 'save/verdict', self.where(e), 'Serializer::save reports success without testing the stream after the last write and the flush')
            res.check(okpol, 'save/verdict-polarity', self.where(e), 'Serializer::save reports success when a write failed', sample='success only when the stream is good after close')


def check_mmap(res):
    """mapFileForRead / unmapFile: one descriptor and one mapping per success, none otherwise"""
    p = res.p
    rec = p.by_name['tinytorch::MMapUtils::mapFileForRead'][0]
    I = Interp(p, Policy())
    rets = I.run(rec)
    res.fn(rec)
    calls = {}
    for e in I.evs:
        if e.kind == 'call' and e.fn in ('open', 'open64', 'fstat', 'fstat64', 'mmap', 'mmap64', 'close'): calls.setdefault(e.fn.replace('64', ''), []).append(e)
    if any(len(calls.get(k, [])) != 1 for k in ('open', 'fstat', 'mmap')): raise Und('calls of mapFileForRead')
    op, fs, mm = (calls[k][0] for k in ('open', 'fstat', 'mmap'))

    def ev(t, w):
        t = bare(t)
        if t is op.ret or t.op == 'call' and t.a[0] == op.fn: return 3 if w[0] else -1
        if t.op == 'call' and t.a[0] == fs.fn: return 0 if w[1] else -1
        if t.op == 'call' and t.a[0] == mm.fn: return 4096 if w[2] else -1
        if cval(t) is not None: return cval(t)
        if t.op == 'null': return 0
        if t.op == 'phi': return ev(t.a[1] if ev(t.a[0], w) else t.a[2], w)
        if t.op == 'not': return not ev(t.a[0], w)
        if t.op == 'and': return all(ev(x, w) for x in t.a)
        if t.op == 'or': return any(ev(x, w) for x in t.a)
        if t.op in ('==', '<', '<='):
            x, y = ev(t.a[0], w), ev(t.a[1], w)
            return {'==': x == y, '<': x < y, '<=': x <= y}[t.op]
        if t.op == 'fld' and t.a[1] == 'st_size' or t.op == 'fld' and t.a[1] in ('fileSize',): return 100
        raise Und('mmap ' + show(t)[:60])

    def hold(e, w): return all(bool(ev(g, w)) == pp for g, pp in e.gl)

    def fld(t, f, w):
        t = bare(t)
        if t.op == 'phi': return fld(t.a[1] if ev(t.a[0], w) else t.a[2], f, w)
        if t.op == 'rec':
            d = dict(t.a[1])
            if f in d: return d[f]
        return C(0) if f == 'success' else None
    wh = loc_of(rec)
    for w in ((0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1)):
        nm = ('open fails', 'fstat fails', 'mmap fails', 'all succeed')[sum(w)]
        r = [e for e in I.evs if e.kind == 'return' and e.rec is rec and hold(e, w)]
        if len(r) != 1: raise Und('returns of mapFileForRead')
        t = r[0].args[0]
        s = bool(ev(fld(t, 'success', w), w))
        res.check(s == (sum(w) == 3), 'map/success', wh, 'mapFileForRead reports %s when %s' % (s, nm), sample='mapFileForRead: success iff open, fstat and mmap succeed')
        cl = [e for e in calls.get('close', []) if hold(e, w)]
        want = 1 if 0 < sum(w) < 3 else 0
        res.check(len(cl) == want, 'map/close', wh, 'mapFileForRead closes its descriptor %d times when %s' % (len(cl), nm))
        if sum(w) == 3:
            dp, sz = fld(t, 'dataPtr', w), fld(t, 'fileSize', w)
            res.check(dp is not None and ev(dp, w) == 4096, 'map/ptr', wh, 'mapFileForRead does not hand out the mapping')
            res.check(sz is not None and bare(sz).op == 'fld' and bare(sz).a[1] == 'st_size', 'map/size', wh, 'mapFileForRead reports %s as the size of the file' % (show(sz)[:60] if sz is not None else 'nothing'))
            fd = fld(t, 'fd', w)
            res.check(fd is not None and ev(fd, w) == 3, 'map/fd', wh, 'mapFileForRead does not hand out the descriptor')
    res.check(bare(mm.args[1]).op == 'fld' and bare(mm.args[1]).a[1] == 'st_size' and cval(bare(mm.args[5])) == 0 and (cval(bare(mm.args[2])) or 0) & 1 == 1, 'map/args', loc_of(rec, mm.line()), 'mapFileForRead maps something other than the whole file for reading')
    rec = p.by_name['tinytorch::MMapUtils::unmapFile'][0]
    I = Interp(p, Policy())
    I.run(rec)
    res.fn(rec)

    def evu(t, w):
        t = bare(t)
        if t.op == 'fld' and t.a[1] in w: return w[t.a[1]]
        if cval(t) is not None: return cval(t)
        if t.op == 'null': return 0
        if t.op == 'not': return not evu(t.a[0], w)
        if t.op == 'and': return all(evu(x, w) for x in t.a)
        if t.op == 'or': return any(evu(x, w) for x in t.a)
        if t.op in ('==', '<', '<='):
            x, y = evu(t.a[0], w), evu(t.a[1], w)
            return {'==': x == y, '<': x < y, '<=': x <= y}[t.op]
        raise Und('unmap ' + show(t)[:60])
    w = dict(dataPtr=4096, fd=3, fileSize=100, success=True)
    mu = [e for e in I.evs if e.kind == 'call' and e.fn == 'munmap' and all(bool(evu(g, w)) == pp for g, pp in e.gl)]
    cl = [e for e in I.evs if e.kind == 'call' and e.fn == 'close' and all(bool(evu(g, w)) == pp for g, pp in e.gl)]
    wh = loc_of(rec)
    res.check(len(mu) == 1 and len(cl) == 1, 'unmap/all', wh, 'unmapFile of a mapped file unmaps %d times and closes %d times' % (len(mu), len(cl)), sample='unmapFile releases mapping and descriptor')
    for e in mu: res.check(evu(e.args[0], w) == 4096 and evu(e.args[1], w) == 100, 'unmap/args', loc_of(rec, e.line()), 'unmapFile unmaps something other than the mapping')
    for e in cl: res.check(evu(e.args[0], w) == 3, 'unmap/fd', loc_of(rec, e.line()), 'unmapFile closes something other than the descriptor')


def check_ckpt(res):
    res.rule = 'what save writes load reads back into the same states, and every truncated, hostile or mismatching record is refused without a read outside the file'
    n = 0
    sv = res.p.by_name.get(S + 'save', [])
    ld = res.p.by_name.get(S + 'load', [])
    sv = [r for r in sv if r.get('body') or True]
    with res.instance('mmap'):
        try: check_mmap(res); n += 1
        except Und as x: res.und('mmap: %s' % x)
    with res.instance('serializer'):
        try:
            L = Load(res, ld[0])
            s = Save(res, sv[0])
            # the writer's constants feed the reader's tables, the reader's roles the writer's
            pre = [e for e in s.I.evs if e.kind == 'call' and mname(e.fn) == 'write' and 'stream' in e.fn and not e.loops]
            cs = []
            for e in pre[:2]:
                a = bare(e.args[0])
                cs.append(cval(bare(s.value(a.a[0], None, e))) if a.op in ('addr', 'addrof') else None)
            if len(cs) != 2 or None in cs: raise Und('prefix values')
            L.consts = tuple(cs)
            try: L.check(); n += 1
            except Und as x: res.und('load: %s' % x)
            if getattr(L, 'role', None) and len(L.role) == 5:
                s.check(L); n += 1
                if hasattr(L, 'start'): res.check(L.start == 24, 'load/start', L.where(), 'Serializer::load starts reading records at byte %s; the prefix has 24' % L.start)
        except Und as x: res.und('serializer: %s' % x)
    res.floor('parts', n, 1)
