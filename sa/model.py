"""Repository model shared by the checks: operator registry, kernels, public op layer."""
from base import *
from interp import *
from term import *

OPNS = 'tinytorch::op::'


def opaque(*pre):
    return Policy(opaque=lambda rec: rec['fn'].startswith(pre))


KERNEL_OPAQUE = ('tinytorch::Tensor::', 'tinytorch::TensorIterator', 'tinytorch::TensorImpl::', 'tinytorch::Scalar::', 'tinytorch::Storage::',
                 'tinytorch::options::', 'tinytorch::RandomGenerator', 'tinytorch::getRandomSeed')


def is_dispatch(rec):
    """generated op dispatchers tinytorch::op::X<Args...>(Args&&...) : recognised by looking the kernel up in the registry"""
    return rec.get('_disp', False)


class Ops:
    """op registry as established by the static initialisers"""

    def __init__(self, P):
        self.P = P
        self.disp = {}
        for r in P.funcs.values():
            if not r['fn'].startswith(OPNS) or not r.get('tmpl'): continue
            tags = set()
            for n in walk(r['body']):
                if n['k'] == 'Call' and n.get('fn', '').endswith('::lookup') and 'OpRegistry<' in n['fn']:
                    tags.add(n['fn'].split('OpRegistry<')[1].split(',')[0].strip())
            if len(tags) == 1:
                r['_disp'] = True
                self.disp.setdefault(r['fn'][len(OPNS):], set()).add(tags.pop())
        self.tag2op = {}
        for op, tags in self.disp.items():
            for t in tags: self.tag2op.setdefault(t, set()).add(op)
        self.roots = []
        self.root_guards = []
        for g, d in P.gvars.items():
            if 'StaticCaller' in d.get('t', ''):
                for n in walk(d.get('init') or {}):
                    if n['k'] == 'FnRef' and n['u'] in P.funcs: self.roots.append(P.funcs[n['u']])
        seen = set()
        self.regs = []
        self.bad = []
        for r in self.roots:
            if r['u'] in seen: continue
            seen.add(r['u'])
            I = Interp(P, opaque('tinytorch::RegisterOpImpl', 'tinytorch::OpRegistry<'))
            I.run(r)
            for e in I.evs:
                if e.kind != 'call': continue
                if e.fn.startswith('tinytorch::RegisterOpImpl'):
                    self.reg(e, self.lst(e.args[0]), self.lst(e.args[1]), e.args[2])
                elif e.fn.endswith('::registerImpl'):
                    k = e.args[0]
                    self.bad.append((e, 'direct registerImpl'))
        self.table = {}
        self.dups = []
        for g in self.regs:
            k = (g.op, g.dev, g.dt)
            if k in self.table and self.table[k].fn is not g.fn: self.dups.append((self.table[k], g))
            self.table[k] = g

    def lst(self, t):
        for s in subterms(t):
            if s.op == 'list': return [x.a[0].split('::')[-1] if x.op == 'enum' else None for x in s.a[0]]
        if t.op == 'glob' or t.op == 'G' or (t.op == 'deref'):
            n = t.a[0] if isinstance(t.a[0], str) else None
            v = self.P.gvars.get((n, ''))
            if v and v.get('const') and v.get('init'):
                return [n['n'].split('::')[-1] for n in walk(v['init']) if n['k'] == 'Enum'][:]
        return None

    def reg(self, e, devs, dts, fn):
        rec = self.P.sig(e.u)
        tag = None
        ta = (rec or {}).get('ta') or []
        if ta and 'OpRegistry<' in ta[0]: tag = ta[0].split('OpRegistry<')[1].split(',')[0].strip()
        ops = self.tag2op.get(tag) or {tag.split('::')[-1][:-3] if tag else None}
        kern = self.P.funcs.get(fn.a[0]) if fn.op == 'fnref' else None
        if not devs or not dts or None in devs or None in dts or tag is None or kern is None or e.guard:
            self.bad.append((e, 'unresolved registration'))
            return
        for op in ops:
            for d in devs:
                for t in dts:
                    g = Reg()
                    g.op, g.dev, g.dt, g.fn, g.ev, g.tag = op, d, t, kern, e, tag
                    self.regs.append(g)


class Reg:
    def __repr__(self):
        return '%s/%s/%s->%s%s' % (self.op, self.dev, self.dt, self.fn['n'], self.fn.get('ta') or '')


CTYPE = {'Float32': 'float', 'Float16': 'tinytorch::Half', 'BFloat16': 'tinytorch::BFloat16', 'Int32': 'int', 'Int64': 'long', 'Bool': 'unsigned char'}
