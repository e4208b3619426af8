"""No hidden state: results depend on arguments only.  Effect analysis of variables with static storage duration over the type-checked syntax tree:
who can change them after initialisation, and whether their one-time initialisation depends on the arguments of the call that happens to come first."""
import re
from base import *
from c_width import allnodes, base, strip

SYNC = re.compile(r'std::(mutex|recursive_mutex|shared_mutex|once_flag|condition_variable|atomic)|^std::atomic')
LOCK = re.compile(r'std::(lock_guard|unique_lock|scoped_lock|shared_lock)')
SERVICE = re.compile(r'^tinytorch::(Logger|RandomGenerator\w*|\w*Allocator|OpRegistry|StaticCaller|distributed|_r$|getAllocator|op::_static|_static)')
MUT = {'push_back', 'emplace_back', 'pop_back', 'resize', 'assign', 'insert', 'emplace', 'try_emplace', 'insert_or_assign', 'erase', 'clear', 'reset', 'swap', 'pushBack', 'popBack', 'append', 'push', 'pop', 'store',
       'reserve', 'seed', 'fill'}
ALG = {'swap', 'fill', 'fill_n', 'iota', 'copy', 'copy_n', 'copy_backward', 'memcpy', 'memset', 'memmove', 'transform', 'exchange', 'sort', 'reverse', 'generate', 'partial_sum', 'move_backward', 'getline', 'snprintf', 'sprintf', 'strcpy'}
PASS = {'data', 'begin', 'end', 'back', 'front', 'at', 'value', 'get', 'operator->', 'operator*', 'dataPtr', 'c_str', 'move', 'forward', 'addressof'}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}

SETTER = re.compile(r'^tinytorch::(options::)?(\w+::)?setDefault\w*$')


class Eff:
    def __init__(self, P):
        self.P = P
        self.recs = [r for r in P.funcs.values() if r.get('body') is not None]
        self.vars = {}                      # key -> info
        for (n, gc), v in P.gvars.items():
            self.vars[('g', n, gc or '')] = dict(n=n, t=v.get('t', ''), const=bool(v.get('const') or v.get('ce')), tls=bool(v.get('tls')), where=('src/' + (v.get('file') or '?'), v.get('l')))
        self.expose = {}
        self.muts = []                      # (key, rec, node)
        for r in self.recs:
            for n in allnodes(r):
                if n['k'] == 'Var' and n.get('st'):
                    t = n.get('t', '')
                    self.vars[('s', r['u'], n['id'])] = dict(n=r['fn'] + '::' + n['n'], t=t, const=t.startswith('const ') and '&' not in t or bool(n.get('ce')), tls=bool(n.get('tls')), node=n, rec=r, where=(r, n.get('l')))
        for r in self.recs:
            rt = (r.get('ret') or '')
            if ('&' in rt or '*' in rt) and not rt.startswith('const '):
                for n in allnodes(r):
                    if n['k'] == 'Return' and n.get('e') is not None:
                        k = self.root(n['e'], r, {})
                        if k in self.vars: self.expose[r['u']] = k
        for r in self.recs: self.scan(r)

    def root(self, n, r, al):
        while n:
            k = n['k']
            if k in ('ICast', 'Cast', 'Paren'): n = n['e']
            elif k == 'Ref':
                if n.get('g'):
                    for key in (('g', n['g'], n.get('gc') or ''), ('g', n['g'], '')):
                        if key in self.vars: return key
                    return None
                if n.get('sl'): return ('s', r['u'], n['d'])
                return al.get(n.get('d'))
            elif k == 'Member': n = n['b']
            elif k == 'Sub': n = n['b']
            elif k == 'Un' and n['op'] in ('*', '&', '++', '--'): n = n['e']
            elif k == 'CondOp': n = n['c'][1]
            elif k == 'Call':
                if n.get('u') in self.expose: return self.expose[n['u']]
                m = re.sub('<.*', '', (n.get('fn') or '').split('::')[-1])
                if n.get('op') in ('[]', '->', '*') or m in PASS:
                    n = n['obj'] if n.get('obj') else (n.get('a') or [None])[0]
                else: return None
            elif k == 'Construct' and len(n.get('a', [])) == 1 and re.search(r'ArrayView|span', n.get('t', '')): n = n['a'][0]
            else: return None
        return None

    def scan(self, r):
        al = {}
        nodes = list(allnodes(r))
        for n in sorted((x for x in nodes if x['k'] in ('Var', 'RangeFor')), key=lambda x: x.get('l') or 0):
            v, i = (n, n.get('init')) if n['k'] == 'Var' else (n.get('var') or {}, n.get('range'))
            t = v.get('t') or ''
            if i is not None and not v.get('st') and ('&' in t or '*' in t) and not t.startswith('const '):
                k = self.root(i, r, al)
                if k: al[v.get('id')] = k

        def mut(e, n):
            k = self.root(e, r, al) if e else None
            if k in self.vars: self.muts.append((k, r, n))
        for n in nodes:
            k = n['k']
            if k == 'Bin' and n['op'] in ASSIGN: mut(n['x'], n)
            elif k == 'Un' and n['op'] in ('++', '--'): mut(n['e'], n)
            elif k == 'Call':
                fn = n.get('fn') or ''
                m = re.sub('<.*', '', fn.split('::')[-1])
                if n.get('op') in ASSIGN or n.get('op') in ('++', '--'):
                    mut(n['obj'] if n.get('obj') else (n.get('a') or [None])[0], n)
                f = self.P.funcs.get(n.get('u'))
                if n.get('obj') is not None:
                    if fn.startswith('std::'):
                        if m in MUT: mut(n['obj'], n)
                        elif n.get('op') == '()' : mut(n['obj'], n)
                    elif f is not None and not f.get('const') and not f.get('static') and n.get('op') not in ('[]', '->', '*') and m not in PASS:
                        b = n['obj']
                        if not (n['obj'].get('t') or '').startswith('const '): mut(b, n)
                if fn.startswith('std::') or fn in ALG:
                    if m in ALG:
                        for x in n.get('a', []): mut(x, n)
                elif f is not None:
                    for p, x in zip(f.get('ps', []), n.get('a', [])):
                        t = p.get('t') or ''
                        if ('&' in t or '*' in t) and '&&' not in t and not t.startswith('const '): mut(x, n)


def locked(r, n):
    """a lock object is declared before n in this function, or n is inside a call_once"""
    for x in allnodes(r):
        if x['k'] == 'Var' and LOCK.search(x.get('t', '')) and (x.get('l') or 0) <= (n.get('l') or 0): return True
        if x['k'] == 'Call' and (x.get('fn') or '').startswith('std::call_once'):
            for y in x.get('a', []):
                st = [y]
                while st:
                    z = st.pop()
                    if z is n: return True
                    if isinstance(z, dict): st.extend(z.values())
                    elif isinstance(z, list): st.extend(z)
    return False


def check_state(res):
    P = res.p
    res.rule = ('effect analysis of all variables with static storage: outside the services (logger, random generator, allocators, operator registry, process group) none is changed after its initialisation unless a lock is held; '
                'the initialisation of a static local does not depend on the call that comes first; the default options are changed by their setters only')
    for r in P.funcs.values(): r.setdefault('u', r.get('usr'))
    E = Eff(P)
    for r in E.recs:
        if r.get('file'): res.fn(r)
    by = {}
    for k, r, n in E.muts: by.setdefault(k, []).append((r, n))
    seen = set()
    for k, v in E.vars.items():
        name = re.sub(r'<.*>', '', v['n'])
        if SYNC.search(v['t']):
            res.ok('synchronisation object'); continue
        short = name.split('::')[-1]
        if k[0] == 's':
            dep = depends(v['node'], v['rec'])
            if dep:
                key = '%s/first-call' % name.split('::')[-2]
                if key not in seen:
                    seen.add(key)
                    res.bad(key, loc_of(v['rec'], v['where'][1]), '%s: the static variable %s is initialised from %s of the call that comes first and keeps that value for all later calls' % (re.sub('<.*', '', v['rec']['fn']), short, dep))
                continue
            res.ok('initialiser of a static local')
        if v['const'] or v['tls'] or SERVICE.match(name):
            res.ok('constant, thread-local or service'); continue
        own = bool(re.match(r'tinytorch::(options::)?Default::', name)) or '/Tensor/Options.h' in loc_of(*v['where']) if k[0] == 's' else name.startswith('tinytorch::options::')
        okay = True
        for r, n in by.get(k, []):
            if own and SETTER.match(r['fn']): continue
            if locked(r, n): continue
            okay = False
            key = '%s/%s' % (re.sub('<.*', '', r['fn']).split('::')[-1], 'default' if own else 'static')
            if key in seen: continue
            seen.add(key)
            res.bad(key, loc_of(r, n.get('l')), '%s: %s' % (re.sub('<.*', '', r['fn']), 'the default %s of all options is changed' % short if own else
                    'the static variable %s is changed without a lock: later calls and other threads see what this call left behind' % short))
        if okay: res.ok('variable with static storage')
    for r in E.recs:
        if SETTER.match(r['fn']): continue
        for n in allnodes(r):
            if n['k'] == 'Call' and SETTER.match(n.get('fn') or ''):
                res.bad('%s/default' % re.sub('<.*', '', r['fn']).split('::')[-1], loc_of(r, n.get('l')), '%s: the default of all options is changed by the library itself' % re.sub('<.*', '', r['fn']))
    res.counts['variables'] = len(E.vars)
    res.counts['changes'] = len(E.muts)
    res.floor('variables', len(E.vars), 200)
    res.assumptions += ['the services synchronise themselves or are configuration (C01, C17, C23 decide registry, generator and allocator)', 'thread-local state is decided by C07']


def depends(var, r):
    init = var.get('init')
    if init is None: return None
    inner = set()
    lam = False
    st = [init]
    nodes = []
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x: nodes.append(x)
            if x.get('k') == 'Var': inner.add(x['id'])
            if x.get('k') == 'Lambda':
                for p in x.get('ps', []): inner.add(p.get('id', p.get('d')))
            st.extend(x.values())
        elif isinstance(x, list): st.extend(x)
    consts = {n['id'] for n in allnodes(r) if n['k'] == 'Var' and (n.get('ce') or n.get('st'))}
    for n in nodes:
        if n['k'] == 'This': return 'the object'
        if n['k'] == 'Ref' and 'd' in n and not n.get('sl') and n['d'] not in inner and n['d'] not in consts and 'cv' not in n:
            return 'argument %s' % n['n'] if n.get('pm') else 'variable %s' % n['n']
    return None
