import os
from collections import Counter
from extract import Broken
from interp import *
from term import *


class Result:
    def __init__(self, pid, prog, tier):
        self.pid, self.p, self.tier = pid, prog, tier
        self.violations = []
        self.obligations = 0
        self.discharged = 0
        self.counts = Counter()
        self.functions = set()
        self.samples = []
        self.rule = ''
        self.assumptions = []
        self.floors = {}
        self.undecided = []

    def fn(self, rec):
        self.functions.add(rec['u'])

    def ok(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, where, msg, rule='', detail=()):
        """key: stable identification of the failing construct (no line numbers)"""
        self.obligations += 1
        self.violations.append(dict(key=key, where=where, msg=msg[:420], rule=rule or self.rule, detail=[str(d)[:400] for d in detail]))

    def check(self, cond, key, where, msg, sample=None, rule='', detail=()):
        if cond: self.ok(sample)
        else: self.bad(key, where, msg, rule, detail)
        return cond

    def instance(self, name=''):
        """analysis of one instance; a construct the analyser cannot follow leaves that instance undecided (counted, never reported)"""
        return _Inst(self, name)

    def und(self, why=''):
        self.counts['undecided'] += 1
        if why and len(self.undecided) < 30: self.undecided.append(str(why)[:200])

    def floor(self, name, n, minimum):
        """instance count sanity: fewer instances than confirmed by hand means the analysis lost its anchor"""
        self.counts[name] = n
        self.floors[name] = minimum

    def finish_floor(self):
        for k, m in self.floors.items():
            if self.counts[k] < m and not self.violations:
                raise Broken('%s: %d instances, expected at least %d' % (k, self.counts[k], m))
        if self.obligations == 0:
            raise Broken('no obligations')


class _Inst:
    def __init__(self, res, name):
        self.res, self.name = res, name

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or et is Broken or not issubclass(et, Exception): return False
        self.res.und('%s: %s %s' % (self.name, et.__name__, ev))
        if os.environ.get('SA_DEBUG'):
            import traceback
            traceback.print_exception(et, ev, tb)
        return True


def loc_of(rec, line=None):
    return '%s:%s (%s)' % ('src/' + rec.get('file', '?'), line if line is not None else rec.get('l', 0), rec['fn'])


def evloc(e):
    return loc_of(e.rec, e.line())


def walk(n):
    """all AST nodes below n (dict nodes with 'k')"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x: yield x
            for k, v in x.items():
                if isinstance(v, (dict, list)): st.append(v)
        elif isinstance(x, list):
            st.extend(reversed(x))


CONTAINER = ('tinytorch::SmallVector<', 'tinytorch::ArrayView<')


def is_container(rec):
    return (rec.get('cls') or '').startswith(CONTAINER)


def short(fn):
    return fn.split('::')[-1]


def rep_instances(recs):
    """one representative instantiation per template pattern (float preferred)"""
    by = {}
    for r in recs:
        k = r.get('tmpl') or r['u']
        o = by.get(k)
        if o is None or score(r) > score(o):
            by[k] = r
    return list(by.values())


def score(r):
    ta = r.get('ta') or []
    return (sum(1 for x in ta if x == 'float'), -len(r['u']))
