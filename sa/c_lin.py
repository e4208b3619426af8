"""Linear algebra operators: every result element is the defined sum of products of the right input elements."""
from kcontent import *
from c_xform import ESZ, compare, rshape, strides
import random

SPECS = {}


def spec(op):
    def f(c):
        SPECS[op] = c
        return c
    return f


@spec('dot')
class Dot:
    def gen(rnd, K):
        n = [rnd.dim(1, 6)]
        return {K.ps[0]: n, K.ps[1]: n}, {}, {}

    def ref(m, K):
        a, b = K.ps
        return [], [sum(m.load(a, i) * m.load(b, i) for i in range(math.prod(m.shape(a))))]


@spec('matmul')
class Matmul:
    def gen(rnd, K):
        a, b, ta, tb = K.ps
        x, y = rnd.random() < .4, rnd.random() < .4
        M, N, D = [rnd.dim(1, 3) for _ in range(3)]
        k = rnd.choice([0, 0, 0, 1, 1, 2, 2])
        bt = [rnd.dim(1, 3) for _ in range(k)]
        ba = [1 if rnd.random() < .3 else n for n in bt][rnd.choice([0, 0, 0, 1, 2]):]
        bb = [1 if rnd.random() < .3 else n for n in bt][rnd.choice([0, 0, 0, 1, 2]):]
        sa = ba + ([D, M] if x else [M, D])
        sb = bb + ([N, D] if y else [D, N])
        if rnd.random() < .15: sa = [D]
        elif rnd.random() < .15: sb = [D]
        return {a: sa, b: sb}, {ta: x, tb: y}, {}

    def ref(m, K):
        a, b, ta, tb = K.ps
        sa, sb = list(m.shape(a)), list(m.shape(b))
        va, vb = len(sa) == 1, len(sb) == 1
        x, y = m.params[ta] and not va, m.params[tb] and not vb
        if va: sa = [1] + sa
        if vb: sb = sb + [1]
        M, D = (sa[-1], sa[-2]) if x else (sa[-2], sa[-1])
        N = sb[-2] if y else sb[-1]
        ba, bb = sa[:-2], sb[:-2]
        k = max(len(ba), len(bb))
        pa, pb = [1] * (k - len(ba)) + ba, [1] * (k - len(bb)) + bb
        bt = [max(p, q) for p, q in zip(pa, pb)]
        out = []
        for o in range(math.prod(bt)):
            c = coords(o, bt)
            oa = lin_([0 if n == 1 else i for i, n in zip(c, pa)], pa) * M * D
            ob = lin_([0 if n == 1 else i for i, n in zip(c, pb)], pb) * N * D
            for i in range(M):
                for j in range(N):
                    out.append(sum(m.load(a, oa + (p * M + i if x else i * D + p)) * m.load(b, ob + (j * D + p if y else p * N + j)) for p in range(D)))
        return bt + ([] if va else [M]) + ([] if vb else [N]), out


def conv_gen(rnd):
    c = rnd.dim(1, 2)
    kh, kw = rnd.dim(1, 3), rnd.dim(1, 3)
    sh, sw = rnd.randint(1, 2), rnd.randint(1, 2)
    ph, pw = rnd.randint(0, 1), rnd.randint(0, 1)
    h, w = rnd.dim(max(1, kh - 2 * ph), max(4, kh)), rnd.dim(max(1, kw - 2 * pw), max(4, kw))
    im = ([rnd.dim(1, 2)] if rnd.random() < .7 else []) + [c, h, w]
    return im, (kh, kw), (sh, sw), (ph, pw)


def dims(K, ks):
    out = {}
    for p, (h, w) in ks:
        out[mk('fld', p, 'h')], out[mk('fld', p, 'w')] = h, w
    return out


def window(im, k, s, p):
    """(row, column, image position or None) of every cell of the unfolded matrix"""
    n = im[0] if len(im) == 4 else 1
    c, h, w = im[-3:]
    oh, ow = (h - k[0] + 2 * p[0]) // s[0] + 1, (w - k[1] + 2 * p[1]) // s[1] + 1
    cells = []
    for b in range(n):
        for y in range(oh):
            for x in range(ow):
                for ch in range(c):
                    for i in range(k[0]):
                        for j in range(k[1]):
                            iy, ix = y * s[0] - p[0] + i, x * s[1] - p[1] + j
                            cells.append(((b * c + ch) * h + iy) * w + ix if 0 <= iy < h and 0 <= ix < w else None)
    return [n * oh * ow, c * k[0] * k[1]], cells


@spec('im2col')
class Im2col:
    def gen(rnd, K):
        im, k, s, p = conv_gen(rnd)
        return {K.ps[0]: im}, dims(K, list(zip(K.ps[1:], (k, s, p)))), {}

    def ref(m, K):
        k, s, p = [(m.params[mk('fld', q, 'h')], m.params[mk('fld', q, 'w')]) for q in K.ps[1:]]
        shape, cells = window(m.shape(K.ps[0]), k, s, p)
        return shape, [0 if c is None else m.load(K.ps[0], c) for c in cells]


@spec('col2im')
class Col2im:
    def gen(rnd, K):
        im, k, s, p = conv_gen(rnd)
        ps = dims(K, list(zip(K.ps[2:], (k, s, p))))
        ps[K.ps[1]] = im
        return {K.ps[0]: window(im, k, s, p)[0]}, ps, {}

    def ref(m, K):
        k, s, p = [(m.params[mk('fld', q, 'h')], m.params[mk('fld', q, 'w')]) for q in K.ps[2:]]
        im = m.params[K.ps[1]]
        out = [0] * math.prod(im)
        for i, c in enumerate(window(im, k, s, p)[1]):
            if c is not None: out[c] += m.load(K.ps[0], i)
        return im, out


def check_lin(res):
    P = res.p
    O = Ops(P)
    res.rule = 'closed-form sums of products of every linear-algebra kernel'
    n = 0
    for op, cls in SPECS.items():
        for (o, dev, dt), r in sorted(O.table.items(), key=lambda kv: str(kv[0])):
            if o != op or dev != 'CPU': continue
            n += 1
            with res.instance('%s/%s' % (op, dt)):
                K = Kern(P, r.fn, esz=ESZ.get(dt), live=True)
                res.fn(r.fn)
                compare(res, K, r, op, dt, cls, 60, 1)
    res.floor('kernels', n, 6)
