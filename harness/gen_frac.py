"""Sessions of fractals."""
import os, re, struct
from prop import Prop
from gen import *
from gen_color import fl
import ops
from ops import B, CALLS

_t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'OpsFrac.tla')).read()
FILEOP = dict(re.findall(r'(\w+) \|-> "(\w+)"', _t[:_t.index('FracMem ==')]))
MEM = sorted(set(FILEOP.values()))


def dbl(x):
    return list(struct.unpack('>ii', struct.pack('>d', float(x))))


def enc(v):
    """a parameter as the specification takes it"""
    if v is None:
        return []
    if isinstance(v, complex):
        return [dbl(v.real), dbl(v.imag)]
    if isinstance(v, float):
        return dbl(v)
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    return v


def factor(r):
    return [r.choice([[1, 1], [1, 2], [0, 1], [3, 4], [1, 4], [r.randint(1, 9), 10], [r.randint(1, 15), 16]]) for _ in range(3)]


def frac(n):
    return [fl(q) if isinstance(q, list) else q for q in n]


def fpar(name, r):
    """the parameters p, q and the domain of a fractal, and its number of steps"""
    u = r.uniform
    big = name in ('multicircle', 'multihyperbola', 'multisuperellipse', 'astroidfractal', 'lemniscatefractal', 'xorfractal', 'xordivfractal')
    k = r.random()
    if big:
        s = {'astroidfractal': 3, 'lemniscatefractal': 8}.get(name, 40 if 'xor' in name else 12)
        dom = [u(1, s), -u(0, s), u(1, s), -u(0, s)]
        if k < 0.3:
            dom = [float(int(v) or 1) for v in dom]
    elif k < 0.5:
        dom = [u(0.5, 2.2), -u(0.5, 2.2), u(0.4, 2), -u(0.4, 2)]
    elif k < 0.7:
        x, y, d = u(-2, 1), u(-1.2, 1.2), u(0.05, 1)
        dom = [x + d, x, y + d, y]
    else:
        dom = list(r.choice([(1.75, -1.75, 1.5, -1.5), (0.75, -1.25, 1.25, -1.25), (0.5, -0.5, 0.5, -0.5), (1.5, -2.0, 1.0, -1.0)]))
    c = complex(round(u(-1.5, 1.5), 3), round(u(-1.2, 1.2), 3))
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12])
    p = q = None
    d = r.choice([2.0, 3.0, 4.0, 2.0, 3.0, 5.0, 2.5, 1.5, round(u(1.1, 4), 2)])
    if name in ('mandelbrot', 'tricorn'):
        pass
    elif name in ('multibrot', 'multicorn', 'multicircle', 'multihyperbola', 'multisuperellipse'):
        p = d
        if 'multi' in name and big:
            p = r.choice([1.0, 2.0, 3.0, 2.5, 0.5, round(u(0.3, 3), 2)])
    elif name in ('astroidfractal', 'lemniscatefractal'):
        p = r.choice([1.0, 2.0, round(u(0.5, 4), 2)])
    elif name in ('xorfractal', 'xordivfractal'):
        p = r.randint(1, 20)
    elif name == 'tetrationfractal':
        p = r.randint(2, 10)
    elif name == 'julia' or name in ('sinjulia', 'cosjulia', 'spiraljulia', 'lambdafractal', 'barnsleytree'):
        p = c
        if name == 'sinjulia':
            p = complex(round(u(-1.2, 1.2), 3), round(u(-0.9, 0.9), 3))
        if name == 'lambdafractal':
            p = complex(round(u(0.5, 3.2), 3), round(u(-1, 1), 3))
    elif name == 'marekdragon':
        p = round(u(0.02, 0.6), 4)
    elif name == 'newtonsfractal':
        p = r.choice([3, 4, 4.1, 5, 5.1, 5.3, 6, 6.3])
    elif name == 'ngonfractal':
        p, q = round(u(0.1, 1.5), 2), r.choice([2.0, 3.0, 4.0, 5.0, 6.0, 3.5])
    else:
        p, q = c, d
    if big:
        n = r.choice([2, 3, 8, 16, 20, 100, 255, 256, 300])
    if name in ('sinjulia', 'cosjulia', 'marekdragon', 'tetrationfractal'):
        n = r.choice([2, 3, 5, 8, 20, 50, 200, 255, 257, 400])
    if name == 'newtonsfractal':
        n = r.choice([4, 6, 8, 10, 12])
    return p, q, dom, n


NEWT = {3: [3, 0, 1], 4: [4, 0, 1], 4.1: [4, 1, 0], 5: [5, 0, 1], 5.1: [5, 1, 0], 5.3: [5, 3, 0], 6: [6, 0, 1], 6.3: [6, 3, 1]}


def newt(k):
    """the exponents of z^m - z^j - o; a constant 1 is z^0"""
    m, j, o = NEWT[k]
    return [m, j, 0] if o and j == 0 else [m, j, o]


def pycall(ses, ev):
    name = ev['op']
    args = eval(ev['raw'])
    if name in FILEOP:
        return getattr(B(), name)(ses.path(ev['d']), *args)
    return getattr(B(), name)(ses.mem[ev['s']], *args)


for _n in MEM + list(FILEOP):
    CALLS[_n] = pycall


def newtpars(k):
    from pythonbmp.fractals import funcparamdict
    return funcparamdict()[k]


def op(ses, r, name):
    base = FILEOP.get(name, name)
    p, q, dom, n = fpar(base, r)
    pars = [v for v in (p, q) if v is not None]
    rawp = list(pars)
    if base == 'newtonsfractal':
        fs = [factor(r) for _ in range(6)]
        f, rawf, ep = fs, [frac(x) for x in fs], newt(p)
        rawp = ['@newt']
    else:
        f, ep = factor(r), enc(p)
        rawf = frac(f)
    kw = {}
    if name in FILEOP:
        b = r.choice(BITS)
        if base == 'newtonsfractal':
            b = 24
        elif b < 24 and r.random() < 0.4:
            f = rawf = [color(r, 24), color(r, 24)]
        w, h = r.randint(1, 14), r.randint(1, 11)
        raw = [w, h, *rawp, dom, rawf, b, n]
        a = [w, h, b, ep, enc(q), enc(dom), f, n]
        kw = {'d': 9 + r.randint(0, 1)}
    else:
        b = ses.bits(1)
        w, h = ses.wh(1)
        x1, x2 = sorted([r.randint(0, w), r.randint(0, w)])
        y1, y2 = sorted([r.randint(0, h), r.randint(0, h)])
        if x1 == x2:
            x1, x2 = (0, w)
        if y1 == y2:
            y1, y2 = (0, h)
        if x2 - x1 > 14:
            x2 = x1 + r.randint(1, 14)
        if y2 - y1 > 12:
            y1 = y2 - r.randint(1, 12)
        if b < 24 and base != 'newtonsfractal' and r.random() < 0.4:
            f = rawf = [color(r, 24), color(r, 24)]
        if r.random() < 0.1:
            x1, x2 = x2, x1
        if r.random() < 0.1:
            y1, y2 = y2, y1
        raw = [x1, y1, x2, y2, *rawp, dom, rawf, n]
        a = [x1, y1, x2, y2, ep, enc(q), enc(dom), f, n]
    rs = repr(raw).replace("'@newt'", '__import__("gen_frac").newtpars(%r)' % p)
    ses.do(name, *a, x={'raw': rs}, **kw)


NAMES = MEM + list(FILEOP)


def c22(ses, sid, tier):
    r = ses.rng
    b = BITS[sid % 4]
    w, h = dims(r, 0.03, 24, 500)
    ses.img(1, w, h, b, pixels(r, w, h, b), palette(r, b) if b < 24 else None)
    for j in range(2):
        op(ses, r, NAMES[(2 * sid + j) % len(NAMES)] if r.random() < 0.7 else r.choice(NAMES))


PROPS = [Prop('C22', c22, quick=880, thorough=6000, chunk=60,
    assumptions=['regions inside of the bitmap; maxiter up to 400',
                 'pixels whose iteration number depends on rounding errors below 1e-9 are free'])]
