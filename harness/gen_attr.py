"""Sessions of attractors and iterated function systems."""
import random
from prop import Prop
from gen import *
from gen_frac import dbl, enc
from ops import B, CALLS


def mod(name):
    import importlib
    return importlib.import_module('pythonbmp.' + name)


def points(v):
    return [[dbl(z.real), dbl(z.imag)] if isinstance(z, complex) else [dbl(z[0]), dbl(z[1])] for z in v]


ORBIT = ['ikeda', 'n', 'gumowskimira', 'peterdejong', 'clifford', 'fractaldream', 'hopalong', 'symmetricicon', 'duffing']


def orbit(ses, ev):
    return points(getattr(mod('fractals'), ev['op'])(*eval(ev['raw'])))


def par(r, n):
    """arguments of the list function, without the number of points; those of the picture function; parameters and start of the specification"""
    u = lambda a, b: float(r.choice([round(r.uniform(a, b), r.randint(1, 4))]))
    if n == 'ikeda':
        p = [u(0.5, 1), u(0.6, 0.95), u(0.2, 0.6), u(4, 8)]
        return p, p, p, [0.0, 0.0]
    if n in ('n', 'peterdejong', 'clifford', 'fractaldream'):
        p = [u(-3, 3) for _ in range(4)]
        s = 0.1 if n == 'fractaldream' else 0.0
        return p, p, p, [s, s]
    if n == 'gumowskimira':
        s = [u(-5, 5), u(-5, 5)]
        p = [u(-0.9, 0.4), r.choice([1.0, 0.9998, u(0.9, 1)])]
        return s + p, s + p, p + [0.0, 0.0], s
    if n == 'hopalong':
        p = [u(-9, 9) for _ in range(3)]
        return p, p, p + [0.0], [0.0, 0.0]
    if n == 'symmetricicon':
        k = r.choice([[2.0, 0.2, 0.1, 0.0, -1.25, 3], [1.0, 0.0, 0.5, 0.0, -2.3, 5], [2.0, 0.0, 1.0, 0.1, -2.4, 3], [-2.5, 8.0, -0.7, 0.0, 2.39, 16], [1.8, 0.0, 1.0, 0.1, -1.93, 4],
                      [5.0, -1.9, 1.0, 0.188, -2.5, 5], [u(-1, 1), u(-0.3, 0.3), u(-0.5, 0.5), u(-0.3, 0.3), u(-1, 1), r.randint(2, 7)]])
        s = [u(-0.2, 0.2), u(-0.2, 0.2)]
        return s + k, s + k, k, s
    s = [u(-1, 1), u(-1, 1), u(0, 3)] if r.random() < 0.5 else [0.0, 0.0, 0.0]
    a, b, w, dt = u(0.1, 0.4), u(0.2, 0.5), u(0.5, 1.5), u(0.01, 0.15)
    return s + [dt, a, b, w], [a, b, w, dt], [a, b, w, dt, s[2]], s[:2]


def orbitop(ses, r):
    n = r.choice(ORBIT)
    a, _, p, s = par(r, n)
    m = r.choice([0, 1, 2, 3, 40, 90])
    try:
        listof(n, a, m)
    except OverflowError:
        return
    ses.do(n + 'attractorlist', enc(p), enc(s), m, x={'raw': repr(a + [m])})


def listof(n, a, m):
    return getattr(mod('fractals'), n + 'attractorlist')(*a, m)


def usable(v, nx, ny):
    """a range of positive size, counts that differ"""
    pts = [(z.real, z.imag) if isinstance(z, complex) else z for z in v]
    for k in (0, 1):
        c = [p[k] for p in pts]
        if not all(abs(x) < 1e6 for x in c) or max(c) - min(c) < 1e-3:
            return False
    return len(v) < nx * ny * 0.7


def draw(ses, ev):
    return getattr(B() if not ev['op'].startswith('histogram') and not ev['op'].startswith('get') else mod('mathlib'), ev['op'])(*eval(ev['raw']))


def drawfile(ses, ev):
    return getattr(B(), ev['op2'])(ses.path(ev['d']), *eval(ev['raw']))


def cloud(r, cplx):
    n = r.choice([2, 3, 5, 20, 60])
    k = r.random()
    f = (lambda: float(r.randint(-4, 4))) if k < 0.3 else (lambda: r.gauss(0, 3)) if k < 0.7 else (lambda: r.uniform(0, 1) ** 2)
    v = [(f(), f()) for _ in range(n)]
    if r.random() < 0.3:
        v += [r.choice(v) for _ in range(9)]
    return [complex(*p) for p in v] if cplx else [list(p) for p in v] if r.random() < 0.5 else v


def pictop(ses, r, save=False):
    nx, ny = r.choice([(2, 2), (2, 5), (7, 3), (11, 11), (8, 16), (20, 9), (13, 17), (30, 30), (33, 20)])
    bits = r.choice(BITS)
    k = r.random()
    if k < 0.35 and not save:
        cplx = r.random() < 0.5
        v = cloud(r, cplx)
        if usable(v, nx, ny) or (k < 0.1 and usable(v, 99, 99)):
            k = r.random()
            if k < 0.2:
                ses.do('getcomplexdomainbounds' if cplx else 'getdomainbounds', points(v), x={'raw': repr([v])})
            elif k < 0.6:
                ses.do('histogram2Dcomplex' if cplx else 'histogram2D', points(v), nx, ny, x={'raw': repr([v, nx, ny])})
            elif len(v) < nx * ny * 0.7:
                ses.do('plotattractorcomplex' if cplx else 'plotattractor', points(v), nx, ny, bits, d=2, x={'raw': repr([v, nx, ny, bits])})
        return
    n = r.choice(ORBIT)
    a, b, _, _ = par(r, n)
    if n == 'duffing':
        a[:3] = [0, 0, 0]
    m = r.choice([3, 10, 60, 150])
    try:
        v = listof(n, a, m)
    except OverflowError:
        return
    if not usable(v, nx, ny):
        return
    if r.random() < 0.5 and not save:
        ses.do(n + 'attractor', points(v), nx, ny, bits, d=2, x={'raw': repr([nx, ny, bits, *b, m])})
    else:
        ses.do(n + 'attractor', points(v), nx, ny, bits, d=9, x={'raw': repr([nx, ny, bits, *b, m]), 'op2': 'save%sattractor2file' % n, 'file': 1})


def ifs(ses, ev):
    m, (name, r, s, n) = mod('fractals'), ev['a'][:4] if len(ev['a']) > 3 else ev['a'] + [0]
    random.seed(ev['seed'])
    t = m.getIFSparams()[name]
    if ev['op'] == 'iterIFS':
        return [list(p) for p in m.iterIFS(t, *r, *s, n)]
    if ev['op'] == 'IFS':
        return B().IFS(ses.mem[ev['s']], t, *r, *s, ev['a'][3], ev['a'][4])
    d = {}
    for _ in range(3000):
        for p in m.iterIFS(t, *r, *s, 1):
            d[p] = d.get(p, 0) + 1
    return [[*p, k] for p, k in sorted(d.items())]


def fern(ses, ev):
    random.seed(ev['seed'])
    if ev['op'] == 'fern2file':
        return B().fern2file(ses.path(ev['s']), ses.path(ev['d']), *ev['a'])
    return B().fern(ses.mem[ev['s']], *ev['a'])


for _n in ORBIT:
    CALLS[_n + 'attractorlist'] = orbit
    CALLS[_n + 'attractor'] = lambda ses, ev: (drawfile if 'op2' in ev else draw)(ses, ev)
for _n in 'plotattractor', 'plotattractorcomplex', 'histogram2D', 'histogram2Dcomplex', 'getdomainbounds', 'getcomplexdomainbounds':
    CALLS[_n] = draw
CALLS['getdomainbounds'] = CALLS['getcomplexdomainbounds'] = lambda ses, ev: [dbl(v) for v in draw(ses, ev)]
for _n in 'iterIFS', 'ifschoice', 'IFS':
    CALLS[_n] = ifs
CALLS['fern'] = CALLS['fern2file'] = fern
NAMES = ['fern', 'tree', 'cantortree', 'sierpinskitriangle']


def ifsop(ses, r, tier):
    name = r.choice(NAMES)
    big = name == 'fern'
    x1, y1 = r.choice([(0, 0), (r.randint(0, 3), r.randint(0, 3)), (r.randint(-9, 9), r.randint(-9, 9))])
    R = [x1, y1, x1 + r.randint(2, 60), y1 + r.randint(2, 60)]
    if r.random() < 0.3:
        R[0], R[2] = R[2], R[0]
    S = [r.randint(1, 7), r.randint(1, 7), r.randint(-2, 30), r.randint(-5, 5)] if big else [r.randint(5, 40), r.randint(5, 40), r.randint(-2, 20), r.randint(-5, 5)]
    k = r.random()
    x = {'seed': r.randrange(1 << 30)}
    if k < 0.6:
        ses.do('iterIFS', name, R, S, r.randint(0, 5), x=x)
    elif k < 0.8:
        ses.do('ifschoice', name, R, S, x=x)
    else:
        w, h = ses.wh(1)
        q = rect(r, w, h, out=0)
        ses.do('IFS', name, q, S, color(r, ses.bits(1)), r.choice([0, 1, 30, 300]), x=x)


def c28(ses, sid, tier):
    r = ses.rng
    w, h, b = image(ses, r, 1, cap=30)
    for _ in range(8):
        k = r.random()
        if k < 0.4:
            orbitop(ses, r)
        elif k < 0.75:
            pictop(ses, r)
        else:
            ifsop(ses, r, tier)
    if sid % 8 == 0:
        w, h = r.randint(20, 44), r.randint(20, 44)
        ses.img(1, w, h, b, [0] * (w * h) if r.random() < 0.6 else pixels(r, w, h, b))
        q = r.choice([[0, 0, w - 1, h - 1], [w - 1, h - 1, 0, 0], rect(r, w, h), [0, 0, r.randint(1, w - 1), r.randint(1, h - 1)]])
        c = color(r, b) | 1
        if r.random() < 0.6:
            ses.do('fern', *q, c, x={'seed': r.randrange(1 << 30)})
        else:
            ses.poke(10, bytes(ses.mem[1]))
            ses.do('fern2file', *q, c, s=10, d=11, x={'seed': r.randrange(1 << 30)})


PROPS = [Prop('C28', c28, quick=1540, thorough=10000, chunk=40,
              assumptions=['points of an orbit are compared one step at a time, since orbits are chaotic', 'random choices are judged by their frequency in 3000 calls'])]
