"""Sessions of the functions that enumerate points."""
import cmath
from prop import Prop
from gen import *
from gen_frac import dbl, enc, fpar, newt, newtpars, MEM
from gen_math import num, out
from ops import CALLS

FNAME = {'mandelbrot': 'multibrot', 'julia': 'multijulia', 'tricorn': 'multicorn', 'lambdafractal': 'lambdafn', 'ngonfractal': 'ngonfunc',
         'astroidfractal': 'astroid', 'lemniscatefractal': 'lemniscate', 'xorfractal': 'xorfn', 'xordivfractal': 'xordivfn', 'tetrationfractal': 'tetrationfn'}
INAME = {'astroidfractal': 'astroid', 'lemniscatefractal': 'lemniscate', 'tetrationfractal': 'tetration', 'lambdafractal': 'lamdbafractal'}
FRAC = [n for n in MEM if n not in ('newtonsfractal', 'multisuperellipse')]
BOOL = ('isinrectbnd', 'listinrecbnd', 'entirecircleisinboundary', 'entireellipseisinboundary')
FLOATS = ('floatregpolygonvert', 'koch', 'kochcurvevert', 'kochsnowflakevert')
INTS = ['iterline', 'lineseg', 'iterparallelogram', 'itercirclepart', 'itercirclepartlineedge', 'itercirclepartvertlineedge', 'itercircle', 'circlevert',
        'iterellipsepart', 'iterellipse', 'ellipsevert', 'recvert', 'rectboundarycoords', 'itergetneighbors', 'getneighborlist', 'sortrecpoints']
OPS = INTS + ['iterline', 'iterparallelogram', 'rectboundarycoords', 'itergetneighbors', 'getneighborlist', 'hilbertvert', 'fractalvalue', 'fractalvalue',
              'fractalvalue', 'fractalpoints', 'newtonfuncs'] + list(BOOL) * 2 + list(FLOATS)


def ints(v):
    if isinstance(v, (list, tuple)):
        return [ints(t) for t in v]
    return v if type(v) is int else 'not an integer: %r' % (v,)


def call(ses, ev):
    import pythonbmp.primitives2D as P, pythonbmp.fractals as X
    op, a = ev['op'], eval(ev['raw'])
    if op == 'newtonfuncs':
        f, g = newtpars(a[0])
        return [[dbl(v.real), dbl(v.imag)] for v in map(complex, (f(a[1]), g(a[1])))]
    if op == 'fractalvalue':
        return ints(getattr(X, a[0])(*a[1:]))
    if op == 'fractalpoints':
        return ints(list(getattr(X, a[0])(*a[1:])))
    m = P if hasattr(P, op) else X
    r = getattr(m, op)(*a)
    if op == 'hilbertvert':
        return ints(a[0])
    if a != eval(ev['raw']):
        raise RuntimeError('arguments changed')
    if op in FLOATS:
        return [[dbl(p[0]), dbl(p[1])] for p in r]
    if op in BOOL:
        return int(r)
    return ints(list(r))


def p2(r, m=25):
    return [r.randint(-m, m), r.randint(-m, m)]


def fp(r):
    return [r.choice([round(r.uniform(-50, 50), 2), r.uniform(-9, 9), float(r.randint(-20, 20))]) for _ in range(2)]


def frac(r):
    name = r.choice(FRAC)
    p, q, dom, n = fpar(name, r)
    if r.random() < 0.2 and name not in ('sinjulia', 'cosjulia', 'marekdragon', 'tetrationfractal'):
        n = r.choice([1, 25, 40, 2])
    pars = [v for v in (p, q) if v is not None]
    return name, p, q, dom, n, pars


def do(ses, r, op):
    if op == 'newtonfuncs':
        k = r.choice([3, 4, 4.1, 5, 5.1, 5.3, 6, 6.3])
        z = complex(round(r.uniform(-2, 2), 2), round(r.uniform(-2, 2), 2))
        z = r.choice([z, complex(z.real, 0), complex(0, z.imag or 1)]) or 1j
        return ses.do(op, newt(k), enc(z), x={'raw': repr([k, z])})
    if op == 'fractalvalue':
        name, p, q, dom, n, pars = frac(r)
        P, Q = r.uniform(dom[1], dom[0]), r.uniform(dom[3], dom[2])
        if r.random() < 0.2:
            P, Q = round(P, 1), round(Q, 1)
        call_ = [2] if name in ('mandelbrot', 'tricorn') else [p, 2] if name == 'julia' else pars
        if name == 'marekdragon':
            call_ = [cmath.exp(2j * cmath.pi * p)]
        return ses.do(op, name, dbl(P), dbl(Q), enc(p), enc(q), n, x={'raw': repr([FNAME.get(name, name), P, Q] + call_ + [n])})
    if op == 'fractalpoints':
        name, p, q, dom, n, pars = frac(r)
        x, y = r.randint(-5, 40), r.randint(-5, 40)
        u, v = x + r.randint(1, 9), y + r.randint(1, 7)
        if r.random() < 0.2:
            x, u = u, x
        if r.random() < 0.2:
            y, v = v, y
        return ses.do(op, name, x, y, u, v, enc(p), enc(q), enc(dom), n, x={'raw': repr(['iter' + INAME.get(name, name), x, y, u, v] + pars + [dom, n])})
    if op in ('iterline', 'lineseg'):
        a = [p2(r), p2(r)]
        k = r.random()
        if k < 0.3:
            a[1] = [a[0][0] + r.randint(-6, 6), a[0][1] + r.randint(-6, 6)]
        elif k < 0.35:
            a[1] = [a[0][0] + r.randint(-400, 400), a[0][1] + r.randint(-400, 400)]
    elif op == 'iterparallelogram':
        a = [p2(r), p2(r), p2(r)]
    elif op in ('itercirclepart', 'itercirclepartlineedge', 'itercirclepartvertlineedge'):
        a = [r.choice([r.randint(0, 40), r.randint(0, 8), r.randint(0, 150)])]
    elif op in ('itercircle', 'circlevert'):
        a = p2(r) + [r.choice([r.randint(0, 40), r.randint(0, 8)])]
    elif op == 'iterellipsepart':
        a = [r.randint(1, 40), r.randint(1, 40)]
    elif op in ('iterellipse', 'ellipsevert'):
        a = p2(r) + [r.randint(1, 25), r.randint(1, 25)]
    elif op in ('recvert', 'sortrecpoints'):
        a = p2(r) + p2(r)
    elif op == 'rectboundarycoords':
        a = [[p2(r, 300) for _ in range(r.choice([1, 2, 3, 4, 10]))]]
    elif op in ('itergetneighbors', 'getneighborlist'):
        mx, my = r.randint(1, 9), r.randint(1, 9)
        a = [[r.choice([0, mx - 1, r.randrange(mx), -1 if r.random() < 0.2 else 0]), r.choice([0, my - 1, r.randrange(my), -1 if r.random() < 0.2 else 0])],
             mx, my, r.random() < 0.5]
        return ses.do(op, *a[:3], int(a[3]), x={'raw': repr(a)})
    elif op in ('isinrectbnd', 'listinrecbnd'):
        x1, y1 = p2(r)
        x2, y2 = x1 + r.randint(0, 12), y1 + r.randint(0, 12)
        one = lambda: [r.choice([x1, x2, x1 + 1, x2 - 1, r.randint(x1, x2), r.randint(x1, x2), r.randint(x1 - 3, x2 + 3)]),
                       r.choice([y1, y2, y1 + 1, y2 - 1, r.randint(y1, y2), r.randint(y1, y2), r.randint(y1 - 3, y2 + 3)])]
        if op == 'isinrectbnd':
            a = one() + [x1, y1, x2, y2]
        else:
            v = [[r.randint(x1 + 1, x2 - 1), r.randint(y1 + 1, y2 - 1)] for _ in range(r.randint(0, 4))] if x2 - x1 > 1 and y2 - y1 > 1 else []
            if r.random() < 0.6:
                v.insert(r.randint(0, len(v)), one())
            a = [v, x1, y1, x2, y2]
    elif op in ('entirecircleisinboundary', 'entireellipseisinboundary'):
        h, v = r.randint(0, 9), r.randint(0, 9)
        if op == 'entirecircleisinboundary':
            v = h
        x, y = p2(r)
        a = [x, y, x - h - r.choice([0, 1, 1, 2, 5]), x + h + r.choice([0, 1, 1, 2, 5]), y - v - r.choice([0, 1, 1, 2, 5]), y + v + r.choice([0, 1, 1, 2, 5])]
        a += [v] if op == 'entirecircleisinboundary' else [v, h]
    elif op == 'floatregpolygonvert':
        a = p2(r, 80) + [r.randint(0, 60), r.choice([3, 4, 5, 6, 8, 9, 10, 12, 360]), r.choice([0, 90, r.randint(-400, 400), round(r.uniform(0, 360), 2)])]
        return ses.do(op, *a[:4], dbl(a[4]), x={'raw': repr(a)})
    elif op == 'hilbertvert':
        s = r.choice([8, 16, 64, 30, 7])
        a = [[p2(r) for _ in range(r.choice([0, 0, 2]))], p2(r), r.choice([[s, 0, 0, s], [0, s, s, 0], [s, 0, 0, 2 * s], [0, -s, s, 0]]), r.randint(0, 3)]
    elif op == 'koch':
        a = [fp(r), fp(r), r.choice([0.28867513459481287, 0.0, 0.5, -0.28867513459481287, round(r.uniform(-1, 1), 3)])]
        return ses.do(op, *num(a), x={'raw': repr(a)})
    elif op == 'kochcurvevert':
        a = [fp(r), fp(r), r.randint(0, 4)]
        return ses.do(op, *num(a[:2]), a[2], x={'raw': repr(a)})
    elif op == 'kochsnowflakevert':
        a = p2(r, 60) + [r.randint(1, 60), r.choice([0, 30, r.randint(0, 360), round(r.uniform(0, 360), 1)]), r.randint(0, 3)]
        return ses.do(op, *a[:3], dbl(a[3]), a[4], x={'raw': repr(a)})
    ses.do(op, *a, x={'raw': repr(a)})


for _n in OPS:
    CALLS[_n] = call


def c31(ses, sid, tier, OPS=OPS):
    r = ses.rng
    image(ses, r, 1, bits=1, wh=(2, 2))
    for _ in range(12):
        do(ses, r, r.choice(OPS))


PROPS = [Prop('C31', c31, quick=1500, thorough=15000, chunk=60,
              assumptions=['radii and half axes up to 150; regular polygons with a number of sides that divides 360',
                           'values of fractals that rounding errors below 1e-9 decide are free; the super ellipse is left to C22'])]
