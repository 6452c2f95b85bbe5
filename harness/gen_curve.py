"""Sessions of curves given by real functions."""
import copy, math
from prop import Prop
from gen import *
from gen_color import fl
from gen_frac import dbl, enc, factor, frac
from ops import B, CALLS

VERT = ['spirographvert', 'lissajouscurvevert', 'circleinvolutevert', 'epicycloidvert', 'hypotrochoidvert', 'flowervert',
        'squirclevert', 'superellipsevert', 'gearcurvevert', 'cornuspiralvert', 'heartcurvevert', 'eggcurvevert',
        'regpolygonvert', 'spiralcontrolpointsvert']
SETS = ['arcvert', 'beziercurvevert', 'bsplinevert', 'iterellipserot']
DRAW = ['squircle', 'drawvec', 'beziercurve', 'bspline', 'thickellipserot', 'gradthickellipserot', 'plotflower',
        'plotfilledflower', 'drawarc', 'piechart']
FILES = ['savehilbertcurve2file', 'savekochsnowflake2file']


def pts(r, n, m=30):
    return [[r.randint(-m, m), r.randint(-m, m)] for _ in range(n)]


def callvert(ses, ev):
    import pythonbmp.primitives2D as p
    ret = getattr(p, ev['op'])(*eval(ev['raw']))
    ret = [[int(v[0]), int(v[1])] if all(type(x) in (int, float) and x == int(x) for x in v) else list(v) for v in ret]
    return sorted([list(x) for x in {tuple(v) for v in ret}]) if ev['op'] in SETS else ret


def calldraw(ses, ev):
    if 'raw' not in ev:     # as the sessions of guards call it
        return ses.default(ev)
    return getattr(B(), ev['op'])(ses.mem[ev['s']], *eval(ev['raw']))


def callpie(ses, ev):
    alist, big = calldraw(ses, ev)
    return [[[dbl(x[0]), dbl(x[1]), x[2], dbl(x[3]), dbl(x[4])] for x in alist], big]


def callfile(ses, ev):
    return getattr(B(), ev['op'])(ses.path(ev['d']), *eval(ev['raw']))


for _n in VERT + SETS:
    CALLS[_n] = callvert
for _n in DRAW:
    CALLS[_n] = calldraw
for _n in FILES:
    CALLS[_n] = callfile
CALLS['piechart'] = callpie


def timed(r, most=90):
    """angle increment and limit"""
    d = r.choice([0.1, 0.25, 0.5, 1.0, round(r.uniform(0.05, 1.2), 3)])
    return d, r.choice([d * r.randint(1, most), round(d * r.uniform(0.2, most), 3)])


def vert(ses, r, name):
    u = r.uniform
    x, y = r.randint(-20, 60), r.randint(-20, 60)
    a = [x, y]
    rad = r.choice([0, 1, 2, 3, r.randint(4, 60), r.randint(4, 300)])
    deg = r.choice([0.0, 90.0, 30.0, -45.0, round(u(-400, 400), 2)])
    if name == 'spirographvert':
        a += [rad, round(u(0, 1.2), 3), round(u(0.05, 0.95), 3), *timed(r)]
    elif name == 'lissajouscurvevert':
        a += [round(u(-50, 50), 2), round(u(-50, 50), 2), r.choice([1.0, 2.0, 3.0, round(u(0, 5), 2)]), r.choice([1.0, 2.0, 3.0, round(u(0, 5), 2)]), round(u(-3, 3), 2), *timed(r)]
    elif name == 'circleinvolutevert':
        a += [round(u(-9, 20), 2), *timed(r)]
    elif name in ('epicycloidvert', 'hypotrochoidvert'):
        a += [r.choice([3.0, 10.0, 20.0, round(u(0.5, 50), 2)]), r.choice([1.0, 5.0, 4.0, round(u(0.3, 30), 2)])]
        if name[0] == 'h':
            a += [r.choice([a[-1], round(u(0, 30), 2)])]
        a += timed(r)
    elif name == 'flowervert':
        a += [rad, r.randint(1, 3), deg]
    elif name == 'squirclevert':
        a += [rad]
    elif name == 'superellipsevert':
        a += [rad, r.randint(0, 60), r.choice([1.0, 2.0, 4.0, 0.5, round(u(0.2, 6), 2)]), r.choice([1.0, 2.0, 4.0, 0.5, round(u(0.2, 6), 2)])]
    elif name == 'gearcurvevert':
        a += [rad, r.randint(1, 8), r.randint(1, 12)]
    elif name == 'cornuspiralvert':
        a += [rad]
    elif name == 'heartcurvevert':
        a += [r.randint(0, 12)]
    elif name == 'eggcurvevert':
        n = r.randint(2, 50)
        a += [n, round(u(0.1, n), 2)]
    elif name == 'regpolygonvert':
        a += [rad, r.choice([3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 36, r.randint(3, 100), r.choice([361, 400])]), deg]
    elif name == 'spiralcontrolpointsvert':
        a += [r.randint(1, 20), r.randint(1, 3), r.randint(0, 5)]
    elif name == 'arcvert':
        s = u(0, 359)
        a += [r.randint(1, 40), *r.choice([[0.0, 90.0], [0.0, 360.0], [45.0, 135.0], [180.0, 270.0], [round(s, 2), round(u(s, 361), 2)]])]
    elif name == 'iterellipserot':
        a += [r.randint(1, 30), r.randint(1, 30), deg]
    elif name == 'beziercurvevert':
        a = [pts(r, r.randint(1, 7)), 0, 0]
    else:
        a = [pts(r, r.randint(1, 7)), r.random() < 0.5, r.random() < 0.5]
    ses.do(name, *[enc(v) if isinstance(v, float) else v for v in a], x={'raw': repr(a)})


def drawop(ses, r, name):
    w, h = ses.wh(1)
    b = ses.bits(1)
    c = color(r, b)
    p = pt(r, w, h, 0.2, 12)
    deg = r.choice([0.0, 90.0, 30.0, -45.0, round(r.uniform(-400, 400), 2)])
    raw = None
    if name == 'squircle':
        a = [*p, r.randint(0, max(w, h)), c]
    elif name == 'drawvec':
        q = pt(r, w, h, 0.2, 12)
        if r.random() < 0.2:
            q[r.randrange(2)] = p[r.randrange(2)]
        hs = r.choice([0, r.randint(1, 12)])
        pen = r.choice([0, 0, 1, 2, 3])
        a = [p, q, hs, c, pen]
        raw = a[:4] + ([pen] if pen else [])
    elif name in ('beziercurve', 'bspline'):
        v = [pt(r, w, h, 0.15, 8) for _ in range(r.randint(1, 6))]
        a = [v, r.choice([0, 1, 1, 2, 3]), c]
        if name == 'bspline':
            a += [r.random() < 0.5, r.random() < 0.5]
    elif name in ('thickellipserot', 'gradthickellipserot'):
        a = [*p, r.randint(1, 14), r.randint(1, 14), deg, r.randint(1, 4)]
        if name[0] == 't':
            a += [c]
        else:
            f = factor(r)
            raw = a + [[r.randint(0, 255), r.randint(0, 255)], frac(f)]
            a = a + [raw[-2], f]
            if r.random() < 0.3:
                # constant easing: only the colour of the first layer
                raw = raw + ['@fn']
                a[-2] = [raw[-3 + 0][0]] * 2 if False else [a[-2][0]] * 2
    elif name in ('plotflower', 'plotfilledflower'):
        f = factor(r)
        rad = r.randint(1, 14) if name == 'plotflower' else r.randint(3, 7)
        a = [*p, rad, r.randint(1, 3), deg, [r.randint(0, 255), r.randint(0, 255)], f]
        raw = a[:-1] + [frac(f)]
    elif name == 'drawarc':
        s = r.uniform(0, 300)
        e = r.choice([s + 30, s + 90, s + 180, r.uniform(s, 361)])
        se = r.choice([[0.0, 90.0], [45.0, 200.0], [90.0, 180.0], [0.0, 360.0], [round(s, 2), round(e, 2)]])
        k = circ(r, w, h, 0.15, 1)
        a = [*k[:2], max(1, min(k[2], 40)), *se, c, r.random() < 0.5, color(r, b), r.random() < 0.6]
    else:
        k = circ(r, w, h, 0.12, 1)
        n = r.randint(1, 5)
        v = [r.choice([r.randint(1, 9), r.randint(1, 99), round(r.uniform(0.5, 9), 2)]) for _ in range(n)]
        if r.random() < 0.25:
            v = [v[0]] * n
        if r.random() < 0.15:
            v[r.randrange(n)] = sum(v)
        d = [[x, color(r, b)] for x in v]
        raw = [*k[:2], max(1, min(k[2], 16)), d]
        a = raw[:3] + [[[dbl(x), c] for x, c in d]]
    if raw is None:
        raw = a
    rs = repr(raw).replace("'@fn'", 'lambda a, b, t: a')
    x = {'raw': rs}
    ses.do(name, *[enc(v) if isinstance(v, float) else v for v in a], x=x, kf='SPAN4' if b == 4 else '')


def fileop(ses, r, name):
    b = r.choice(BITS)
    c, bg = color(r, b), r.choice([0, 0, color(r, b)])
    pen = r.choice([1, 1, 0, 2, 3])
    if name[4] == 'h':
        w, h, n, o = r.randint(1, 36), r.randint(1, 36), r.randint(0, 3), r.randint(0, 1)
        raw = [w, h, n, b, c, bg, pen, o]
        a = raw
    else:
        rad, n, deg = r.randint(1, 14), r.randint(0, 2), r.choice([0.0, 30.0, round(r.uniform(-200, 200), 1)])
        raw = [rad, n, deg, b, c, bg, pen]
        a = [rad, n, dbl(deg), b, c, bg, pen]
    ses.do(name, *a, d=9, x={'raw': repr(raw)}, kf='SPAN4' if b == 4 else '')


NAMES = VERT + SETS + DRAW + DRAW + FILES


def c23(ses, sid, tier):
    r = ses.rng
    b = BITS[sid % 4]
    w, h = dims(r, 0.02, 30, 700)
    ses.img(1, w, h, b, pixels(r, w, h, b), palette(r, b) if b < 24 else None)
    if sid == 1:
        ses.img(2, 20, 20, 4, [0] * 400)
        ses.do('beziercurve', [[5, 5], [10, 10]], 3, 7, s=2, x={'raw': '[[[5, 5], [10, 10]], 3, 7]'}, kf='SPAN4')
    for j in range(3):
        n = NAMES[(3 * sid + j) % len(NAMES)] if r.random() < 0.8 else r.choice(NAMES)
        (fileop if n in FILES else drawop if n in DRAW else vert)(ses, r, n)


PROPS = [Prop('C23', c23, quick=790, thorough=6000, chunk=60,
    assumptions=['pixels whose place depends on rounding errors below 1e-9 are free', 'arcs of a radius of at least 1'])]
