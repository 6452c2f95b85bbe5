"""Sessions of solids in space."""
import math
from prop import Prop
from gen import *
from gen_frac import dbl, enc, factor, frac
from ops import B, CALLS

REG = ['tetrahedra', 'cube', 'hexahedra', 'octahedra', 'icosahedvertandsurface']
MADE = ['decahedvertandsurface', 'spherevertandsurface', 'cylindervertandsurface', 'conevertandsurface', 'surfplot3Dvertandsurface']
FUNC = ['rotvec3D', 'perspective', 'surfacetest', 'getnormvec', 'gensides', 'polyboundary', 'fillpolydata']
DRAW = ['plotpolyfillist', 'plot3d', 'plot3Dsolid']
HEIGHT = {'plus': lambda x, y: x + y, 'times': lambda x, y: x * y / 10, 'flat': lambda x, y: 7, 'wave': lambda x, y: 10 * math.sin(x / 10)}


def M():
    import pythonbmp.solids3D as m
    return m


def T():
    import pythonbmp.mathlib as m
    return m


def out(v):
    """a structure of numbers, all of them real"""
    return [out(x) for x in v] if isinstance(v, (list, tuple)) else dbl(v)


def surf(s):
    return [list(f) for f in s]


def build(name, a):
    """vertices and surfaces of a shape"""
    if name in ('tetrahedra', 'cube', 'hexahedra', 'octahedra'):
        return getattr(M(), name + 'vert' if name != 'cube' else 'cubevert')(*a), M().getshapesidedict()[name]
    if name == 'surfplot3Dvertandsurface':
        return M().surfplot3Dvertandsurface(*a[:-1], HEIGHT[a[-1]])
    return getattr(M(), name)(*a)


def callshape(ses, ev):
    v, s = build(ev['op'], eval(ev['raw']))
    return [out(v), surf(s)]


def callfunc(ses, ev):
    op, a = ev['op'], eval(ev['raw'])
    if op == 'perspective':
        return [out(x) for x in M().perspective(a[0], M().rotvec3D(*a[1]), *a[2:])]
    if op == 'getnormvec':
        return out(T().getnormvec(*a))
    if op == 'gensides':
        return [out(x) for x in M().gensides(a[:2], *a[2:])]
    if op == 'polyboundary':
        return M().polyboundary(*a)
    if op == 'fillpolydata':
        r = M().fillpolydata(M().polyboundary(a[0]), *a[1:])
        return [[k, r[k]] for k in sorted(r)] if isinstance(r, dict) else r
    return out(getattr(M(), op)(*a))


def calldraw(ses, ev):
    a = eval(ev['raw'])
    if ev['op'] == 'plot3Dsolid':
        a = [a[0:2], *a[2:6], M().rotvec3D(*a[6]), *a[7:]]
    else:
        a = [a[0:2], *a[2:]]
    return getattr(B(), ev['op'])(ses.mem[ev['s']], *a)


for _n in REG + MADE:
    CALLS[_n] = callshape
for _n in FUNC:
    CALLS[_n] = callfunc
for _n in DRAW:
    CALLS[_n] = calldraw


def fvec(r, m=40):
    return [float(r.choice([r.randint(-m, m), round(r.uniform(-m, m), 2)])) for _ in range(3)]


def shapeargs(r, name, small=False):
    x = r.choice([r.randint(5, 60), round(r.uniform(1, 60), 2)])
    if name in REG:
        return [float(x)]
    if name == 'decahedvertandsurface':
        return [r.randint(5, 90)]
    c = r.choice([[0.0, 0.0, 0.0], fvec(r, 20)])
    # the angle between two points, that need not divide the full turn
    st = [30, 45, 60, 90, 40, 50, 72, 100, 120] if small else [10, 15, 18, 20, 30, 45, 60, 90, 25, 40, 50, 70, 100, 120, 170, 179, r.randint(12, 179)]
    if name == 'spherevertandsurface':
        return [c, float(x), r.choice(st)]
    if name in ('cylindervertandsurface', 'conevertandsurface'):
        return [c, float(x), float(r.randint(1, 60)), r.choice(st)]
    x1, y1 = r.randint(-20, 20), r.randint(-20, 20)
    step = r.randint(1, 7)
    n, m = (r.randint(1, 24), r.randint(1, 24)) if not small else (r.randint(4, 10), r.randint(4, 10))
    if small:
        step = 3
    return [x1, y1, x1 + n, y1 + m, step, r.choice(sorted(HEIGHT))]


def shape(ses, r, name):
    a = shapeargs(r, name)
    ses.do(name, *enc(a), x={'raw': repr(a)})


def tri(r):
    k = r.random()
    if k < 0.2:
        return [[float(r.randint(-3, 3)) for _ in range(3)] for _ in range(3)]
    return [fvec(r) for _ in range(3)]


def deg3(r):
    return [r.choice([0.0, 90.0, 10.0, -30.0, 180.0, round(r.uniform(-400, 400), 2)]) for _ in range(3)]


def func(ses, r, name):
    if name == 'rotvec3D':
        a = deg3(r)
        e = [enc(a)]
        return ses.do(name, *enc(a), x={'raw': repr(a)})
    if name == 'perspective':
        a = [[fvec(r) for _ in range(r.randint(1, 6))], deg3(r), [*fvec(r)[:2], r.choice([1.0, -1.0]) * r.uniform(80, 200)], float(r.choice([r.randint(-100, 300), 200]))]
        return ses.do(name, *enc(a), x={'raw': repr(a)})
    if name in ('surfacetest', 'getnormvec'):
        a = tri(r)
        return ses.do(name, *enc(a), x={'raw': repr(a)})
    if name == 'gensides':
        n = r.randint(3, 8)
        p, q = [fvec(r) for _ in range(n)], [fvec(r)[:2] for _ in range(n)]
        s = [r.sample(range(n), r.randint(3, n)) for _ in range(r.randint(1, 5))]
        a = [p, q, fvec(r)[:2], s]
        return ses.do(name, *enc(a), x={'raw': repr(a)})
    v = [[r.randint(0, 20), r.randint(0, 20)] for _ in range(r.randint(1, 6))]
    if r.random() < 0.2:
        v[0] = [r.randint(-3, 25), r.randint(-3, 25)]
    a = [v]
    if name == 'fillpolydata':
        m = [max(p[i] for p in v) for i in (0, 1)]
        a += r.choice([[21, 21], [m[0] + 1, m[1] + 1], [m[0], m[1] + 1], [m[0] + 1, m[1]], [100, 100]])
    ses.do(name, *a, x={'raw': repr(a)})


def draw(ses, r, name):
    w, h = ses.wh(1)
    b = ses.bits(1)
    f, c = factor(r), color(r, b)
    solid, outline = r.random() < 0.75, r.random() < 0.5
    kf = 'SPAN4' if b == 4 else ''
    if name == 'plot3Dsolid':
        n = r.choice(REG * 2 + MADE)
        try:
            V, S = build(n, shapeargs(r, n, True))
        except Exception:
            V, S = [[0, 0, 0], [5, 0, 0], [0, 5, 0], [0, 0, 5]], [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]
        V, S = [[float(x) for x in v] for v in V], surf(S)
        size = max(max(abs(x) for x in v) for v in V) or 1
        z = r.choice([1, 1, 1, -1]) * (size * r.uniform(2.5, 6) + 5)
        # the picture fits, touches the border, or exceeds it
        d = max(1, int(r.choice([0.2, 0.3, 0.4, 0.7]) * min(w, h) * abs(z) / size))
        t = r.choice([[0.0, 0.0], [0.0, 0.0], [round(r.uniform(-size, size) / 3, 2) for _ in range(2)]])
        a = [V, S, solid, frac(f), outline, c, deg3(r), [*t, z], d, r.choice([[w // 2, h // 2], [w // 2, h // 2], [r.randint(0, w), r.randint(0, h)]])]
        e = [enc(V), S, int(solid), f, int(outline), c, enc(a[6]), enc(a[7]), d, a[9]]
        return ses.do(name, *e, x={'raw': repr(a)}, kf=kf)
    P, N = [], []
    for _ in range(r.randint(1, 4)):
        P.append([[float(r.choice([x, x + round(r.uniform(-0.49, 0.49), 2)])) for x in pt(r, w, h, 0.03, 6)] for _ in range(r.choice([1, 2, 3, 3, 4, 5]))])
        N.append(r.choice([fvec(r), [0.0, 0.0, 0.0], [0.0, 0.0, float(r.randint(-3, 3))]]))
    if name == 'plotpolyfillist':
        a = [P, N, frac(f)]
        e = [enc(P), enc(N), f]
    else:
        a = [P, N, solid, frac(f), outline, c]
        e = [enc(P), enc(N), int(solid), f, int(outline), c]
    if N and any(v == [0.0, 0.0, 0.0] for v in N):
        a[1] = [[0, 0, 0] if v == [0.0, 0.0, 0.0] else v for v in N]
    ses.do(name, *e, x={'raw': repr(a)}, kf=kf)


NAMES = REG + MADE + FUNC + DRAW * 3 + ['plot3Dsolid'] * 3


def c24(ses, sid, tier):
    r = ses.rng
    b = BITS[sid % 4]
    w, h = r.choice([(40, 40), (37, 31), (24, 40), (33, 33), (50, 30)])
    ses.img(1, w, h, b, pixels(r, w, h, b), palette(r, b) if b < 24 else None)
    if sid == 1:
        ses.img(2, 21, 21, 4, [0] * 441)
        P = [[[1.0, 1.0], [19.0, 1.0], [10.0, 19.0]]]
        ses.do('plotpolyfillist', enc(P), enc([[1.0, 2.0, 3.0]]), [[1, 1]] * 3, s=2, x={'raw': repr([P, [[1.0, 2.0, 3.0]], [1, 1, 1]])}, kf='SPAN4')
    for j in range(3):
        n = NAMES[(3 * sid + j) % len(NAMES)] if r.random() < 0.8 else r.choice(NAMES)
        (shape if n in REG + MADE else draw if n in DRAW else func)(ses, r, n)


PROPS = [Prop('C24', c24, quick=700, thorough=5000, chunk=40,
    assumptions=['numbers are compared up to a relative error of one millionth', 'surfaces seen edge on may be drawn or not'])]
