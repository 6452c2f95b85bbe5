"""Sessions of the mathematical functions."""
import math, random
from prop import Prop
from gen import *
from gen_frac import dbl, enc
from ops import CALLS


def M():
    import pythonbmp.mathlib as m
    return m


def out(v):
    if v is None:
        return []
    if isinstance(v, bool):
        return v
    if isinstance(v, complex):
        return [dbl(v.real), dbl(v.imag)]
    if isinstance(v, (list, tuple)):
        return [] if list(v) == [None] * len(v) and v else [out(x) for x in v]
    return dbl(v)


def num(v):
    """arguments as the specification takes them: all numbers are doubles"""
    if isinstance(v, complex):
        return [dbl(v.real), dbl(v.imag)]
    if isinstance(v, (list, tuple)):
        return [num(x) for x in v]
    return dbl(v)


def call(ses, ev):
    op, a = ev['op'], eval(ev['raw'])
    m = M()
    if op == 'mathnormvec':
        op = 'getnormvec'
    if op in ('fft', 'ifft'):
        v = a[0]
        getattr(m, op)(v)
        return out(v)
    if op == 'newtonmethod':
        c, z, n, tol = a
        f = lambda x: sum(k * x ** i for i, k in enumerate(c))
        g = lambda x: sum(i * k * x ** (i - 1) for i, k in enumerate(c) if i)
        r = m.newtonmethod(z, f, g, n, tol)
        return [] if r[0] is None else [dbl(complex(r[0]).real), dbl(complex(r[0]).imag), dbl(r[1])]
    if op == 'countdist':
        return [[dbl(k), dbl(v)] for k, v in m.countdist(a[0]).items()]
    if op in ('randomvect', 'addrndtovert'):
        random.seed(ev['seed'])
    r = getattr(m, op)(*a)
    if num(a) != num(eval(ev['raw'])):
        raise RuntimeError('arguments changed')
    if isinstance(r, bool):
        return r
    return out(list(r) if isinstance(r, (list, tuple)) else r)


def x(r, m=50):
    k = r.random()
    if k < 0.35:
        return r.randint(-m, m)
    if k < 0.45:
        return r.choice([0, 1, -1, 0.5, -0.5, 2, m, -m, 1.5, 2.5])
    return r.choice([round(r.uniform(-m, m), 2), r.uniform(-m, m)])


def vec(r, n=None, m=50, lo=0):
    return [x(r, m) for _ in range(r.randint(lo, 7) if n is None else n)]


def nonzero(r, n, m=50):
    while True:
        v = vec(r, n, m)
        if math.sqrt(sum(t * t for t in v)) > 0.01:
            return v


def away(r, m=50):
    v = 0
    while abs(v) < 0.1:
        v = x(r, m)
    return v


def data(r, n=None):
    n = n or r.randint(3, 9)
    X = r.sample(range(-30, 60), n)
    k = r.random()
    return [[v if k < 0.6 else v + r.choice([0.25, 0.5, 0.1]), (x(r) if k < 0.8 else 2 * v + r.uniform(-3, 3))] for v in X]


def sorted2(r, m=50):
    a, b = sorted(vec(r, 2, m))
    return a, b


def isortho(r):
    n = r.choice([2, 3, 4])
    u = [r.randint(-5, 5) for _ in range(n)]
    k = r.random()
    if k < 0.3:
        return u, [r.choice([0, r.randint(-5, 5)]) if t == 0 else 0 for t in u]
    if k < 0.6:
        v = [0] * n
        i, j = r.sample(range(n), 2)
        v[i], v[j] = -u[j], u[i]
        return u, v
    return u, [r.randint(-5, 5) for _ in range(n)]


def args(r, op):
    n = r.randint(1, 7)
    if op in ('addvect', 'subvect', 'mulvect', 'dotprod', 'dist'):
        return [vec(r, n), vec(r, n)]
    if op == 'divvect':
        return [vec(r, n), [away(r) for _ in range(n)]]
    if op == 'scalarmulvect' or op == 'intscalarmulvect':
        return [vec(r), x(r, 9)]
    if op == 'scalardivvect':
        return [vec(r), away(r)]
    if op in ('roundvect', 'variance', 'mean', 'vectiszero', 'StdDev', 'vmag', 'coefvar'):
        if op == 'vectiszero' and r.random() < 0.6:
            v = [0] * n
            if r.random() < 0.5:
                v[r.randrange(n)] = away(r)
            return [v]
        if op == 'coefvar':
            return [[abs(t) + 1 for t in vec(r, n)]]
        return [vec(r, n)]
    if op in ('setmaxvec',):
        return [vec(r), x(r)]
    if op == 'setminmaxvec':
        return [vec(r), *sorted2(r)]
    if op == 'intsetminmaxvec':
        return [vec(r), *sorted([r.randint(-50, 50), r.randint(-50, 50)])]
    if op in ('addvectpairlist', 'addvecttripletlist', 'addvectinlist', 'meanlist', 'pivotlist', 'ravel2D', 'roundvectlist'):
        k = {'addvectpairlist': 2, 'addvecttripletlist': 3}.get(op, r.randint(1, 6))
        if op == 'ravel2D':
            return [[vec(r) for _ in range(r.randint(0, 5))]]
        return [[vec(r, n) for _ in range(k)]]
    if op == 'trans':
        return [[vec(r, n) for _ in range(r.randint(0, 5))], vec(r, n)]
    if op == 'addvectlist':
        k = r.randint(0, 5)
        return [[vec(r, n) for _ in range(k)], [vec(r, n) for _ in range(k)]]
    if op == 'adddimz':
        return [[vec(r, 2) for _ in range(r.randint(0, 5))], x(r)]
    if op in ('swapxy', 'range2baseanddelta', 'delta'):
        return [vec(r, 2)]
    if op in ('mirrorx', 'mirrory'):
        return [vec(r, 2), x(r)]
    if op == 'mirrorvec':
        return [vec(r, n), vec(r, n)]
    if op in ('mirror', 'setmax', 'setmin'):
        a = x(r)
        return [a, r.choice([a, x(r)])]
    if op == 'mirror1stquad':
        return [x(r), x(r), vec(r, 2)]
    if op in ('xorvect', 'andvect', 'orvect'):
        b = lambda: r.choice([0, 255, r.randrange(256), r.randrange(1 << 20)])
        return [[b() for _ in range(n)], [b() for _ in range(n)]]
    if op == 'bitmaskvect':
        return [[r.randrange(1 << 16) for _ in range(n)], r.choice([0, 1, 15, 240, 255, r.randrange(1 << 16)])]
    if op == 'initmatrix':
        return [r.randint(1, 6), r.randint(1, 6), x(r)]
    if op in ('normvec', 'dircos'):
        return [nonzero(r, n)]
    if op == 'diracos':
        return [[r.choice([0, 1, -1, 0.5, r.uniform(-1, 1)]) for _ in range(n)]]
    if op == 'dirdeg':
        return [vec(r, n, 7)]
    if op == 'centerpoint':
        return [r.randint(-50, 50) for _ in range(4)]
    if op in ('LSMslope', 'LSMYint'):
        return [data(r)]
    if op in ('PearsonsR', 'Rsquare', 'TTest'):
        while True:
            d = data(r)
            if len({p[1] for p in d}) > 1:
                return [d]
    if op in ('slope', 'anglebetween2Dlines'):
        u, v = vec(r, 2), vec(r, 2)
        if op[0] == 'a':
            v[0] = r.choice([v[0], u[0]])
            if u == v or 0 < abs(u[0] - v[0]) < 0.01 or (u[0] == v[0] and abs(u[1] - v[1]) < 0.01):
                v = [u[0], u[1] + 3]
        elif abs(u[0] - v[0]) < 0.1:
            v[0] = u[0] + 1
        return [u, v]
    if op == 'det3D':
        return [vec(r, 3, 9) for _ in range(3)]
    if op == 'cosaffin':
        u = nonzero(r, n)
        return [u, r.choice([nonzero(r, n), u, [-t for t in u]])]
    if op in ('setminmax', 'clamp'):
        a, b = sorted2(r)
        return [r.choice([x(r), a, b]), a, b]
    if op == 'intsetminmax':
        return [x(r), *sorted([r.randint(-50, 50), r.randint(-50, 50)])]
    if op == 'sign':
        return [r.choice([0, 0.0, -0.0, x(r), 1e-9, -1e-9])]
    if op in ('lerp', 'smoothsteplerp', 'smoothersteplerp', 'smootheststeplerp'):
        a, b = x(r), x(r)
        return [a, b if a == b or abs(a - b) > 0.5 else b + 2 * abs(b - a) + 1, r.choice([0, 1, 0.5, r.random(), r.uniform(-0.2, 1.2)])]
    if op in ('invlerp', 'smoothstep', 'smootherstep', 'smootheststep'):
        a = x(r)
        b = r.choice([a, a + away(r, 20) * 3])
        return [a, b, r.choice([a, b, (a + b) / 2, a + (b - a) * r.random(), a + (b - a) * r.uniform(-0.3, 1.3)])]
    if op == 'invsmoothstep':
        return [r.choice([0, 1, 0.5, 0.25, r.random(), r.random()])]
    if op == 'tetration':
        n = r.randint(0, 3)
        return [r.choice([1, 2, 0.5, 1.5, r.uniform(0.3, 1.7)]), n]
    if op in ('polarcoordangle2D', 'rect2polarcoord2D'):
        k = r.random()
        return [nonzero(r, 2) if k < 0.6 else [0, away(r)] if k < 0.8 else [away(r), 0]]
    if op == 'isinrange':
        a, b = sorted2(r)
        return [r.choice([a, b, (a + b) / 2, x(r)]), b, a]
    if op == 'isorthogonal':
        return list(isortho(r))
    if op == 'crossprod3d':
        return [vec(r, 3), vec(r, 3)] if r.random() < 0.9 else [vec(r, 2), vec(r, r.choice([2, 3]))]
    if op == 'mathnormvec':
        return [vec(r, 3) for _ in range(3)]
    if op in ('rect2sphericalcoord3D', 'rect2cylindricalcoord3D'):
        v = nonzero(r, 3)
        if r.random() < 0.3:
            v[r.randrange(3)] = 0
            v[r.randrange(3)] = 7
        return [v]
    if op in ('spherical2rectcoord3D', 'cylindrical2rectcoord3D'):
        return [[abs(x(r)), r.uniform(-7, 7), r.uniform(0, 3.2)]]
    if op == 'polar2rectcoord2D':
        return [[abs(x(r)), r.uniform(-7, 7)]]
    if op == 'rect2polarcoord2Dwithcenter':
        c = vec(r, 2)
        d = nonzero(r, 2)
        return [c, [c[0] + d[0], c[1] + d[1]]]
    if op == 'computerotvec':
        return [r.choice([0, 90, 180, 270, 45, -30, r.uniform(-400, 400)])]
    if op == 'rotvec2D':
        t = r.uniform(-7, 7)
        return [vec(r, 2), [math.sin(t), math.cos(t)]]
    if op in ('fft', 'ifft'):
        n = r.choice([1, 2, 4, 8, 16])
        k = r.random()
        return [[complex(x(r, 9), 0 if k < 0.4 else x(r, 9)) for _ in range(n)]]
    if op == 'newtonmethod':
        n = r.randint(2, 5)
        c = [complex(r.randint(-5, 5), r.choice([0, r.randint(-3, 3)])) for _ in range(n)] + [complex(r.choice([1, 1, 2, -1]), 0)]
        if r.random() < 0.15:
            c = [complex(1), complex(0), complex(1)]
        return [c, complex(round(r.uniform(-3, 3), 3), r.choice([0, round(r.uniform(-3, 3), 3)])), r.choice([1, 2, 5, 15]), r.choice([1e-3, 1e-6, 0.1])]
    if op == 'distancetable':
        vs = []
        for _ in range(r.randint(0, 5)):
            v = vec(r, 2 + n % 2)
            if v not in vs:
                vs.append(v)
        return [vs]
    if op == 'countdist':
        return [[[r.randint(0, 5), r.randint(0, 5), r.choice([1, 2, 2.5, 3, 5.5])] for _ in range(r.randint(0, 12))]]
    a, b = sorted([r.randint(-9, 9), r.randint(-9, 9)])
    if op == 'randomvect':
        return [a, b]
    return [[vec(r, 3) for _ in range(r.randint(0, 6))], a, b]


VEC = ['addvect', 'subvect', 'mulvect', 'divvect', 'scalarmulvect', 'scalardivvect', 'intscalarmulvect', 'roundvect', 'setmaxvec', 'setminmaxvec', 'intsetminmaxvec',
       'addvectpairlist', 'addvecttripletlist', 'addvectinlist', 'trans', 'addvectlist', 'roundvectlist', 'variance', 'meanlist', 'pivotlist', 'ravel2D', 'adddimz',
       'swapxy', 'mirrorx', 'mirrory', 'mirrorvec', 'mirror', 'mirror1stquad', 'xorvect', 'andvect', 'orvect', 'bitmaskvect', 'range2baseanddelta', 'initmatrix',
       'normvec', 'dircos', 'diracos', 'dirdeg', 'centerpoint']
NUM = ['mean', 'StdDev', 'coefvar', 'LSMslope', 'LSMYint', 'PearsonsR', 'Rsquare', 'TTest', 'slope', 'dotprod', 'vmag', 'dist', 'det3D', 'cosaffin', 'setmax', 'setmin',
       'setminmax', 'intsetminmax', 'sign', 'delta', 'lerp', 'invlerp', 'clamp', 'smoothstep', 'smootherstep', 'smootheststep', 'invsmoothstep', 'smoothsteplerp',
       'smoothersteplerp', 'smootheststeplerp', 'tetration', 'polarcoordangle2D', 'anglebetween2Dlines']
REST = ['isinrange', 'vectiszero', 'isorthogonal', 'crossprod3d', 'mathnormvec', 'rect2sphericalcoord3D', 'spherical2rectcoord3D', 'rect2cylindricalcoord3D',
        'cylindrical2rectcoord3D', 'polar2rectcoord2D', 'rect2polarcoord2D', 'rect2polarcoord2Dwithcenter', 'computerotvec', 'rotvec2D', 'fft', 'ifft', 'newtonmethod',
        'distancetable', 'countdist', 'randomvect', 'addrndtovert', 'fft', 'newtonmethod', 'isorthogonal', 'rect2sphericalcoord3D']
OPS = VEC + NUM + REST
for _n in OPS:
    CALLS[_n] = call


def near(r, a):
    # the same arguments with the fractions changed a little
    if isinstance(a, float):
        return a * r.choice([1, 1.003, 0.997]) if 0.01 < abs(a) and a not in (1.0, -1.0) else a
    return [near(r, v) for v in a] if isinstance(a, list) else a


CLOSE = ('invsmoothstep', 'cosaffin', 'isorthogonal', 'diracos', 'dirdeg', 'rotvec2D', 'initmatrix', 'newtonmethod', 'clamp', 'setminmax', 'isinrange')


def c29(ses, sid, tier, OPS=OPS):
    r = ses.rng
    image(ses, r, 1, bits=1, wh=(2, 2))
    last = None
    for _ in range(14):
        if last and r.random() < 0.1 and last[0] not in CLOSE:
            op, a = last[0], near(r, last[1])
        else:
            op = r.choice(OPS)
            a = args(r, op)
        last = (op, a)
        x = {'raw': repr(a)}
        if op in ('randomvect', 'addrndtovert'):
            x['seed'] = r.randrange(1 << 30)
        ses.do(op, *num(a), x=x)


PROPS = [Prop('C29', c29, quick=1980, thorough=15000, chunk=60,
              assumptions=['results are compared with a relative tolerance of 1e-7; arguments stay where the functions are defined (no division by zero)'])]
