"""Sessions of charts."""
from prop import Prop
from gen import *
from gen_frac import dbl, enc
from gen_solid import out
from ops import B, CALLS

CODES = [48 + i for i in range(10)] + [45, 46]


def prims():
    import pythonbmp.primitives2D as m
    return m


def font():
    import pythonbmp.fonts as m
    return list(m.font8x14)


def charts(f):
    import pythonbmp.fonts as m
    return [list(m.getcharfont(f, chr(c))) for c in CODES]


def half(v):
    """a value of a number line"""
    return [int(v * 2), int(isinstance(v, float))]


def call(ses, ev):
    a = eval(ev['raw'])
    r = getattr(B(), ev['op'])(ses.mem[ev['s']], *a)
    if ev['op'] == 'XYaxis':
        return [list(r[0]), list(r[1]), list(r[2])] + [[half(x) for x in v] for v in r[3:]]
    return r


CALLS['XYaxis'] = CALLS['XYscatterplot'] = CALLS['plotvecxypoint'] = CALLS['numbervert'] = call
CALLS['userdef2Dcooordsys2screenxy'] = lambda ses, ev: out(B().userdef2Dcooordsys2screenxy(*eval(ev['raw'])))
CALLS['horizontalvert'] = lambda ses, ev: prims().horizontalvert(*ev['a'])
CALLS['verticalvert'] = lambda ses, ev: prims().verticalvert(*ev['a'])


def value(r, m=30):
    k = r.random()
    return r.randint(-m, m) if k < 0.7 else r.randint(-2 * m, 2 * m) / 2


def step(r):
    return r.choice([1, 2, 5, 10, 25, 1.5, 0.5, 2.0, -1, -10, 100])


def info(r, w, h, real=False):
    """origin, steps, limits, first values, value steps"""
    o = [r.randint(0, w // 3), r.randint(h - h // 3, h - 1)]
    s = [r.randint(3, max(4, w // 3)), r.randint(3, max(4, h // 3))]
    lim = [r.randint(o[0] + s[0] + 1, max(w - 1, o[0] + s[0] + 1)), r.randint(0, max(0, o[1] - s[1] - 1))]
    return [o, s, lim, [value(r), value(r)], [abs(step(r)), abs(step(r))]]


def axis(ses, r):
    w, h = ses.wh(1)
    b = ses.bits(1)
    i = info(r, w, h)
    if r.random() < 0.15:
        i[4] = [step(r), step(r)]
    if r.random() < 0.1:
        k = r.randrange(2)
        i[2][k] = r.choice([-2, (w, h)[k], i[2][k]])
    c, t, g = color(r, b), color(r, b), color(r, b)
    grid = r.random() < 0.6
    raw = i + [c, t, grid, g]
    ses.do('XYaxis', *i[:3], [half(v) for v in i[3]], [half(v) for v in i[4]], c, t, int(grid), g, 14, charts(font()), x={'raw': repr(raw)}, kf='SPAN4' if b == 4 else '')


def numbers(ses, r):
    w, h = ses.wh(1)
    b = ses.bits(1)
    hh = r.choice([14, 5, 8, 3])
    f = font() if hh == 14 else [hh] + [r.randrange(256) for _ in range(256 * hh)]
    p = []
    for _ in range(r.randint(1, 4)):
        q = pt(r, w, h, 0.15, 10)
        if q not in p:
            p.append(q)
    a = [p, r.randint(-9, 9), r.randint(-9, 9), r.choice([1, 1, 2]), value(r), step(r), r.choice([0, 0, 1]), r.choice([0, 1, 2]), color(r, b)]
    o = [r.random() < 0.3 for _ in range(3)]
    ses.do('numbervert', *a[:4], half(a[4]), half(a[5]), *a[6:], hh, charts(f), [int(x) for x in o], x={'raw': repr(a + [f] + o)}, kf='SPAN4' if b == 4 else '')


def coordinfo(r, w, h):
    i = info(r, w, h)
    n = [len(range(i[0][0], i[2][0], i[1][0])), len(range(i[0][1], i[2][1], -i[1][1]))]
    return i + [[i[3][k] + (n[k] - 1) * i[4][k] for k in (0, 1)]]


def user(r, i, k, beyond=0.06):
    """a user coordinate, mostly within the chart"""
    span = (i[2][k] - i[0][k]) / i[1][k] * (1 if k == 0 else -1) * i[4][k]
    u = r.uniform(0, 1) if r.random() > beyond else r.choice([-0.1, 1.1, 1.0, 0.0])
    v = i[3][k] + u * span
    return r.choice([round(v), round(v, 2), v])


def scatter(ses, r):
    w, h = ses.wh(1)
    b = ses.bits(1)
    i = coordinfo(r, w, h)
    n = r.randint(2, 7)
    k = r.random()
    D = [[user(r, i, 0), user(r, i, 1), r.choice([0, 1, 2, 3, 5, 8]), color(r, b), r.random() < 0.5] for _ in range(n)]
    if k < 0.6:
        # points along a rising or falling line
        up = r.random() < 0.4
        D.sort()
        ys = sorted([d[1] for d in D], reverse=not up)
        for d, y in zip(D, ys):
            d[1] = y
    xs = [d[0] for d in D]
    line = r.random() < 0.75 and max(xs) - min(xs) > 0.01 * i[4][0]
    if line:
        # the line meets the chart, and is neither level nor above it
        m = sum((x - sum(xs) / n) * d[1] for x, d in zip(xs, D)) / sum((x - sum(xs) / n) ** 2 for x in xs)
        c = sum(d[1] for d in D) / n - m * sum(xs) / n
        at = [m * x + c for x in (i[3][0], i[5][0])]
        line = abs(m) > 1e-6 * i[4][1] / i[4][0] and min(at) < i[5][1]
    c = color(r, b)
    E = [[dbl(d[0]), dbl(d[1]), d[2], d[3], int(d[4])] for d in D]
    ses.do('XYscatterplot', E, [*i[:3], *[[dbl(x) for x in v] for v in i[3:]]], int(line), c, x={'raw': repr([D, i, line, c])}, kf='SPAN4' if b == 4 else '')


def other(ses, r, name):
    w, h = ses.wh(1)
    b = ses.bits(1)
    if name == 'plotvecxypoint':
        p, c = [float(x) + r.choice([0, 0.25, -0.3, 0.5]) for x in pt(r, w, h, 0.2, 8)], color(r, b)
        ses.do(name, enc(p), c, x={'raw': repr([p, c])})
    elif name == 'userdef2Dcooordsys2screenxy':
        i = coordinfo(r, w, h)
        p = [float(user(r, i, 0, 0.3)), float(user(r, i, 1, 0.3))]
        ses.do(name, *enc(p), [*i[:3], *[[dbl(x) for x in v] for v in i[3:]]], x={'raw': repr([*p, i])})
    else:
        u = r.randint(-20, 40)
        s = r.choice([1, 2, 3, 7, -1, -2, -5])
        ses.do(name, r.randint(-9, 60), u, u + r.randint(-5, 40) * (1 if s > 0 else -1), s)


NAMES = ['XYaxis', 'XYscatterplot', 'numbervert', 'XYaxis', 'XYscatterplot', 'plotvecxypoint', 'userdef2Dcooordsys2screenxy', 'horizontalvert', 'verticalvert', 'XYscatterplot']


def c25(ses, sid, tier):
    r = ses.rng
    b = BITS[sid % 4]
    w, h = r.choice([(60, 50), (71, 45), (45, 64), (90, 40), (64, 64)])
    ses.img(1, w, h, b, pixels(r, w, h, b), palette(r, b) if b < 24 else None)
    if sid == 1:
        ses.img(2, 60, 50, 4, [0] * 3000)
        i = [[10, 40], [8, 8], [50, 5], [0, 0], [1, 1]]
        ses.do('XYaxis', *i[:3], [[0, 0]] * 2, [[2, 0]] * 2, 1, 2, 1, 3, 14, charts(font()), s=2, x={'raw': repr(i + [1, 2, True, 3])}, kf='SPAN4')
    for j in range(4):
        n = NAMES[(4 * sid + j) % len(NAMES)] if r.random() < 0.8 else r.choice(NAMES)
        if n == 'XYaxis':
            axis(ses, r)
        elif n == 'numbervert':
            numbers(ses, r)
        elif n == 'XYscatterplot':
            scatter(ses, r)
        else:
            other(ses, r, n)


PROPS = [Prop('C25', c25, quick=660, thorough=5000, chunk=40,
    assumptions=['values of number lines are multiples of one half', 'regression lines that meet the chart'])]
