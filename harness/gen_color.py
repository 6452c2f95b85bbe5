"""Sessions of colour adjustments and gradients."""
from prop import Prop
from gen import *
from box import models
from gen_draw import mixed, vlist, kf
import ops
from ops import B, CALLS


def fl(q):
    """rational [n, d] as the number handed to the library"""
    return q[0] if q[1] == 1 else q[0] / q[1]


def conv(name, pos):
    """arguments at the given positions are rationals or lists of rationals"""
    def f(ses, ev):
        a = ops.copy.deepcopy(ev['a'])
        for i in pos:
            if i < len(a) and a[i] and isinstance(a[i][0], list):
                a[i] = [fl(q) for q in a[i]]
            elif i < len(a):
                a[i] = fl(a[i])
        return getattr(B(), name)(ses.mem[ev['s']], *a)
    CALLS[name] = f


RATPOS = (('colorfilterto24bitregion', 4), ('colorfilterto24bitimage', 0), ('colorfiltercircregion', 3),
             ('brightnesseadjto24bitregion', 4), ('brightnesseadjto24bitimage', 0), ('brightnessadjcircregion', 3),
             ('gammaadjto24bitregion', 4), ('gammaadjto24bitimage', 0), ('gammacorrectcircregion', 3),
             ('filledgradrect', 5), ('fillbackgroundwithgrad', 1), ('gradthickroundline', 4), ('gradthickcircle', 5),
             ('thickencirclearea', 3), ('gradcircle', 4), ('orb', 3), ('gradellipse', 5), ('gradthickplotpoly', 3),
             ('gradplotlines', 3), ('gradvert', 3))
for n, p in RATPOS:
    conv(n, [p])
RATPOS = dict(RATPOS)


def _sphere(ses, ev):
    a = ops.copy.deepcopy(ev['a'])
    if len(a[3]) == 3:
        a[3] = [fl(q) for q in a[3]]
    return B().sphere(ses.mem[ev['s']], *a)


CALLS['sphere'] = _sphere


def factor(r, top=1):
    d = r.choice([1, 2, 4, 3, 5, 10, 7, 100])
    return [r.randint(0, d * top), d]


def factors(r, top=1):
    k = r.random()
    if k < 0.15:
        return [[1, 1], [1, 1], [1, 1]]
    if k < 0.3:
        v = [[1, 1], [0, 1], [0, 1]]
        r.shuffle(v)
        return v
    return [factor(r, top) for _ in range(3)]


def lums(r):
    k = r.random()
    if k < 0.3:
        return r.choice([[255, 0], [0, 255], [192, 64], [255, 128], [0, 128]])
    return [r.randint(0, 255), r.randint(0, 255)]


def pct(r):
    k = r.random()
    if k < 0.3:
        return [r.choice([0, 25, 50, 100, -25, -50, -100, 75, 300]), 1]
    if k < 0.8:
        return [r.randint(-130, 250), 1]
    return [r.randint(-400, 900), r.choice([2, 3, 10])]


GAMMA = [[1, 1], [2, 1], [3, 1], [1, 2]]


def param(r, kind):
    if kind == 1:
        return []
    if kind == 2:
        return [factors(r, r.choice([1, 1, 3]))]
    if kind == 3:
        return [pct(r)]
    if kind == 4:
        if r.random() < 0.3:
            m = r.choice([0, 0, 1, 2, 128, 254, 255])
            return [[m, min(255, max(0, m + r.choice([0, 0, 1, -1])))]]
        return [[r.randint(0, 255), r.randint(0, 255)] if r.random() < 0.9 else [r.randint(-300, 600), r.randint(-300, 600)]]
    return [r.choice(GAMMA)]


REG = ['monofilterto24bitregion', 'colorfilterto24bitregion', 'brightnesseadjto24bitregion', 'thresholdadjto24bitregion', 'gammaadjto24bitregion']
WHOLE = ['monofilterto24bitimage', 'colorfilterto24bitimage', 'brightnesseadjto24bitimage', 'thresholdadjto24bitimage', 'gammaadjto24bitimage']
CIRC = ['monocircle', 'colorfiltercircregion', 'brightnessadjcircregion', 'thresholdadjcircregion', 'gammacorrectcircregion']


def adjust_step(ses, r, k):
    w, h = ses.wh(k)
    j = r.randint(1, 5)
    where = r.choice('rrrwccc')
    K = dict(s=k, kf='CFLAST' if j == 2 else '')
    if where == 'r':
        ses.do(REG[j - 1], *rect(r, w, h), *param(r, j), **K)
    elif where == 'w':
        ses.do(WHOLE[j - 1], *param(r, j), **K)
    else:
        v = circ(r, w, h, 0.15)
        if r.random() < 0.3:
            v = [*pt(r, w, h, 0.5, 12), r.randint(0, 12)]
        ses.do(CIRC[j - 1], *v, *param(r, j), **K)
    if r.random() < 0.35:       # repeated adjustments wash the picture out
        image(ses, r, k, bits=24 if r.random() < 0.85 else None)


def glum(r):
    k = r.random()
    if k < 0.3:
        return r.choice([[-100, 0], [0, -100], [0, 100], [-50, 50], [25, 25]])
    return [r.randint(-120, 220), r.randint(-120, 220)]


def brgrad_step(ses, r, k):
    w, h = ses.wh(k)
    op = r.choice(['verticalbrightnessgradto24bitregion', 'horizontalbrightnessgradto24bitregion'] * 3 +
                  ['verticalbrightnessgradto24bitimage', 'horizontalbrightnessgradto24bitimage'] +
                  ['vertbrightnessgrad2circregion', 'horibrightnessgrad2circregion'] * 2)
    K = dict(s=k, kf='HGTOP' if op.startswith('horizontal') else '')
    if op.endswith('image'):
        ses.do(op, glum(r), **K)
    elif 'circ' in op:
        v = circ(r, w, h, 0.08, 1)
        v[2] = max(v[2], 1)
        ses.do(op, *v, glum(r), **K)
    else:
        ses.do(op, *rect(r, w, h), glum(r), **K)
    if r.random() < 0.35:
        image(ses, r, k, bits=24 if r.random() < 0.9 else None)


def grad_step(ses, r, k):
    if ses.bits(k) == 24 and r.random() < 0.5:
        return brgrad_step(ses, r, k)
    w, h = ses.wh(k)
    b = ses.bits(k)
    op = 'thickencirclearea' if r.random() < 0.01 else r.choice(['filledgradrect'] * 3 + ['fillbackgroundwithgrad', 'filleddichromaticgradrect', 'filleddichromaticgradrect',
                   'fillbackgroundwithdichromaticgrad', 'gradthickroundline', 'gradthickcircle', 'gradcircle',
                   'graddichromiccircle', 'sphere', 'sphere', 'orb', 'gradellipse', 'gradthickplotpoly', 'gradplotlines', 'gradvert'])
    c = lambda: color(r, 24)
    K = dict(s=k, kf=kf(b))
    dirn = r.randint(0, 1)
    x, y, rad = circ(r, w, h, 0.05, 1) if r.random() < 0.6 else [*pt(r, w, h, 0.3, 8), r.randint(1, 8)]
    rad = max(1, min(rad, 10))
    if op == 'filledgradrect':
        v = rect(r, w, h)
        ses.do(op, *v, lums(r), factors(r), dirn, s=k, kf='GRADABS')
    elif op == 'fillbackgroundwithgrad':
        ses.do(op, lums(r), factors(r), dirn, s=k)
    elif op == 'filleddichromaticgradrect':
        ses.do(op, *rect(r, w, h), c(), c(), dirn, s=k, kf='GRADABS')
    elif op == 'fillbackgroundwithdichromaticgrad':
        ses.do(op, lums(r), c(), c(), dirn, s=k)
    elif op == 'gradthickroundline':
        ses.do(op, pt(r, w, h, 0.1, 6), pt(r, w, h, 0.1, 6), r.randint(1, 5), lums(r), factors(r), **K)
    elif op == 'gradthickcircle':
        ses.do(op, x, y, rad, r.randint(1, 5), lums(r), factors(r), **K)
    elif op == 'thickencirclearea':
        ses.do(op, x, y, min(rad, 4), factors(r), **K)
    elif op == 'gradcircle':
        ses.do(op, x, y, rad, lums(r), factors(r), **K)
    elif op == 'graddichromiccircle':
        ses.do(op, x, y, rad, c(), c(), **K)
    elif op == 'sphere':
        ses.do(op, x, y, rad, factors(r) if r.random() < 0.5 else [c(), c()], **K)
    elif op == 'orb':
        ses.do(op, x, y, max(2, rad), factors(r), **K)
    elif op == 'gradellipse':
        ses.do(op, x, y, rad, r.randint(1, 9), lums(r), factors(r), **K)
    elif op in ('gradthickplotpoly', 'gradplotlines'):
        ses.do(op, vlist(r, w, h, r.randint(2, 4), 0.05), r.randint(1, 3), lums(r), factors(r), **K)
    else:
        ses.do(op, vlist(r, w, h, r.randint(1, 4), 0.1), r.randint(1, 4), lums(r), factors(r), **K)


def adj24(step, n, **kw):
    def f(ses, sid, tier):
        r = ses.rng
        image(ses, r, 1, bits=24 if sid % 8 else None, **kw)
        for _ in range(n):
            step(ses, r, 1)
            if ses.dead:
                return
    return f


def pin(kind):
    def f(ses):
        ses.img(1, 5, 4, 24, [0x808080] * 20)
        if kind == 13:
            ses.do('colorfilterto24bitimage', [[1, 2], [1, 1], [1, 1]], kf='CFLAST')
        else:
            ses.do('horizontalbrightnessgradto24bitimage', [-50, 50], kf='HGTOP')
            ses.do('filledgradrect', 2, 1, 4, 3, [0, 255], [[1, 1], [1, 1], [1, 1]], 0, kf='GRADABS')
            ses.img(1, 9, 9, 4, [0] * 81)
            ses.do('gradcircle', 4, 4, 4, [255, 0], [[1, 1], [1, 1], [1, 1]], kf='SPAN4')
    return f


def with_pin(pin, f):
    def g(ses, sid, tier):
        pin(ses) if sid == 0 else f(ses, sid, tier)
    return g


PROPS = [
    Prop('C13', with_pin(pin(13), adj24(adjust_step, 12, maxpx=300)), quick=1400, thorough=10000,
         mcs=models('C13', 'MCColor', 'v24 a24 c24'.split(), 'w24 b24'.split())),
    Prop('C14', with_pin(pin(14), mixed(grad_step, 8, 1, maxpx=400)), chunk=32, quick=800, thorough=8000,
         mcs=models('C14', 'MCColor', 'e8 a24'.split(), 'a8 b24'.split())),
]
