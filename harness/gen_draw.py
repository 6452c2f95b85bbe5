"""Sessions of pixel access and drawing."""
import random
from prop import Prop
from box import models
from gen import *

KF4 = 'SPAN4'


def kf(bits):
    return KF4 if bits == 4 else ''


def vlist(r, w, h, n=None, out=0.2):
    return [pt(r, w, h, out) for _ in range(n or r.randint(2, 6))]


def lines_step(ses, r, k):
    w, h = ses.wh(k)
    b = ses.bits(k)
    c = color(r, b)
    K = dict(s=k, kf=kf(b))
    p, q = pt(r, w, h), pt(r, w, h)
    if r.random() < 0.25:      # short and steep or exactly diagonal lines
        n = r.randint(0, 9)
        q = r.choice([[p[0] + n, p[1] + r.choice([-n, n])], [p[0] + r.randint(-3, 3), p[1] + r.randint(-9, 9)]])
    op = r.choice(['line'] * 6 + ['horiline'] * 4 + ['vertline'] * 3 + ['linevec', 'intlinevec', 'plotlines', 'plotpoly',
                  'plotpolylist', 'rectangle', 'rectangle', 'xygrid', 'xygridvec', 'vertlinevert', 'horilinevert'])
    if op == 'line':
        ses.do(op, *p, *q, c, **K)
    elif op == 'horiline':
        ses.do(op, coord(r, h), coord(r, w), coord(r, w), c, **K)
    elif op == 'vertline':
        ses.do(op, coord(r, w), coord(r, h), coord(r, h), c, **K)
    elif op in ('linevec', 'intlinevec'):
        ses.do(op, p, q, c, **K)
    elif op == 'plotlines':
        if r.random() < 0.3:
            ses.do(op, vlist(r, w, h, r.randint(2, 3)), c, r.randint(0, 3), **K)
        else:
            ses.do(op, vlist(r, w, h), c, **K)
    elif op == 'plotpoly':
        ses.do(op, vlist(r, w, h), c, **K)
    elif op == 'plotpolylist':
        ses.do(op, [vlist(r, w, h, 3), vlist(r, w, h)], c, **K)
    elif op == 'rectangle':
        ses.do(op, *p, *q, c, **K)
    elif op == 'xygrid':
        ses.do(op, *rect(r, w, h), [r.randint(1, 6), r.randint(1, 6)], c, **K)
    elif op == 'xygridvec':
        v = rect(r, w, h)
        ses.do(op, v[:2], v[2:], [r.randint(1, 6), r.randint(1, 6)], c, **K)
    elif op == 'vertlinevert':
        ses.do(op, vlist(r, w, h), r.randint(-4, 8), r.randint(-3, 3), c, **K)
    elif op == 'horilinevert':
        ses.do(op, vlist(r, w, h), r.randint(-4, 8), r.randint(-3, 3), c, **K)


def fill_step(ses, r, k):
    w, h = ses.wh(k)
    b = ses.bits(k)
    c = color(r, b)
    K = dict(s=k, kf=kf(b))
    op = r.choice(['filledrect'] * 3 + ['filledparallelogram', 'plotpolyfill', 'plotpolyfill'])
    if op == 'filledrect':
        if b == 8:
            c = color(r, 24) if r.random() < 0.6 else r.choice(ses.dec[k]['pal'] or [0])
        ses.do(op, *rect(r, w, h), c, **K)
    elif op == 'filledparallelogram':
        ses.do(op, pt(r, w, h, 0.1, 9), pt(r, w, h, 0.1, 9), pt(r, w, h, 0.1, 9), c, **K)
    else:
        ses.do(op, vlist(r, w, h, r.randint(3, 6), 0.02), c, **K)


def circ_step(ses, r, k):
    w, h = ses.wh(k)
    b = ses.bits(k)
    c = color(r, b)
    K = dict(s=k, kf=kf(b))
    rad = r.randint(1, 6) if r.random() < 0.5 else r.randint(1, 24) if r.random() < 0.9 else r.randint(20, 70)
    if r.random() < 0.5:
        x, y, rad = circ(r, w, h, 0.02, 1)
    else:
        x, y = pt(r, w, h, 0.3, 12)
    op = r.choice(['circle'] * 4 + ['filledcircle'] * 4 + ['circlevec', 'thickcircle', 'roundpen', 'plotxypointlist', 'thickroundline', 'thickplotpoly', 'plotlines'])
    if op == 'circle':
        f = r.choice([None, 0, 1])
        ses.do(op, x, y, rad, c, *([] if f is None else [f]), **K)
    elif op == 'filledcircle':
        ses.do(op, x, y, rad, c, **K)
    elif op == 'circlevec':
        f = r.choice([None, 0, 1])
        ses.do(op, [x, y], rad, c, *([] if f is None else [f]), **K)
    elif op == 'thickcircle':
        ses.do(op, x, y, min(rad, 12), r.randint(1, 4), c, **K)
    elif op == 'roundpen':
        ses.do(op, [x, y], r.randint(0, 6), c, **K)
    elif op == 'plotxypointlist':
        ses.do(op, vlist(r, w, h), r.randint(0, 4), c, **K)
    elif op == 'thickroundline':
        ses.do(op, pt(r, w, h, 0.1, 6), pt(r, w, h, 0.1, 6), r.randint(1, 4), c, **K)
    elif op == 'thickplotpoly':
        ses.do(op, vlist(r, w, h, r.randint(2, 4), 0.05), r.randint(1, 3), c, **K)
    else:
        ses.do(op, vlist(r, w, h, r.randint(2, 3), 0.05), c, r.randint(2, 4), **K)


def ell_step(ses, r, k):
    w, h = ses.wh(k)
    b = ses.bits(k)
    c = color(r, b)
    K = dict(s=k, kf=kf(b))
    va, hb = (r.randint(1, 8), r.randint(1, 8)) if r.random() < 0.5 else (r.randint(1, 30), r.randint(1, 30))
    if r.random() < 0.5 and w > 2 and h > 2:
        hb, va = r.randint(1, (w - 1) // 2), r.randint(1, (h - 1) // 2)
        x, y = r.randint(hb, w - 1 - hb), r.randint(va, h - 1 - va)
    else:
        x, y = pt(r, w, h, 0.3, 12)
    if r.random() < 0.4:
        ses.do('filledellipse', x, y, va, hb, c, **K)
    else:
        f = r.choice([None, 0, 1])
        ses.do('ellipse', x, y, va, hb, c, *([] if f is None else [f]), **K)


def pixel_step(ses, r, k):
    w, h = ses.wh(k)
    b = ses.bits(k)
    p = pt(r, w, h)
    c = color(r, b)
    if b < 24 and r.random() < 0.2:
        c = r.randrange(1 << (b + 2))
    op = r.choice(['plotxybit'] * 5 + ['getxybit'] * 3 + ['getRGBxybit'] * 3 + ['plotRGBxybit'] * 2 + ['intplotvecxypoint', 'getxybitvec',
                  'getRGBxybitvec', 'plotRGBxybitvec', 'swapcolors', 'swapcolors', 'isinBMPrectbnd', 'listinBMPrecbnd',
                  'getmaxx', 'getmaxy', 'getmaxxy', 'getmaxcolors', 'bottomrightcoord', 'centercoord', 'getmaxxyandbits', 'roundpen'])
    if op == 'plotxybit':
        ses.do(op, *p, c, s=k)
    elif op in ('getxybit', 'getRGBxybit', 'isinBMPrectbnd'):
        ses.do(op, *p, s=k)
    elif op in ('getxybitvec', 'getRGBxybitvec'):
        ses.do(op, p, s=k)
    elif op in ('plotRGBxybit', 'plotRGBxybitvec'):
        rgb = color(r, 24) if r.random() < 0.6 or b == 24 else r.choice(ses.dec[k]['pal'])
        v = [rgb >> 16, rgb >> 8 & 255, rgb & 255]
        ses.do(op, *([*p, v] if op == 'plotRGBxybit' else [p, v]), s=k)
    elif op == 'intplotvecxypoint':
        ses.do(op, p, c, s=k)
    elif op == 'swapcolors':
        ses.do(op, pt(r, w, h, 0), pt(r, w, h, 0), s=k)
    elif op == 'listinBMPrecbnd':
        ses.do(op, vlist(r, w, h, r.randint(0, 4) or None, 0.1), s=k)
    elif op == 'roundpen':
        ses.do(op, p, r.randint(0, 1), c % (1 << b), s=k)
    else:
        ses.do(op, s=k)


def mixed(step, n=14, slots=2, **kw):
    """sessions that interleave operations on a few bitmaps of all depths"""
    def f(ses, sid, tier):
        r = ses.rng
        ks = list(range(1, 1 + r.randint(1, slots)))
        for j, k in enumerate(ks):
            image(ses, r, k, bits=BITS[(sid + j) % 4], **kw)
        for _ in range(n):
            step(ses, r, r.choice(ks))
            if ses.dead:
                return
    return f


def pinned4(ops):
    """the recorded 4-bit finding, on fixed inputs"""
    def f(ses):
        ses.img(1, 9, 9, 4, [0] * 81)
        for op, a in ops:
            ses.do(op, *a, kf=KF4)
    return f


def with_pin(pin, f):
    def g(ses, sid, tier):
        if sid == 0:
            pin(ses)
        else:
            f(ses, sid, tier)
    return g


PROPS = [
    Prop('C03', mixed(pixel_step, 30, 3), quick=2640, thorough=20000, mcs=models('C03', 'MCDraw', 'p1 p4 p8 p24'.split(), 'b1 b4 b8 b24'.split())),
    Prop('C04', with_pin(pinned4([('horiline', [2, 1, 5, 7])]), mixed(lines_step)), quick=3520, thorough=16000, mcs=models('C04', 'MCDraw', 'b1 b4 b8 b24'.split(), 'l1 l4 l8 l24'.split())),
    Prop('C05', with_pin(pinned4([('filledrect', [1, 1, 5, 5, 7])]), mixed(fill_step)), quick=1980, thorough=6000,
         mcs=models('C05', 'MCDraw', 'a1 a4 b8 b24'.split(), 'b1 b4 p8 p24'.split())),
    Prop('C06', with_pin(pinned4([('filledcircle', [4, 4, 3, 7])]), mixed(circ_step, 10)), quick=1980, thorough=6000,
         mcs=models('C06', 'MCDraw', 's1 s4 s8 s24'.split(), 't1 t4 t8 t24'.split())),
    Prop('C07', with_pin(pinned4([('filledellipse', [4, 4, 2, 3, 7])]), mixed(ell_step, 10)), quick=2640, thorough=6000,
         mcs=models('C07', 'MCDraw', 's1 s4 s8 s24'.split(), 't1 t4 t8 t24'.split())),
]
