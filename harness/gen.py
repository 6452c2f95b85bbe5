"""Shared pieces of the session generators."""
import os
import random
from core import stdpal

BITS = (1, 4, 8, 24)
BIGP = float(os.environ.get('VERIF_BIG', 0.008))      # share of big bitmaps


AGAIN = [0xfa0101, 0x10f020, 0x2030e0, 0xc0c010, 0x801070, 0x0e9090, 0x444444, 0xb0b0b4, 0xd06020, 0x207050]


def dim(r, big=0.06, cap=40):
    """a width or height: every residue class, small sizes often, word boundaries, some above 255"""
    k = r.random()
    if k < 0.55:
        return r.randint(1, 17)
    if k < 1 - big:
        return r.randint(9, cap)
    return r.choice([63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300])


def dims(r, big=0.06, cap=40, maxpx=1800, huge=True):
    if huge and maxpx >= 300 and r.random() < BIGP:
        return r.randint(100, 220), r.randint(80, 140)
    while True:
        w, h = dim(r, big, cap), dim(r, big, cap)
        if w * h <= maxpx:
            return w, h
        if w > 60 and h > 8:
            return w, r.randint(1, max(1, maxpx // w))
        if h > 60 and w > 8:
            return r.randint(1, max(1, maxpx // h)), h


def color(r, bits):
    if bits == 24:
        k = r.random()
        if k < 0.25:
            return r.choice([0, 0xffffff, 0xff, 0xff00, 0xff0000, 0x010203, 0x800000, 0x7f8081])
        if k < 0.45:        # colours that come again and again, with other palettes
            return r.choice(AGAIN)
        return r.randrange(1 << 24)
    if r.random() < 0.3:
        return r.choice([0, (1 << bits) - 1])
    return r.randrange(1 << bits)


def palette(r, bits):
    n = 1 << bits
    k = r.random()
    if k < 0.1 and bits > 1:
        # the standard colours in another order, the first and the last in their places
        p = list(stdpal(bits))
        q = p[1:-1]
        r.shuffle(q)
        return p[:1] + q + p[-1:]
    if k < 0.45:
        return list(stdpal(bits))
    if k < 0.75:
        return [r.randrange(1 << 24) for _ in range(n)]
    if k < 0.9:
        return [(v << 16) | (v << 8) | v for v in [i * 255 // (n - 1) for i in range(n)]]
    few = [r.randrange(1 << 24) for _ in range(3)] + [0]
    return [r.choice(few) for _ in range(n)]


def pixels(r, w, h, bits):
    k = r.random()
    if k < 0.35:
        few = [color(r, bits) for _ in range(r.choice([1, 2, 3, 4]))]
        return [r.choice(few) for _ in range(w * h)]
    if k < 0.45:
        # the position is recognisable in the pixel
        if bits == 24:
            return [(x & 255) << 16 | (y & 255) << 8 | ((x * 7 + y * 13) & 255) for y in range(h) for x in range(w)]
        return [(x + 3 * y) % (1 << bits) for y in range(h) for x in range(w)]
    if k < 0.5:
        return [0] * (w * h)
    if bits == 24 and k < 0.62:
        # channels close together near the ends, or about one level
        m = r.choice([0, 0, 255, r.randrange(256)])
        ch = lambda: min(255, max(0, m + r.randint(-3, 3)))
        return [ch() << 16 | ch() << 8 | ch() for _ in range(w * h)]
    return [color(r, bits) for _ in range(w * h)]


def image(ses, r, k=1, bits=None, wh=None, **kw):
    bits = bits or r.choice(BITS)
    w, h = wh or dims(r, **kw)
    ses.img(k, w, h, bits, pixels(r, w, h, bits), palette(r, bits) if bits < 24 else None)
    return w, h, bits


def coord(r, n, out=0.25, far=40):
    """a coordinate on an axis of n pixels: inside, at the ends, or outside of it"""
    k = r.random()
    if k < 0.2:
        return r.choice([0, n - 1])
    if k > 1 - out:
        return r.choice([-1, n, -2, n + 1, -r.randint(1, far), n - 1 + r.randint(1, far)])
    return r.randrange(n)


def pt(r, w, h, out=0.25, far=40):
    return [coord(r, w, out, far), coord(r, h, out, far)]


def rect(r, w, h, out=0.08):
    """corner points of a region, in any order; mostly inside"""
    k = r.random()
    if k < 0.15:
        x1, x2, y1, y2 = 0, w - 1, 0, h - 1
    else:
        x1, x2 = r.randrange(w), r.randrange(w)
        y1, y2 = r.randrange(h), r.randrange(h)
        if k < 0.3:
            x2 = x1
        elif k < 0.4:
            y2 = y1
    if r.random() < 0.75:
        x1, x2 = min(x1, x2), max(x1, x2)
        y1, y2 = min(y1, y2), max(y1, y2)
    v = [x1, y1, x2, y2]
    if r.random() < out:
        i = r.randrange(4)
        v[i] = r.choice([-1, -r.randint(1, 20), (w, h)[i % 2], (w, h)[i % 2] + r.randint(0, 20)])
    return v


def circ(r, w, h, out=0.08, minr=0):
    """a circle that is mostly inside"""
    m = (min(w, h) - 1) // 2
    if m < minr or r.random() < out:
        return [coord(r, w), coord(r, h), r.randint(minr, max(minr, m + 3))]
    rad = m if r.random() < 0.2 else r.randint(minr, m)
    x = r.choice([rad, w - 1 - rad]) if r.random() < 0.3 else r.randint(rad, w - 1 - rad)
    y = r.choice([rad, h - 1 - rad]) if r.random() < 0.3 else r.randint(rad, h - 1 - rad)
    return [x, y, rad]
