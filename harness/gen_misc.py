"""Sessions of edges, colour regions, comparisons, erased lines, outlines."""
import math
from prop import Prop
from gen import *
from box import models
from gen_color import fl
from gen_draw import mixed, kf
from gen_pal import rgb, simple, reg, core_encode, near
import ops
from ops import B, CALLS

simple('getimagedgevert', lambda b, t: B().getimagedgevert(b, fl(t)))
simple('plotimgedges', lambda b, t, *a: B().plotimgedges(b, fl(t), *a))
simple('getimageregionbyRGB', lambda b, c, t: B().getimageregionbyRGB(b, c, fl(t)))


@reg('imgregionbyRGB2file')
def _region(ses, ev):
    a = ev['a']
    B().imgregionbyRGB2file(ses.path(ev['s']), ses.path(ev['d']), a[0], a[1], a[2], fl(a[3]), bool(a[4]))


@reg('autocropimg2file')
def _auto(ses, ev):
    B().autocropimg2file(ses.path(ev['s']), ses.path(ev['d']), fl(ev['a'][0]))


for _n in ('cropBMPandsave', 'cropBMPandsaveusingrectbnd'):
    CALLS[_n] = lambda ses, ev: getattr(B(), ev['op'])(ses.path(ev['s']), ses.path(ev['d']), *ops.copy.deepcopy(ev['a']))
for _n in ('imagediff', 'showsimilarparts'):
    CALLS[_n] = lambda ses, ev: getattr(B(), ev['op'])(ses.path(ev['s']), ses.path(ev['s2']), ses.path(ev['d']))


@reg('pastecircfrom')
def _pcirc(ses, ev):
    a = ev['a']
    b = B().copycircregion2buf(ses.mem[ev['s2']], *a[:3])
    return B().pastecirularbuf(ses.mem[ev['s']], a[3], a[4], b)


def blob(r, w, h, bits):
    """a few figures on a plain ground"""
    g = color(r, bits)
    px = [g] * (w * h)
    for _ in range(r.randint(1, 3)):
        x1, x2 = sorted((r.randrange(w), r.randrange(w)))
        y1, y2 = sorted((r.randrange(h), r.randrange(h)))
        c = color(r, bits)
        for y in range(y1, y2 + 1):
            for x in range(x1, x2 + 1):
                px[y * w + x] = c
    return px


def edgy(px, w, h, pal, t):
    f = (lambda v: rgb(pal[v])) if pal else rgb
    P = [f(v) for v in px]
    for y in range(h):
        for x in range(w):
            for u, v in ((x + 1, y), (x, y + 1), (x + 1, y + 1), (x - 1, y + 1)):
                if 0 <= u < w and v < h and sum((p - q) ** 2 for p, q in zip(P[y * w + x], P[v * w + u])) * t[1] ** 2 > t[0] ** 2:
                    return True
    return False


def cols(ses, k):
    d = ses.dec[k]
    return [rgb(d['pal'][v]) if d['pal'] else rgb(v) for v in r_some(ses.rng, d['px'])]


def r_some(r, px):
    return [r.choice(px) for _ in range(3)]


def thr(r, c=None, u=None):
    if c and r.random() < 0.45:
        # at, or next to, a distance that occurs
        q = sum((a - b) ** 2 for a, b in zip(u or c[0], r.choice(c)))
        f = math.isqrt(q)
        return r.choice([[f, 1], [f + 1, 1], [2 * f + 1, 2], [4 * f + 1, 4], [max(0, 2 * f - 1), 2]])
    return r.choice([[0, 1], [1, 1], [5, 1], [21, 2], [100, 1], [441, 1], [r.randint(0, 300), 1]])


def put(ses, r, k, b=None, px=None, wh=None, maxpx=260):
    b = b or r.choice(BITS)
    w, h = wh or dims(r, maxpx=maxpx)
    px = px or (blob(r, w, h, b) if r.random() < 0.6 else pixels(r, w, h, b))
    pal = palette(r, b) if b < 24 else None
    ses.img(k, w, h, b, px, pal)
    return w, h, b, px, pal


FIND = ['getimagedgevert', 'getimagedgevert', 'plotimgedges', 'getimageregionbyRGB', 'getimageregionbyRGB', 'imgregionbyRGB2file', 'autocropimg2file', 'autocropimg2file',
        'imagediff', 'imagediff', 'showsimilarparts', 'cropBMPandsave', 'cropBMPandsaveusingrectbnd', 'pastecircfrom', 'pastecircfrom', 'put']


def find_session(ses, sid, tier, ops=FIND):
    r = ses.rng
    b0 = BITS[sid % 4]
    for k in (1, 2, 9, 10):
        put(ses, r, k, b0)
    for _ in range(9):
        if ses.dead:
            return
        op = r.choice(ops)
        k = r.choice([1, 2])
        w, h = ses.wh(k)
        b = ses.bits(k)
        d = r.choice([9, 10, 11, 11])
        f = r.choice([9, 10]) if r.random() < 0.95 else 12
        if op == 'put':
            put(ses, r, r.choice([1, 2, 9, 10]), b0)
        elif op == 'getimagedgevert':
            ses.do(op, thr(r, cols(ses, k)), s=k)
        elif op == 'plotimgedges':
            ses.do(op, thr(r, cols(ses, k)), r.choice([1, 1, 2, 3, 4, 6]), color(r, b), s=k, kf=kf(b))
            put(ses, r, k, b0)
        elif op == 'getimageregionbyRGB':
            pal = ses.dec[k]['pal'] or [c for c in ses.dec[k]['px'][:9]] if b == 24 else palette(r, b)
            u = rgb(near(r, pal))
            ses.do(op, u, thr(r, cols(ses, k), u) if r.random() < 0.6 else [r.choice([0, 1, 3, 50, 200, 442]), 1], s=k)
        elif op == 'imgregionbyRGB2file':
            b = ses.bits(f) if f < 12 else 8
            c = rgb(color(r, 24)) if f == 12 or b < 24 else rgb(r.choice(ses.dec[f]['px']))
            ses.do(op, r.choice([1, 1, 2, 3, 4, 5, 8]), color(r, b), c, thr(r, cols(ses, f), c) if f < 12 and r.random() < 0.5 else [r.choice([1, 3, 50, 200, 442]), 1], r.randint(0, 1), s=f, d=d, kf=kf(b))
        elif op == 'autocropimg2file':
            if f == 12:
                ses.do(op, [5, 1], s=f, d=d)
                continue
            w, h, b, px, pal = put(ses, r, f, b0)
            t = thr(r, cols(ses, f))
            if edgy(px, w, h, pal, t):
                ses.do(op, t, s=f, d=d)
        elif op in ('imagediff', 'showsimilarparts'):
            f2 = 19 - f if f < 12 else 9
            if r.random() < 0.75 and f < 12:
                w, h = ses.wh(f)
                b = ses.bits(f)
                px = list(ses.dec[f]['px'])
                for _ in range(r.choice([0, 1, 3])):
                    px[r.randrange(w * h)] = color(r, b)
                if r.random() < 0.5:
                    px = None
                put(ses, r, f2, b, px, (w, h))
            elif r.random() < 0.2:
                f2 = 13
            ses.do(op, s=f, s2=f2, d=d)
        elif op == 'cropBMPandsave':
            if f == 12:
                ses.do(op, 0, 0, 1, 1, s=f, d=d)
            else:
                ses.do(op, *rect(r, *ses.wh(f)), s=f, d=r.choice([d, d, f]))
        elif op == 'cropBMPandsaveusingrectbnd':
            v = rect(r, *ses.wh(9))
            ses.do(op, [v[:2], [v[2] - 1, v[3] - 1]], s=9, d=r.choice([d, d, 9]))
        else:
            v = circ(r, w, h, 0.06)
            j = r.choice([k, 3 - k, 3 - k, 3 - k])
            w, h = ses.wh(j)
            if r.random() < 0.1:
                put(ses, r, j)
            q = circ(r, *ses.wh(j), 0.06)[:2]
            w, h = ses.wh(j)
            if r.random() < 0.8:
                q = [r.randint(min(v[2], w - 1), max(v[2], w - 1 - v[2])), r.randint(min(v[2], h - 1), max(v[2], h - 1 - v[2]))]
            ses.do(op, *v, *q, s=j, s2=k)


def erase_step(ses, r, k):
    w, h = ses.wh(k)
    op = r.choice(['erasealternatehorizontallines', 'eraseeverynthhorizontalline', 'erasealternatehorizontallinesinregion',
                   'eraseeverynthhorilineinregion', 'erasealternatehorizontallinesincircregion', 'erasealternatehorizontallinesincircregion',
                   'eraseeverynthhorizontallineinccircregion', 'outline', 'outlineregion', 'outlineregion', 'image'])
    n = r.randint(1, 5)
    x = [n, r.randint(0, n - 1) if r.random() < 0.9 else n, r.choice([0, 255, 0xaa, r.randrange(256), r.randrange(-300, 900)])]
    v = []
    if 'circ' in op:
        v = circ(r, w, h)
    elif 'region' in op:
        v = rect(r, w, h)
    if op == 'image':
        image(ses, r, k)
    elif op.startswith('outline'):
        ses.do(op, *v, s=k)
    elif 'nth' in op:
        ses.do(op, *v, n, s=k)
    else:
        ses.do(op, *v, *x, s=k)


PROPS = [
    Prop('C20', find_session, quick=880, thorough=9000,
         mcs=models('C20', 'MCColor', 'f1 f24'.split(), 'f4 f8'.split())),
    Prop('C21', mixed(erase_step, 12, 2), quick=1760, thorough=10000,
         mcs=models('C21', 'MCColor', 'a1 a4 a8 a24'.split(), 'b1 b4 b8 b24'.split())),
]
