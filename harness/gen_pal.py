"""Sessions of palettes, histograms and depth changes."""
from prop import Prop
from gen import *
from box import models
from gen_draw import mixed
from gen_color import fl, factors, pct
import ops
from ops import B, CALLS


def rgb(c):
    return [c >> 16, c >> 8 & 255, c & 255]


def facts(v):
    return [fl(q) for q in v] if v and isinstance(v[0], list) else v


def reg(name):
    def d(f):
        CALLS[name] = f
        return f
    return d


def simple(name, fn):
    CALLS[name] = lambda ses, ev: fn(ses.mem.get(ev['s']), *ops.copy.deepcopy(ev['a']))


simple('setBMP2monochrome', lambda b, f: B().setBMP2monochrome(b, facts(f)))
simple('setBMP2invshiftedmonochrome', lambda b, f, *r: B().setBMP2invshiftedmonochrome(b, facts(f), *r))
simple('RGBpalbrightnessadjust', lambda b, p: B().RGBpalbrightnessadjust(b, fl(p)))
simple('newBMPwithPAL', lambda b, x, y, n, f: B().newBMPwithPAL(x, y, n, facts(f)))
simple('makenewpalfromcolorhist', lambda b, h, n, t: B().makenewpalfromcolorhist(h, n, fl(t)))
simple('getBGRpalbuf', lambda b: B().getBGRpalbuf(b))
simple('iterimageRGB', lambda b: [[list(p), list(c)] for p, c in B().iterimageRGB(b, '', '', '')])
simple('iterimagecolor', lambda b: [[list(p), c] for p, c in B().iterimagecolor(b, '', '', '')])
simple('itergetcolorfromrectregion', lambda b, *a: ops.listof(B().itergetcolorfromrectregion(b, *a)))


def pack(v):
    return (v[0] << 16) + (v[1] << 8) + v[2]


simple('getneighborcolorlist', lambda b, v: sorted(pack(c) for c in B().getneighborcolorlist(b, v)))


@reg('itercolorcycle')
def _cycle(ses, ev):
    it = B().itercolorcycle(ses.mem[ev['s']])
    return None if it is None else [[pack(B().getRGBpal(b, i)) for i in range(B().getmaxcolors(b))] for b in it]


@reg('copyRGBpal')
def _copypal(ses, ev):
    B().copyRGBpal(ses.mem[ev['s']], ses.mem[ev['d']])


@reg('setBMPimgbytes')
def _setimg(ses, ev):
    B().setBMPimgbytes(ses.mem[ev['d']], B().getBMPimgbytes(ses.mem[ev['s']]))


@reg('setnewpalfromsourcebmp')
def _newpal(ses, ev):
    return B().setnewpalfromsourcebmp(ses.mem[ev['s']], ses.mem[ev['d']], fl(ev['a'][0]))


@reg('adjustcolordicttopal')
def _dict(ses, ev):
    d = {'c%d' % i: v for i, v in enumerate(ev['a'][0])}
    B().adjustcolordicttopal(ses.mem[ev['s']], d)
    return [d['c%d' % i] for i in range(len(d))]


@reg('reduce24bitimagebits')
def _reduce(ses, ev):
    a = ev['a']
    B().reduce24bitimagebits(ses.path(ev['s']), ses.path(ev['d']), a[0], fl(a[1]), bool(a[2]), facts(a[3]))


def near(r, pal):
    """a colour at or near an entry, or anywhere"""
    k = r.random()
    c = r.choice(pal)
    if k < 0.3:
        return c
    if k < 0.6:
        return pack([min(255, max(0, v + r.randint(-2, 2))) for v in rgb(c)])
    return r.choice(AGAIN) if k < 0.85 else r.randrange(1 << 24)


def pal_session(ses, sid, tier):
    r = ses.rng
    b = (1, 4, 8, 4)[sid % 4]
    for k in (1, 2):
        image(ses, r, k, bits=b, maxpx=150)
    image(ses, r, 3, bits=24, maxpx=200)
    for _ in range(10):
        if ses.dead:
            return
        k = r.choice([1, 2])
        n = 1 << b
        pal = ses.dec[k]['pal']
        if not pal:
            pal = [pack(ses.mem[k][54 + 4 * i:57 + 4 * i].tolist()[::-1]) for i in range(n)]
        op = r.choice(['getRGBpal', 'setRGBpal', 'setRGBpal', 'setbmppal', 'setbmppalwithBGRlist', 'setbmppalwithBGRAlist', 'palshift', 'palshift',
                       'itercolorcycle', 'copyRGBpal', 'setBMP2monochrome', 'setBMP2invshiftedmonochrome', 'setBMP2dichromaticpal',
                       'RGBpalbrightnessadjust', 'newBMPwithPAL', 'setnewpalfromsourcebmp', 'makenewpalfromcolorhist',
                       'adjustcolordicttopal', 'getBGRpalbuf', 'isdefaultpal', 'getallRGBpal', 'poke', 'plotRGBxybit'])
        if op in ('isdefaultpal', 'getallRGBpal', 'getBGRpalbuf'):
            ses.do(op, s=k)
        elif op == 'poke':
            image(ses, r, k, bits=b, maxpx=150)
        elif op == 'plotRGBxybit':
            w, h = ses.wh(k)
            ses.do(op, r.randrange(w), r.randrange(h), rgb(near(r, pal)), s=k)
        elif op == 'getRGBpal':
            ses.do(op, r.randrange(n), s=k)
        elif op == 'setRGBpal':
            ses.do(op, r.randrange(n), *rgb(color(r, 24)), s=k)
        elif op.startswith('setbmppal'):
            m = n if r.random() < 0.85 else r.choice([n - 1, n + 1, 0, 2, 16, 256])
            p = [rgb(color(r, 24)) for _ in range(m)]
            if 'BGRA' in op:
                p = [v + [0] for v in p]
            ses.do(op, p, s=k)
        elif op == 'palshift':
            ses.do(op, r.choice([1, 1, -1, 2, n - 1, n, n + 1, r.randint(-3 * n, 3 * n)]), s=k if r.random() < 0.95 else 3)
        elif op == 'itercolorcycle':
            if b == 4 or r.random() < 0.05:
                ses.do(op, s=k)
        elif op == 'copyRGBpal':
            ses.do(op, s=k, d=3 - k)
        elif op == 'setBMP2monochrome':
            ses.do(op, factors(r), s=k)
        elif op == 'setBMP2invshiftedmonochrome':
            ses.do(op, factors(r), r.choice([1, 20, r.randint(0, 300)]), r.randint(0, 255), s=k)
        elif op == 'setBMP2dichromaticpal':
            ses.do(op, color(r, 24), color(r, 24), s=k)
        elif op == 'RGBpalbrightnessadjust':
            ses.do(op, pct(r), s=k)
        elif op == 'newBMPwithPAL':
            f = factors(r) if r.random() < 0.5 else [color(r, 24), color(r, 24)]
            ses.do(op, r.randint(1, 20), r.randint(1, 9), r.choice(BITS), f, s=k, d=4)
        elif op == 'setnewpalfromsourcebmp':
            image(ses, r, 3, bits=24, maxpx=200)
            ses.do(op, [r.choice([0, 1, 20, 60, 150]), r.choice([1, 1, 2])], s=3, d=k)
        elif op == 'makenewpalfromcolorhist':
            hst = sorted(([r.randint(1, 9), near(r, pal)] for _ in range(r.randint(0, 20))), reverse=True)
            ses.do(op, hst, r.choice([2, 16, 256]), [r.choice([0, 1, 3, 20, 100]), r.choice([1, 2])], s=k)
        elif op == 'adjustcolordicttopal':
            ses.do(op, [near(r, pal) for _ in range(r.randint(0, 4))], s=k if r.random() < 0.9 else 3)


DEPTH = ['upgradeto24bitimage'] * 3 + ['colorhistogram', 'colorhistogram', 'iterimageRGB', 'iterimagecolor', 'getneighborcolorlist',
         'getneighborcolorlist', 'itergetcolorfromrectregion', 'reduce24bitimagebits', 'reduce24bitimagebits', 'setBMPimgbytes', 'image', 'image']


def depth_session(ses, sid, tier, ops=DEPTH):
    r = ses.rng
    image(ses, r, 1, bits=BITS[sid % 4], maxpx=500, huge=False)
    for _ in range(6):
        if ses.dead:
            return
        w, h = ses.wh(1)
        b = ses.bits(1)
        op = r.choice(ops)
        if op == 'upgradeto24bitimage':
            ses.do(op, s=1, d=1 if b == 24 else r.choice([1, 2]))
        elif op == 'getneighborcolorlist':
            x, y = coord(r, w, 0), coord(r, h, 0)
            ses.do(op, [x, y], s=1)
        elif op == 'itergetcolorfromrectregion':
            ses.do(op, *rect(r, w, h), s=1)
        elif op == 'reduce24bitimagebits':
            wh = dims(r, maxpx=220)
            b2 = 24 if r.random() < 0.93 else r.choice(BITS)
            px = pixels(r, *wh, b2)
            ses.poke(9, core_encode(*wh, b2, px))
            mono = r.random() < 0.4
            n = r.choice([4, 4, 8])
            ses.do(op, n, [r.choice([0, 1, 30, 90]), 1], int(mono), factors(r) if mono else [], s=r.choice([9] * 9 + [12]), d=r.choice([10, 11]))
        elif op == 'setBMPimgbytes':
            image(ses, r, 3, bits=b, wh=(w, h))
            ses.do(op, s=1, d=3)
        elif op == 'image':
            image(ses, r, 1, maxpx=500, huge=False)
        else:
            ses.do(op, s=1)


def core_encode(w, h, b, px):
    from bmpio import encode
    return encode(w, h, b, px, list(stdpal(b)) if b < 24 else None)


PROPS = [
    Prop('C15', pal_session, quick=1540, thorough=10000,
         mcs=models('C15', 'MCColor', 'p1 p4'.split(), 'p8'.split())),
    Prop('C16', depth_session, quick=1540, thorough=10000,
         mcs=models('C16', 'MCColor', 'f1 f4'.split(), 'f8 f24'.split())),
]
