"""Sessions of the colour functions."""
import random
from array import array
from prop import Prop
from gen import *
from gen_frac import dbl
from gen_math import near, num, out
from ops import CALLS

LUM = ['maxdesc', 'maxasc', 'middesc', 'midasc', 'upperdesc', 'upperasc', 'lowerdesc', 'lowerasc']
IN = ('applymonochromefiltertoBGRbuf', 'applygammaBGRbuf')
CHANGES = IN + ('monochromefiltertoBGRbuf', 'gammaBGRbuf', 'applythresholdadjtoBGRbuf')
BUF = CHANGES + ('applybrightnessadjtoBGRbuf',)


def tables(k):
    import pythonbmp.X11colordict as x, pythonbmp.XKCDcolordict as q, pythonbmp.colordict as c
    return [(x.getX11colorname2RGBdict, x.getX11colorname2HSLdict, x.getX11RGBfactors),
            (q.getXKCDcolorname2RGBdict, q.getXKCDcolorname2HSLdict, q.getXKCDRGBfactors),
            (c.getcolorname2RGBdict, c.getcolorname2HSLdict, c.getRGBfactors)][k]


SIZES = [676, 923, 34]


def call(ses, ev):
    import pythonbmp.colors as C, pythonbmp.mathlib as M
    op, a = ev['op'], eval(ev['raw'])
    if op == 'huenames':
        t = [f() for f in tables(a[0])]
        return [[[dbl(t[0][n])], out(list(t[1].get(n, ()))), out(list(t[2].get(n, ())))] for n in sorted(t[0])]
    if op == 'getdefaultlumrange':
        d = C.getdefaultlumrange()
        return [out(d.get(n, [])) for n in LUM]
    if op == 'interpolateRGB':
        return out(list(C.interpolateRGB([M.lerp, M.smoothsteplerp, M.smoothersteplerp, M.smootheststeplerp][a[0]], *a[1:])))
    if 'seed' in ev:
        random.seed(ev['seed'])
    if op in BUF:
        b = array('B', a[0])
        r = getattr(C, op)(b, *a[1:])
        if op in IN:
            return out(b.tolist())
        if op not in CHANGES and b.tolist() != a[0]:
            raise RuntimeError('arguments changed')
        return out(list(r))
    r = getattr(C, op)(*a)
    if num(a) != num(eval(ev['raw'])):
        raise RuntimeError('arguments changed')
    if isinstance(r, bool):
        return dbl(int(r))
    return out([list(v) if isinstance(v, (tuple, array)) else v for v in r] if isinstance(r, (list, tuple, array)) else r)


def byte(r):
    return r.choice([0, 255, 1, 254, 127, 128, 129, 63, 64, 192]) if r.random() < 0.3 else r.randrange(256)


def rgb3(r):
    k = r.random()
    if k < 0.1:
        return [byte(r)] * 3
    if k < 0.2:
        m = byte(r)
        return [min(255, max(0, m + r.randint(-2, 2))) for _ in range(3)]
    if k < 0.3:
        v = [byte(r), 0, 0]
        r.shuffle(v)
        return v
    return [byte(r) for _ in range(3)]


def fac(r):
    return [r.choice([0, 1, 0.5, 1.0, 0.25, r.random(), round(r.random(), 2), r.randint(0, 255) / 255]) for _ in range(3)]


def col(r):
    c = rgb3(r)
    return c[0] << 16 | c[1] << 8 | c[2]


def buf(r):
    return [v for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9])) for v in rgb3(r)]


def args(r, op):
    if op == 'huenames':
        k = r.randrange(3)
        return [k, SIZES[k]]
    if op == 'getdefaultlumrange':
        return []
    if op == 'isvalidcolorbit':
        return [r.choice([1, 4, 8, 24, 0, 2, 3, 5, 16, 32, 25, r.randint(0, 64)])]
    if op == 'getdefaultbitpal':
        return [r.choice([1, 4, 8])]
    if op in ('colormix',):
        return [r.choice([byte(r), 255, round(r.uniform(0, 255), 2)]), fac(r)]
    if op.startswith('int2'):
        return [col(r)]
    if op in ('RGB2BGRarr', 'RGB2int', 'RGB2HSL'):
        return rgb3(r)
    if op == 'RGBfactors2RGB':
        return [fac(r), byte(r)]
    if op == 'matchRGBtopal':
        b = r.choice([1, 4, 8])
        p = [[c >> 16, c >> 8 & 255, c & 255] for c in palette(r, b)]
        v = rgb3(r)
        if r.random() < 0.5:
            v = [min(255, max(0, t + r.choice([0, 0, 1, -1, 3, -4]))) for t in r.choice(p)]
        return [v, p]
    if op in ('matchRGBtodefault4bitpal', 'RGBtoRGBfactorsandlum', 'monochrome', 'probplotRGBto4bitpal'):
        return [rgb3(r)]
    if op == 'probplotRGBto1bit':
        return [rgb3(r), r.choice([1, 0, 2, 0.5])]
    if op == 'monochromepal':
        return [r.choice([1, 4, 8]), fac(r)]
    if op.startswith('mono') and op.endswith('pal'):
        return [r.choice([1, 4, 8]), fac(r), r.choice([1, 1, 2, 3, 20, 255, r.randint(0, 300)]), r.choice([0, 0, 1, 255, 256, r.randint(0, 600)])]
    if op == 'gammacorrectbyte':
        return [byte(r), gam(r)]
    if op == 'gammacorrect':
        return [rgb3(r), gam(r)]
    if op == 'brightnessadjust':
        return [rgb3(r), pctg(r)]
    if op == 'thresholdadjust':
        return [rgb3(r), [r.choice([byte(r), -5, 300]), r.choice([byte(r), -1, 256])]]
    if op == 'colorfilter':
        return [rgb3(r), [v * r.choice([1, 1, 2, -1]) for v in fac(r)]]
    if op in ('monochromefiltertoBGRbuf', 'applymonochromefiltertoBGRbuf'):
        return [buf(r)]
    if op in ('gammaBGRbuf', 'applygammaBGRbuf'):
        return [buf(r), gam(r)]
    if op == 'applybrightnessadjtoBGRbuf':
        return [buf(r), pctg(r)]
    if op == 'applythresholdadjtoBGRbuf':
        return [buf(r), [byte(r), byte(r)]]
    if op == 'RGBfactorstoBaseandRange':
        return [[byte(r), byte(r)], fac(r)]
    if op == 'dichromaticpal':
        return [col(r), col(r), r.choice([2, 16, 256, r.randint(1, 40)]), r.choice([1, 1, 2, 3, 7, r.randint(0, 30)]), r.choice([0, 0, 1, r.randint(0, 300)])]
    if op == 'interpolateRGB':
        return [r.randrange(4)] + [byte(r) for _ in range(6)] + [r.choice([0, 1, 0.5, r.random(), round(r.random(), 2)])]


def gam(r):
    return r.choice([1, 1.0, 0.5, 2, 2.2, 1 / 2.2, 0.25, round(r.uniform(0.1, 4), 2)])


def pctg(r):
    return r.choice([0, 100, -100, -50, 50, 10, -10, 255, -150, r.randint(-100, 200), round(r.uniform(-100, 200), 1)])


OPS = ['isvalidcolorbit', 'getdefaultbitpal', 'getdefaultlumrange', 'colormix', 'colormix', 'int2RGB', 'int2RGBlist', 'int2RGBarr', 'int2BGRarr', 'RGB2BGRarr',
       'RGBfactors2RGB', 'RGB2int', 'matchRGBtodefault4bitpal', 'matchRGBtodefault4bitpal', 'matchRGBtopal', 'matchRGBtopal', 'matchRGBtopal', 'RGBtoRGBfactorsandlum',
       'probplotRGBto1bit', 'probplotRGBto4bitpal', 'probplotRGBto4bitpal', 'monochromepal', 'monoshiftablepal', 'monoinverseshiftablepal',
       'monoinverseshiftableBGRpal', 'monoinverseshiftableBGRApal', 'monochrome', 'gammacorrectbyte', 'gammacorrect', 'gammacorrect', 'brightnessadjust',
       'brightnessadjust', 'thresholdadjust', 'thresholdadjust', 'colorfilter', 'RGBfactorstoBaseandRange', 'RGB2HSL', 'RGB2HSL', 'RGB2HSL', 'dichromaticpal',
       'dichromaticpal', 'interpolateRGB', 'interpolateRGB'] + list(BUF)
for _n in OPS + ['huenames']:
    CALLS[_n] = call


def c30(ses, sid, tier, OPS=OPS):
    r = ses.rng
    image(ses, r, 1, bits=1, wh=(2, 2))
    last = None
    if sid % 300 in (7, 8, 9):
        a = [sid % 300 - 7, SIZES[sid % 300 - 7]]
        ses.do('huenames', *num(a), x={'raw': repr(a)})
    for _ in range(14):
        k = r.random()
        if k < 0.2 and last:
            # the same function again with part of the arguments of the last call
            op = last[0]
            b = args(r, op)
            a = near(r, last[1]) if k < 0.1 else [r.choice(v) for v in zip(last[1], b)]
        else:
            op = r.choice(OPS)
            a = args(r, op)
        last = (op, a)
        w = {'raw': repr(a)}
        if op.startswith('prob'):
            w['seed'] = r.randrange(1 << 30)
        ses.do(op, *num(a), x=w)


PROPS = [Prop('C30', c30, quick=1500, thorough=15000, chunk=60,
              assumptions=['factors from 0 to 1 (colour filters: up to 2 and negative), parts of colours 0..255; values that rounding errors below 1e-9 decide are free',
                           'the X11 tables are compared with each other, not with an outside source'])]
