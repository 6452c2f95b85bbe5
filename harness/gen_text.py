"""Sessions of text."""
import os, random, re
from array import array
from prop import Prop
from gen import *
import ops
from ops import B, CALLS

_t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'OpsText.tla')).read()


def table(name):
    s = _t[_t.index(name + ' == ['):]
    s = s[:s.index(']\n')]
    return {k: v for k, v in re.findall(r'(\w+) \|-> \w+\("(\w+)"', s)}


PAT, STR, STR2 = table('PatOps'), table('StrOps'), table('Str2Ops')


def fontof(codes, h, glyphs, real=None):
    """a font of 256 characters, with the given glyphs"""
    r = random.Random(repr((codes, glyphs)))
    f = [h] + [r.randrange(256) for _ in range(256 * h)]
    for c, g in zip(codes, glyphs):
        f[1 + c * h:1 + c * h + h] = g
    return array('B', f) if r.random() < 0.5 else f


def colorarg(cs):
    return cs[0] if len(cs) == 1 else list(cs) if len(cs) % 2 else tuple(cs)


def _call(name):
    def pat(ses, ev):
        a = ev['a']
        return getattr(B(), name)(ses.mem[ev['s']], a[0], a[1], list(a[2]), a[3], a[4], colorarg(a[5]))

    def st(ses, ev):
        a = ev['a']
        return getattr(B(), name)(ses.mem[ev['s']], a[0], a[1], ''.join(map(chr, a[2])), a[3], a[4], a[5], colorarg(a[6]),
                                  fontof(a[2], a[7], a[8]))

    def st2(ses, ev):
        a = ev['a']
        return getattr(B(), name)(ses.path(ev['d']), ''.join(map(chr, a[0])), a[1], a[2], a[3], colorarg(a[4]),
                                  fontof(a[0], a[7], a[8]), a[5], a[6])
    CALLS[name] = pat if name in PAT else st if name in STR else st2


for _n in (*PAT, *STR, *STR2):
    _call(_n)


def _fonts():
    import pythonbmp.fonts as m
    return m


def _tg():
    import pythonbmp.textgraphics as m
    return m


CALLS['plot8bitpatternastext'] = lambda ses, ev: _tg().plot8bitpatternastext(*ops.copy.deepcopy(ev['a']))
CALLS['computetextrowandcolcnt'] = lambda ses, ev: _tg().computetextrowandcolcnt(''.join(map(chr, ev['a'][0])))
CALLS['getcharfont'] = lambda ses, ev: list(_fonts().getcharfont(fontof([ev['a'][0]], len(ev['a'][1]), [ev['a'][1]]), chr(ev['a'][0])))


def glyph(r, h):
    m = r.random()
    if m < 0.15:
        return [r.choice([1, 128, 129, 255, 0])] * h
    return [r.randrange(256) for _ in range(h)]


def text(r, n):
    return [r.choice([9, 10]) if r.random() < 0.2 else r.choice([65, 66, 0, 255, 32, 97, 48]) for _ in range(n)]


def realfont(r):
    m = _fonts()
    f = r.choice([m.font8x8, m.font8x8thin, m.font8x14])
    return list(f)


def glyphs(r, codes):
    if r.random() < 0.25:
        f = realfont(r)
        return f[0], [f[1 + c * f[0]:1 + c * f[0] + f[0]] for c in codes]
    h = r.choice([8, 14, 1, 3, 5, 8, 7])
    d = {c: glyph(r, h) for c in codes}
    return h, [d[c] for c in codes]


def rotkf(style, b, dots, s, sp):
    return 'ROTBIT' if style.startswith('rot') else 'SPAN4' if b == 4 else ''


def colors(r, style, b):
    def one():
        return color(r, b)
    if style in ('rot', 'side') or r.random() < 0.7:
        return [one()]
    return [one() for _ in range(r.randint(2, 4))]


def textfile(ses, r, op, s, sp):
    t = text(r, r.randint(0, 3 if s < 3 else 1))
    hh, gl = glyphs(r, t)
    bb = r.choice(BITS)
    ses.do(op, t, s, sp, r.choice([0, 1, 3]), colors(r, STR2[op], bb), r.choice([0, color(r, bb)]), bb, hh, gl, d=11,
           kf=rotkf(STR2[op], bb, 0, s, sp))


def text_session(ses, sid, tier):
    r = ses.rng
    names = sorted(PAT), sorted(STR), sorted(STR2)
    b = BITS[sid % 4]
    big = r.random() < 0.5
    image(ses, r, 1, bits=b, maxpx=2600 if big else 900)
    for j in range(7):
        if ses.dead:
            return
        w, h = ses.wh(1)
        k = r.random()
        s = r.choice([1, 1, 2, 3, 4]) if k < 0.3 else r.choice([1, 1, 1, 2, 3])
        sp = r.choice([0, 0, 0, 1, 1, 2])
        if k < 0.3:
            op = names[0][(sid * 7 + j) % len(names[0])] if r.random() < 0.5 else r.choice(names[0])
            g = glyph(r, r.choice([8, 14, 1, 3, 6]))
            x, y = place(r, PAT[op], w, h, 8 * s, len(g) * s)
            ses.do(op, x, y, g, s, sp, colors(r, PAT[op], b), kf=rotkf(PAT[op], b, 0, s, sp))
        elif k < 0.75:
            op = names[1][(sid * 7 + j) % len(names[1])] if r.random() < 0.5 else r.choice(names[1])
            t = text(r, r.randint(0, 4 if s < 3 else 2))
            hh, gl = glyphs(r, t)
            gap = r.choice([0, 1, 2, 5])
            x, y = place(r, STR[op], w, h, len(t) * (8 * s + gap), hh * s)
            ses.do(op, x, y, t, s, sp, gap, colors(r, STR[op], b), hh, gl, kf=rotkf(STR[op], b, 0, s, sp))
        elif k < 0.93:
            textfile(ses, r, names[2][(sid * 7 + j) % len(names[2])] if r.random() < 0.5 else r.choice(names[2]), s, sp)
        else:
            op = r.choice(['plot8bitpatternastext', 'getcharfont', 'computetextrowandcolcnt'])
            if op == 'plot8bitpatternastext':
                ses.do(op, glyph(r, r.randint(0, 9)), r.choice('*#1'), r.choice(' 0.'))
            elif op == 'getcharfont':
                ses.do(op, r.randrange(256), glyph(r, r.randint(1, 14)))
            else:
                ses.do(op, text(r, r.randint(0, 12)))


def place(r, style, w, h, tw, th):
    if r.random() < 0.6:
        return r.randint(0, max(0, w - tw)), r.randint(min(h - 1, tw) if style.startswith('side') else 0, max(min(h - 1, tw), h - 1 if style.startswith('side') else h - th))
    return r.randint(-8, w + 3), r.randint(-8, h + 3)


PROPS = [
    Prop('C18', text_session, quick=1980, thorough=9000),
]
