"""Sessions of operations on files."""
import os, re
from prop import Prop
from gen import *
from box import models
from gen_new import foreign
from gen_draw import kf
from core import CIRCEDGE
from gen_color import RATPOS, fl, factors, lums, pct, glum, GAMMA
from bmpio import encode
import ops
from ops import B, CALLS

_t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'OpsFile.tla')).read()
BASE = dict(re.findall(r'(\w+) \|-> "(\w+)"', _t[:_t.index('FileOps ==')]))
RAT = {k: RATPOS[v] for k, v in BASE.items() if v in RATPOS}
RAT['sphere2file'] = 3


def _call(name):
    def f(ses, ev):
        a = ops.copy.deepcopy(ev['a'])
        i = RAT.get(name, 99)
        if i < len(a):
            if name == 'sphere2file' and len(a[i]) == 2:
                pass
            else:
                a[i] = [fl(q) for q in a[i]] if isinstance(a[i][0], list) else fl(a[i])
        return getattr(B(), name)(ses.path(ev['s']), ses.path(ev['d']), *a)
    CALLS[name] = f


for _n in BASE:
    _call(_n)

KF = {'colorfilterto24bitregion': 'CFLAST', 'colorfiltercircregion': 'CFLAST', 'colorfilterto24bitimage': 'CFLAST',
      'filledgradrect': 'GRADABS', 'filleddichromaticgradrect': 'GRADABS',
      'horizontalbrightnessgradto24bitimage': 'HGTOP', 'horizontalbrightnessgradto24bitregion': 'HGTOP'}
SPAN = ('rectangle', 'filledrect', 'filledcircle', 'circle')


def args(r, op, base, w, h, b):
    c = color(r, b)
    if base in ('rectangle',):
        return [*pt(r, w, h), *pt(r, w, h), c]
    if base in ('circle', 'filledcircle'):
        return [*pt(r, w, h, 0.2, 9), r.randint(0, 9), c]
    if base == 'sphere':
        return [*pt(r, w, h, 0.1, 6), r.randint(1, 7), factors(r) if r.random() < 0.5 else [c, color(r, 24)]]
    if base == 'thickencirclearea':
        return [*pt(r, w, h, 0.1, 3), r.randint(1, 3), factors(r)]
    if 'circ' in base:
        v = circ(r, w, h, 0.08, 1 if 'grad2' in base else 0)
        if 'grad2' in base:
            v[2] = max(1, v[2])
        if base == 'copycircregion':
            q = [r.randint(min(v[2], w - 1), max(v[2], w - 1 - v[2])), r.randint(min(v[2], h - 1), max(v[2], h - 1 - v[2]))]
            return v + [q]
        return v + tail(r, base, w, h)
    if base in ('filledrect', 'filledgradrect', 'filleddichromaticgradrect') or 'region' in base:
        t = tail(r, base, w, h)
        return rect(r, w, h) + ([c] if base == 'filledrect' else t)
    if base == 'palshift':
        return [r.choice([1, 2, -1, 5])]
    if base == 'eraseeverynthhorizontalline':
        return [r.randint(1, 4)]
    if base in ('pixelizenxn', 'resizeNtimessmaller'):
        return [r.randint(1, min(w, h, 4))]
    if base == 'resizeNtimesbigger':
        return [r.choice([1, 2, 3])]
    return tail(r, base, w, h)


def tail(r, base, w, h):
    if base.startswith('colorfilter'):
        return [factors(r, r.choice([1, 1, 3]))]
    if base.startswith('bright'):
        return [pct(r)]
    if base.startswith('threshold'):
        return [[r.randint(0, 255), r.randint(0, 255)]]
    if base.startswith('gamma'):
        return [r.choice(GAMMA)]
    if 'brightnessgrad' in base:
        return [glum(r)]
    if base == 'filledgradrect':
        return [lums(r), factors(r), r.randint(0, 1)]
    if base == 'filleddichromaticgradrect':
        return [color(r, 24), color(r, 24), r.randint(0, 1)]
    if base in ('magnifyNtimescircregion', 'pixelizenxncircregion'):
        return [r.randint(1, min(w, h, 4))]
    if base.startswith('eraseevery'):
        return [r.randint(1, 4)]
    return []


NAMES = sorted(BASE)
ADJ = [n for n in NAMES if n.endswith('2file') and BASE[n].endswith('24bitimage') and 'grad' not in n]


def file_session(ses, sid, tier, NAMES=NAMES):
    r = ses.rng

    def put(k, b=None):
        if r.random() < 0.4:
            while True:
                f = foreign(r)
                if int.from_bytes(f[18:22], 'little') * int.from_bytes(f[22:26], 'little') < 500:
                    break
            ses.poke(k, f)
            return
        w, h = dims(r, maxpx=400)
        b = b or r.choice(BITS)
        ses.poke(k, encode(w, h, b, pixels(r, w, h, b), palette(r, b) if b < 24 else None))
    put(9)
    put(10, 24)
    for i in range(10):
        if ses.dead:
            return
        op = r.choice(ADJ) if len(NAMES) == len(BASE) and r.random() < 0.15 else NAMES[(sid * 10 + i) % len(NAMES)] if r.random() < 0.6 else r.choice(NAMES)
        base = BASE[op]
        s = r.choice([9, 10, 10]) if r.random() < 0.95 else 12
        if s == 12:
            ses.do(op, *args(r, op, base, 9, 9, 8), s=s, d=11)
            continue
        w, h = ses.wh(s)
        b = ses.bits(s)
        if w * h > 900:
            put(s)
            continue
        if base == 'thickencirclearea' and r.random() < 0.7:
            continue
        if base in ('filledcircle', 'rectangle', 'circle', 'sphere') or b < 24 and base in SPAN:
            k = 'SPAN4' if b == 4 else ''
        else:
            k = KF.get(base, '') if b in (8, 24) else kf(b) if base in SPAN else ''
        if not k and base in CIRCEDGE:
            k = 'CIRCEDGE'
        ses.do(op, *args(r, op, base, w, h, b), s=s, d=r.choice([11, 11, 11, s, 9]), kf=k)
        if r.random() < 0.3:
            put(r.choice([9, 10]), r.choice([None, 24]))


PROPS = [
    Prop('C19', file_session, quick=1980, thorough=12000, mcs=models('C19', 'MCHist', ['d5'])),
]
