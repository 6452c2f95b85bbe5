"""Sessions of flips, mirrors, regions, circular regions, copy and paste, resizing."""
from prop import Prop
from gen import *
from gen_draw import mixed
from box import models

WHOLE = ['flipvertical', 'fliphorizontal', 'mirrortop', 'mirrorbottom', 'mirrorleft', 'mirrorright', 'mirrortopleft',
         'mirrortopright', 'mirrorbottomleft', 'mirrorbottomright', 'invertimagebits', 'flipXY', 'flipXY']
REGION = ['flipverticalregion', 'fliphorizontalregion', 'mirrortopinregion', 'mirrorbottominregion', 'mirrorleftinregion',
          'mirrorrightinregion', 'mirrortopleftinregion', 'mirrortoprightinregion', 'mirrorbottomleftinregion',
          'mirrorbottomrightinregion', 'fliphorzontalpixelbased', 'fliphverticalalpixelbased', 'invertregion', 'invertregion']
CIRC = ['flipvertcircregion', 'mirrortopincircregion', 'mirrorbottomincircregion', 'fliphoricircregion', 'mirrorleftincircregion',
        'mirrorrightincircregion', 'mirrortopleftincircregion', 'mirrortoprightincircregion', 'mirrorbottomleftincircregion',
        'mirrorbottomrightincircregion', 'flipXYcircregion', 'copycircregion', 'copycircregion', 'invertbitsincircregion',
        'outlinecircregion', 'magnifyNtimescircregion', 'pixelizenxncircregion']


def whole_step(ses, r, k):
    w, h = ses.wh(k)
    op = r.choice(WHOLE)
    if op == 'flipXY':
        ses.do(op, s=k, d=r.choice([k, 3]))
    else:
        ses.do(op, s=k)
    if r.random() < 0.3:
        image(ses, r, k)


def region_step(ses, r, k):
    w, h = ses.wh(k)
    op = r.choice(REGION)
    v = rect(r, w, h)
    if 'pixelbased' in op:
        v = [min(v[0], v[2]), min(v[1], v[3]), max(v[0], v[2]), max(v[1], v[3])]
    ses.do(op, *v, s=k)


def circx_step(ses, r, k):
    w, h = ses.wh(k)
    op = r.choice(CIRC)
    if r.random() < 0.3:
        op = r.choice(CIRC[-7:])
    part = op in ('invertbitsincircregion', 'outlinecircregion')
    v = circ(r, w, h, 0.5 if part else 0.08, 0)
    if part and r.random() < 0.3:
        v = [*pt(r, w, h, 0.5, 12), r.randint(0, 12)]
    if op == 'copycircregion':
        q = circ(r, w, h, 0.05, 0)[:2]
        if r.random() < 0.8:
            q = [r.randint(min(v[2], w - 1), max(v[2], w - 1 - v[2])), r.randint(min(v[2], h - 1), max(v[2], h - 1 - v[2]))]
        v.append(q)
    elif op in ('magnifyNtimescircregion', 'pixelizenxncircregion'):
        m = min(w, h, 4)
        v.append(r.randint(1, m))
    ses.do(op, *v, s=k)


def copy_step(ses, r, k):
    w, h = ses.wh(k)
    bufs = ses.__dict__.setdefault('bufs', [])
    op = r.choice(['copyrect'] * 3 + ['pasterect'] * 4 + ['crop'] * 3 + ['convertselection2BMP', 'itercopyrect', 'vertBMPbitBLTget', 'image'])
    if op == 'image':
        image(ses, r, k)
    elif op in ('copyrect', 'itercopyrect'):
        b = ses.do(op, *rect(r, w, h), s=k)
        if op == 'copyrect' and b is not None and not ses.dead:
            bufs.append(list(b))
    elif op == 'crop':
        ses.do(op, *rect(r, w, h), s=k, d=r.choice([k, 3]))
    elif op == 'vertBMPbitBLTget':
        if ses.bits(k) >= 8:
            y1, y2 = r.randrange(h), coord(r, h)
            ses.do(op, r.randrange(w), *r.choice([(y1, y2), (y2, y1)]), s=k)
    elif bufs:
        b = r.choice(bufs[-3:])
        if op == 'convertselection2BMP':
            if r.random() < 0.1:
                b = [r.choice([0, 2, 3, 16, 32])] + b[1:]
            ses.do(op, b, s=k, d=r.choice([k, 3]))
        else:
            bw, bh = b[1] + 256 * b[2], b[3] + 256 * b[4]
            x, y = pt(r, w, h, 0.15)
            if r.random() < 0.8 and w > bw and h > bh:
                x, y = r.randint(0, w - bw - 1), r.randint(0, h - bh - 1)
            ses.do(op, b, x, y, s=k)


def copy_session(ses, sid, tier):
    r = ses.rng
    b = BITS[sid % 4]
    for k in (1, 2):
        image(ses, r, k, bits=b if r.random() < 0.85 else None)
    for _ in range(14):
        copy_step(ses, r, r.choice([k for k in (1, 2, 3) if k in ses.mem]))
        if ses.dead:
            return


def size_session(ses, sid, tier):
    r = ses.rng
    for _ in range(6):
        w, h = dims(r, 0.04, 17, 300)
        image(ses, r, 1, bits=BITS[(sid + _) % 4] if r.random() < 0.5 else 24, wh=(w, h))
        b = ses.bits(1)
        if r.random() < 0.6:
            n = r.choice([1, 2, 2, 3, 3, 4, 5, 7])
            ses.do('resizeNtimesbigger', n if w * h * n * n < 2500 else 2, s=1, d=r.choice([1, 2]))
        w, h = ses.wh(1)
        for _ in range(2):
            if ses.dead:
                return
            w, h = ses.wh(1)
            ns = [n for n in (1, 2, 3, 4, 5, 7, 8) if n <= min(w, h)]
            ses.do(r.choice(['resizeNtimessmaller', 'pixelizenxn']), r.choice(ns), s=1, d=r.choice([1, 2]))
        if ses.dead:
            return


PROPS = [
    Prop('C08', mixed(whole_step, 14, 2, maxpx=1000), quick=1760, thorough=12000,
         mcs=models('C08', 'MCXform', 'l1 l4 l8 l24'.split(), 'd4 d24'.split())),
    Prop('C09', mixed(region_step, 14, 2, maxpx=1200), quick=2640, thorough=12000,
         mcs=models('C09', 'MCXform', 'a1 a4 a8 a24'.split(), 'l4 l8 l24'.split())),
    Prop('C10', mixed(circx_step, 12, 2), quick=2200, thorough=12000,
         mcs=models('C10', 'MCXform', 'c1 c4 c8 c24'.split(), 'd1 d4 d8 d24'.split())),
    Prop('C11', copy_session, quick=2200, thorough=12000,
         mcs=models('C11', 'MCXform', 'a1 a4 a8 a24'.split(), 'l4 l8'.split())),
    Prop('C12', size_session, quick=1100, thorough=8000,
         mcs=models('C12', 'MCXform', 'l1 l4 l8 l24'.split(), 'c1 c4 c24'.split())),
]
