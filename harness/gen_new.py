"""Sessions of creating, copying, saving and loading bitmaps."""
import os
from prop import Prop
from gen import *
from box import models
from core import FILE0
from bmpio import encode
from ops import B, CALLS


def bignew(ses, ev):
    b = B()
    w, h, bits, x, y = ev['a']
    m = b.newBMP(w, h, bits)
    hdr = list(m[:54])
    b.plotxybit(m, x, y, 1)
    img = bytes(m[{1: 62, 4: 118, 8: 1078, 24: 54}[bits]:])
    k = len(img.lstrip(b'\0'))
    i = len(img) - k
    return [len(m), hdr, b.getxybit(m, x, y), len(img) - img.count(0), [i + len(m) - len(img), img[i] if k else -1], list(b.getmaxxyandbits(m)[0]) + [b.getmaxxyandbits(m)[1]]]


CALLS['bignew'] = bignew


def bigfile(ses, ev):
    # a bitmap of many megabytes saved and loaded: facts about the file and about the bitmap loaded from it
    b = B()
    w, h, bits, x, y = ev['a']
    m = b.newBMP(w, h, bits)
    b.plotxybit(m, x, y, 1)
    p = ses.path(11)
    b.saveBMP(p, m)
    f = open(p, 'rb').read()
    g = b.loadBMP(p)
    os.remove(p)
    out = []
    for v in (f, bytes(g)):
        img = v[{1: 62, 4: 118, 8: 1078, 24: 54}[bits]:]
        k = len(img.lstrip(b'\0'))
        i = len(img) - k
        out.append([len(v), list(v[:54]), len(img) - img.count(0), [i + len(v) - len(img), img[i] if k else -1], int(v == bytes(m))])
    return out


CALLS['bigfile'] = bigfile


def large(r, b, lo, hi):
    h = r.choice([1, 2, 3, r.randint(3, 4000), r.randint(3, 4000)])
    w = max(1, r.randint(1 << r.randint(lo, hi - 1), 1 << hi) // b // h)
    if r.random() < 0.5:
        w, h = h, w
    return w, h, b, r.choice([0, w - 1, r.randrange(w)]), r.choice([0, h - 1, r.randrange(h)])


def new_session(ses, sid, tier):
    r = ses.rng
    if sid % 23 == 5:       # sizes beyond 24 bits
        image(ses, r, 1, bits=8, wh=(2, 2))
        for _ in range(2):
            b = r.choice(BITS)
            ses.do('bignew', *large(r, b, 8, 28), s=1)
        return
    k = 0
    if sid % 29 == 3:       # sizes beyond 16 bits
        n = r.choice([65535, 65536, 65537, 70001, 66000, r.randint(65530, 80000)])
        b = r.choice([1, 4, 8, 24])
        w, h = r.choice([(n, 1), (1, n)]) if b < 24 else r.choice([(n, 1), (1, n), (2, n // 2)])
        ses.do('newBMP', w, h, b, s=1, d=1)
        for op in ('getmaxxy', 'getmaxxyandbits', 'bottomrightcoord', 'getmaxcolors', 'centercoord'):
            ses.do(op, s=1)
        ses.do('plotxybit', w - 1, h - 1, (1 << b) - 2 if b > 1 else 1, s=1)
        ses.do('getxybit', w - 1, h - 1, s=1)
        ses.do('getxybit', (w - 1) & 0xffff if w > 1 else 0, (h - 1) & 0xffff if h > 1 else 0, s=1)
        return
    for _ in range(r.randint(6, 12)):
        have = [j for j in (1, 2, 3) if j in ses.mem]
        op = r.choice(['newBMP', 'newBMP', 'get', 'get', 'CopyBMPxydim2newBMP', 'copyBMPhdr', 'copy', 'plot', 'image'])
        if op == 'newBMP' or not have:
            w, h = dims(r, 0.15, maxpx=2600)
            d = r.randint(1, 3)
            ses.do('newBMP', w, h, r.choice(BITS), s=d, d=d)
        elif op == 'image':
            image(ses, r, r.randint(1, 3))
        elif op == 'get':
            k = r.choice(have)
            ses.do(r.choice(['getmaxx', 'getmaxy', 'getmaxxy', 'getmaxcolors', 'bottomrightcoord', 'centercoord', 'getmaxxyandbits',
                             'getBMPimgbytes'] + (['isdefaultpal', 'getallRGBpal'] if ses.bits(k) < 24 else [])), s=k)
        elif op == 'plot':
            k = r.choice(have)
            w, h = ses.wh(k)
            ses.do('plotxybit', r.randrange(w), r.randrange(h), color(r, ses.bits(k)), s=k)
        elif op == 'CopyBMPxydim2newBMP':
            ses.do(op, r.choice(BITS), s=r.choice(have), d=r.randint(1, 3))
        elif op == 'copyBMPhdr':
            ses.do(op, s=r.choice(have), d=r.randint(1, 3))
        else:
            ses.do(op, s=r.choice(have), d=r.randint(1, 3))
        if ses.dead:
            return


def foreign(r):
    """a bitmap file as other programs write it: the other header fields are in use"""
    bits = r.choice(BITS)
    w, h = dims(r, 0.1, maxpx=2600)
    b = bytearray(encode(w, h, bits, pixels(r, w, h, bits), palette(r, bits) if bits < 24 else None))
    b[26] = 1
    if r.random() < 0.5:
        b[34:38] = (len(b) - int.from_bytes(b[10:14], 'little')).to_bytes(4, 'little')
    if r.random() < 0.5:
        for o in (38, 42):
            b[o:o + 4] = r.choice([2835, 3780, 11811]).to_bytes(4, 'little')
    if bits < 24 and r.random() < 0.5:
        b[46:50] = (1 << bits).to_bytes(4, 'little')
    return bytes(b)


def notbmp(r):
    k = r.random()
    if k < 0.2:
        return b''
    if k < 0.4:
        return b'B'
    if k < 0.7:
        return r.choice([b'PK\3\4', b'\x89PNG', b'MB', b'GIF89a', b'bm', b'BA']) + bytes(r.randrange(256) for _ in range(r.randint(0, 90)))
    return b'BM' + r.randint(0, 53).to_bytes(4, 'little') + bytes(r.randrange(256) for _ in range(r.randint(0, 47)))


def file_session(ses, sid, tier):
    r = ses.rng
    if sid % 97 == 7:
        image(ses, r, 1, bits=8, wh=(2, 2))
        for n in (r.randint(1 << 8, 1 << 20), r.randint(1 << 20, 1 << 24), r.randint((1 << 24) + 70000, 20 << 20)):  # bytes
            b = r.choice(BITS)
            h = r.choice([1, 2, 3, r.randint(3, 2000)])
            w = max(1, n * 8 // b // h)
            ses.do('bigfile', w, h, b, r.choice([0, w - 1, r.randrange(w)]), r.choice([0, h - 1, r.randrange(h)]), s=1)
        return
    if sid % 29 == 3:
        n = r.choice([65536, 70001, r.randint(65530, 80000)])
        b = r.choice([1, 4, 8, 24])
        w, h = r.choice([(n, 1), (1, n)])
        ses.do('newBMP', w, h, b, s=1, d=1)
        ses.do('plotxybit', w - 1, h - 1, 1, s=1)
        ses.do('saveBMP', s=1, d=9)
        ses.do('loadBMP', s=9, d=2)
        ses.do('getxybit', w - 1, h - 1, s=2)
        return
    for _ in range(r.randint(8, 14)):
        have = [j for j in (1, 2, 3) if j in ses.mem and len(ses.mem[j]) > 53]
        op = r.choice(['save', 'save', 'save', 'load', 'load', 'load', 'plot', 'image', 'file', 'fileobj'])
        if op == 'image' or not have:
            if r.random() < 0.5:
                image(ses, r, r.randint(1, 3))
            else:
                ses.poke(r.randint(1, 3), foreign(r))
        elif op == 'save':
            ses.do('saveBMP', s=r.choice(have), d=r.randint(9, 11))
        elif op == 'load':
            ses.do('loadBMP', s=r.randint(9, 12), d=r.randint(1, 3))
        elif op == 'file':
            ses.poke(r.randint(9, 11), foreign(r) if r.random() < 0.7 else notbmp(r))
        elif op == 'plot':
            k = r.choice(have)
            w, h = ses.wh(k)
            if r.random() < 0.6:
                ses.do('plotxybit', r.randrange(w), r.randrange(h), color(r, ses.bits(k)), s=k)
            else:
                ses.do('getxybit', r.randrange(w), r.randrange(h), s=k)
        if ses.dead:
            return


PROPS = [
    Prop('C01', new_session, quick=1540, thorough=8000, mcs=models('C01', 'MCHist', ['d3'], ['d4'])),
    Prop('C02', file_session, quick=1540, thorough=8000, mcs=models('C02', 'MCHist', ['d4'], ['d5'])),
]
