"""Sessions of byte buffers and small tools."""
import contextlib
import io
from array import array
from prop import Prop
from gen import *
from ops import B, CALLS


def mod(name):
    import importlib
    return importlib.import_module('pythonbmp.' + name)


def limbs(v):
    out = []
    while v:
        out.append(v & 65535)
        v >>= 16
    return out


def val(l):
    """the integer of 16-bit digits, the last of which may be negative"""
    return sum(d << 16 * i for i, d in enumerate(l))


def ints(ses, ev):
    m, op, a = mod('inttools'), ev['op'], ev['a']
    if op == 'int2buf':
        return m.int2buf(a[0], ev['neg'] if 'neg' in ev else val(a[1]))
    if op == 'buf2int':
        return limbs(m.buf2int(array('B', a[0])))
    if op == 'readint':
        return limbs(m.readint(a[0], a[1], array('B', a[2])))
    buf = array('B', a[2])
    m.writeint(a[0], a[1], buf, ev['neg'] if 'neg' in ev else val(a[3]))
    return buf


def bufs(name, *kinds):
    """kinds: b an argument that is a buffer, v a plain one"""
    m, f = name

    def call(ses, ev):
        a = [array('B', v) if k == 'b' else [array('B', x) for x in v] if k == 'B' else v for k, v in zip(kinds, ev['a'])]
        r = getattr(mod(m), f)(*a)
        if f == 'RGB2BGRbuf':
            return a[0]
        return r if isinstance(r, (array, int)) else list(r)
    CALLS[f] = call


R = 'bufresize'
for _f, _k in [('packpixels', 'vv'), ('unpackpixels', 'bv'), ('packbitlisttobuf', 'v'), ('unpack4bitbuf', 'b'), ('pack4bitbuf', 'v'),
               ('unpack4bitbufresizeNtimesbigger', 'bv'), ('resizebitpattenNtimesbigger', 'vv'), ('resizebufNtimesbigger', 'bvv'),
               ('resize1bitbufNtimesbigger', 'bv'), ('resize4bitbufNtimesbigger', 'bv'), ('resize8bitbufNtimesbigger', 'bv'),
               ('resize24bitbufNtimesbigger', 'bv'), ('resizesmaller24bitbuf', 'B'), ('adjustbufsize', 'vv')]:
    bufs((R, _f), *_k)
for _f, _k in [('flipbuf', 'bv'), ('flip24bitbuf', 'b'), ('flipnibbleinbuf', 'b'), ('rotatebitsinbuf', 'b')]:
    bufs(('bufferflip', _f), *_k)
for _f, _k in [('altsplitbuf', 'b'), ('altsplitbuf3way', 'b'), ('altsplitbufnway', 'bv')]:
    bufs(('buffersplit', _f), *_k)
for _f, _k in [('makeBGRbuf', 'bbb'), ('RGB2BGRbuf', 'b'), ('RGB2BGRAlist', 'v')]:
    bufs(('colors', _f), *_k)
bufs(('BITMAPlib', 'convertbufto24bit'), 'b', 'b', 'v')
bufs(('mathlib', 'enumbits'), 'v')
bufs(('mathlib', 'rotatebits'), 'v')
bufs(('conditionaltools', 'swapif'), 'v', 'v', 'v')
bufs(('conditionaltools', 'iif'), 'v', 'v', 'v')
for _f in 'readint', 'writeint', 'int2buf', 'buf2int':
    CALLS[_f] = ints
CALLS['adjustxbufsize'] = lambda ses, ev: mod(R).adjustxbufsize(ses.mem[ev['s']], *ev['a'][:2])
CALLS['BMPbitBLTput'] = lambda ses, ev: B().BMPbitBLTput(ses.mem[ev['s']], ev['a'][0], array('B', ev['a'][1]))
CALLS['enumletters'] = lambda ses, ev: [ord(c) for c in mod('chartools').enumletters(''.join(map(chr, ev['a'][0])))]
CALLS['enumreverseletters'] = lambda ses, ev: [ord(c) for c in mod('chartools').enumreverseletters(''.join(map(chr, ev['a'][0])))]
CALLS['char2int'] = lambda ses, ev: limbs(mod('chartools').char2int(''.join(map(chr, ev['a'][0]))))
CALLS['dict2descorderlist'] = lambda ses, ev: mod('dicttools').dict2descorderlist({k: v for k, v in ev['a'][0]})


def hhmmss(ses, ev):
    m = mod('proctimer')
    sec, nano = ev['a']
    import time
    clock = lambda: 12345 + sec * 10 ** 9 + nano
    old = [(o, o.process_time_ns) for o in (m, time) if hasattr(o, 'process_time_ns')]
    for o, _ in old:
        o.process_time_ns = clock
    try:
        s = m.hhmmsselaspedtime(12345)
        assert m.elaspedtimeinseconds(12345) == (sec * 10 ** 9 + nano) / 10 ** 9
    finally:
        for o, f in old:
            o.process_time_ns = f
    return [int(v) for v in s.split('.')[0].split(':')] + [int(s.split('.')[1].ljust(9, '0'))]


CALLS['hhmmss'] = hhmmss


def printed(f):
    """codes of the characters a call prints"""
    out = io.StringIO(newline='')
    with contextlib.redirect_stdout(out):
        f()
    return [ord(c) for c in out.getvalue()]


CALLS['plotbmpastext'] = lambda ses, ev: printed(lambda: B().plotbmpastext(ses.mem[ev['s']]))


def bitstext(ses, ev):
    import pythonbmp.textgraphics as m
    return printed(lambda: m.plotbitsastext(ev['a'][0]))


CALLS['plotbitsastext'] = bitstext


def buf(r, n=None, lo=0):
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 30, 33]) if n is None else n
    n = max(lo, n)
    k = r.random()
    if k < 0.2:
        return [r.choice([0, 255, 1, 128]) for _ in range(n)]
    return [r.randrange(256) for _ in range(n)]


def num(r, bits):
    k = r.random()
    if k < 0.3:
        return r.choice([0, 1, 255, 256, 65535, 65536, 2 ** bits - 1, 2 ** (bits - 1)]) % 2 ** bits
    return r.randrange(2 ** r.randint(1, bits))


def one(ses, r, w, h, b, k=None):
    k = k or r.choice(OPS)
    kf = ''
    x = None
    if k == 'int2buf':
        n = r.randint(1, 6)
        v = num(r, 48)
        a = [n, limbs(v)]
        if r.random() < 0.2:
            x = {'neg': -v - 1}
            a[1] = limbs((-v - 1) % 2 ** 48)
    elif k == 'buf2int':
        a = [buf(r, r.randint(0, 7))]
    elif k == 'readint':
        n, m = r.randint(0, 6), r.randint(0, 6)
        a = [m, n, buf(r, m + n + r.randint(0, 3))]
    elif k == 'writeint':
        n, m = r.randint(0, 6), r.randint(0, 6)
        v = num(r, 48)
        a = [m, n, buf(r, m + n + r.randint(0, 3)), limbs(v)]
        if r.random() < 0.2:
            x = {'neg': -v - 1}
            a[3] = limbs((-v - 1) % 2 ** 48)
    elif k == 'packpixels':
        bb = r.choice([1, 4, 8])
        a = [[r.randrange(1 << bb) for _ in range(r.randint(0, 40))], bb]
    elif k == 'unpackpixels':
        a = [buf(r), r.choice([1, 4, 8])]
    elif k == 'packbitlisttobuf':
        a = [[r.randrange(2) for _ in range(r.randint(0, 40))]]
    elif k == 'pack4bitbuf':
        a = [[r.randrange(16) for _ in range(r.randint(0, 21))]]
    elif k in ('unpack4bitbuf', 'flipnibbleinbuf', 'altsplitbuf', 'altsplitbuf3way', 'RGB2BGRbuf'):
        a = [buf(r)]
    elif k == 'rotatebitsinbuf':
        a, kf = [buf(r)], 'ROTBIT'
    elif k == 'flip24bitbuf':
        a = [buf(r, 3 * r.randint(0, 9))]
    elif k == 'flipbuf':
        bb = r.choice(BITS)
        a = [buf(r, 3 * r.randint(0, 9)) if bb == 24 else buf(r), bb]
        kf = 'ROTBIT' if bb == 1 else ''
    elif k in ('unpack4bitbufresizeNtimesbigger', 'resize1bitbufNtimesbigger', 'resize4bitbufNtimesbigger', 'resize8bitbufNtimesbigger'):
        a = [buf(r, r.randint(0, 12)), r.randint(1, 9)]
    elif k == 'resize24bitbufNtimesbigger':
        a = [buf(r, 3 * r.randint(0, 7)), r.randint(1, 9)]
    elif k == 'resizebufNtimesbigger':
        bb = r.choice(BITS)
        a = [buf(r, (3 if bb == 24 else 1) * r.randint(0, 7)), r.randint(1, 9), bb]
    elif k == 'resizebitpattenNtimesbigger':
        a = [r.randrange(256), r.randint(1, 9)]
    elif k == 'resizesmaller24bitbuf':
        n, m = r.randint(1, 6), r.randint(1, 6)
        a = [[buf(r, 3 * n * m) for _ in range(n)]]
    elif k == 'adjustbufsize':
        a = [r.randint(0, 70), r.choice(BITS)]
    elif k == 'adjustxbufsize':
        p = sorted(r.randint(0, 70) for _ in range(2))
        a = [*p, b]
    elif k == 'convertbufto24bit':
        bb = r.choice([1, 4, 8])
        a = [buf(r), buf(r, 4 << bb), bb]
    elif k == 'altsplitbufnway':
        n = r.randint(1, 9)
        a = [buf(r, lo=n), n]
    elif k == 'makeBGRbuf':
        n = r.randint(0, 9)
        a = [buf(r, n) for _ in range(3)]
    elif k == 'RGB2BGRAlist':
        a = [[buf(r, 3) for _ in range(r.randint(0, 7))]]
    elif k == 'BMPbitBLTget':
        n = ((w * b + 31) // 32) * 4 * h
        a = [r.randrange(n), r.randint(1, n)]
        if r.random() < 0.7:
            a[1] = r.randint(1, n - a[0])
        elif r.random() < 0.5:
            a = r.choice([[-1, 2], [n, 1], [n - 1, 2], [0, n + 1], [0, 0], [0, n], [-n, n], [n - 1, 1]])
    elif k == 'BMPbitBLTput':
        n = ((w * b + 31) // 32) * 4 * h
        o = r.randrange(n)
        m = r.randint(0, min(60, n - o))
        k2 = r.random()
        if k2 < 0.1:
            o, m = r.choice([[-1, 2], [n, 1], [n - 1, 2], [-5, 1], [n - 3, 4]])
        if o < 0 or o + m > n:
            a = [o, buf(r, m)]
        else:
            # padding stays zero and pixels stay within the depth: bytes of another picture of this size
            px = pixels(r, w, h, b)
            from bmpio import encode
            pal = [0] * (1 << b) if b < 24 else None
            full = encode(w, h, b, px, pal)[-n:]
            a = [o, list(full[o:o + m])]
    elif k in ('enumletters', 'enumreverseletters'):
        a = [[r.choice([10, 32, 65, 97, 0x2588, 0x1f600]) for _ in range(r.randint(0, 9))]]
    elif k == 'char2int':
        a = [buf(r, r.randint(0, 7))]
    elif k == 'dict2descorderlist':
        ks = r.sample(range(-20, 40), r.randint(0, 9))
        a = [[[v, r.randint(0, 4)] for v in ks]]
    elif k in ('iif',):
        a = [r.randrange(2), r.randint(-9, 9), r.randint(-9, 9)]
    elif k == 'swapif':
        a = [r.randint(-9, 9), r.randint(-9, 9), r.randrange(2)]
    elif k == 'plotbmpastext':
        a = []
    elif k in ('enumbits', 'plotbitsastext'):
        a = [r.randrange(256)]
    elif k == 'rotatebits':
        a, kf = [r.randrange(256)], 'ROTBIT'
    else:
        a = [r.choice([0, 1, 59, 60, 61, 3599, 3600, 3661, 86400, r.randrange(400000)]), r.choice([0, 5, 70000000, r.randrange(10 ** 9)])]
    ses.do(k, *a, kf=kf, x=x)


OPS = ['readint', 'writeint', 'int2buf', 'buf2int', 'packpixels', 'unpackpixels', 'packbitlisttobuf', 'unpack4bitbuf', 'pack4bitbuf',
       'unpack4bitbufresizeNtimesbigger', 'resizebitpattenNtimesbigger', 'resizebufNtimesbigger', 'resize1bitbufNtimesbigger',
       'resize4bitbufNtimesbigger', 'resize8bitbufNtimesbigger', 'resize24bitbufNtimesbigger', 'resizesmaller24bitbuf',
       'flipbuf', 'flip24bitbuf', 'flipnibbleinbuf', 'rotatebitsinbuf', 'adjustbufsize', 'adjustxbufsize', 'convertbufto24bit',
       'altsplitbuf', 'altsplitbuf3way', 'altsplitbufnway', 'makeBGRbuf', 'RGB2BGRbuf', 'RGB2BGRAlist', 'BMPbitBLTput', 'BMPbitBLTget', 'BMPbitBLTput', 'BMPbitBLTget',
       'enumletters', 'enumreverseletters', 'char2int', 'dict2descorderlist', 'iif', 'swapif', 'enumbits', 'rotatebits', 'hhmmss', 'plotbmpastext', 'plotbitsastext']


def c27(ses, sid, tier, OPS=None):
    r = ses.rng
    w, h, b = image(ses, r, 1, cap=20)
    for _ in range(14):
        one(ses, r, w, h, b, r.choice(OPS) if OPS else None)


PROPS = [Prop('C27', c27, quick=1980, thorough=10000, chunk=60,
              assumptions=['buffers of image bytes put into a bitmap leave its padding zero'])]
