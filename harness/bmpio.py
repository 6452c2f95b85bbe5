"""Independent projection of a bitmap's bytes to the abstract image of Img.tla."""
import hashlib

PALOFF = 54


def le(b, o, n):
    return int.from_bytes(bytes(b[o:o + n]), 'little')


def decode(b):
    """bytes-like -> dict of the abstract state plus the header facts."""
    b = bytes(b)
    n = len(b)
    h0 = dict(w=-1, hx=hashlib.md5(b).hexdigest(), bad='')
    if n < 54 or b[:2] != b'BM':
        return h0
    off, dib, w, h, bits = le(b, 10, 4), le(b, 14, 4), le(b, 18, 4), le(b, 22, 4), le(b, 28, 2)
    fs = le(b, 2, 4)
    cl = lambda v: min(v, 1 << 30)
    rest = b[6:10] + b[26:28] + b[30:54]
    d = dict(w=cl(w), h=cl(h), b=bits, off=cl(off), dib=cl(dib), fs=cl(fs), len=n, bad='',
             hx='0' if not any(rest) else rest.hex(), px=[], pal=[])
    if bits not in (1, 4, 8, 24) or w < 1 or h < 1:
        d['bad'] = 'bits or size'
        d['w'] = max(1, d['w'])
        return d
    stride = ((w * bits + 31) // 32) * 4
    hdr = 54 if bits == 24 else 54 + 4 * (1 << bits)
    if n < hdr + h * stride or off != hdr:
        d['bad'] = 'short'
        return d
    if bits < 24:
        d['pal'] = [(b[i + 2] << 16) | (b[i + 1] << 8) | b[i] for i in range(54, hdr, 4)]
    px = []
    for y in range(h):
        o = off + (h - 1 - y) * stride
        row = b[o:o + stride]
        if bits == 24:
            px.extend((row[3 * x + 2] << 16) | (row[3 * x + 1] << 8) | row[3 * x] for x in range(w))
        elif bits == 8:
            px.extend(row[:w])
        elif bits == 4:
            px.extend((row[x >> 1] >> 4) if x % 2 == 0 else (row[x >> 1] & 15) for x in range(w))
        else:
            px.extend((row[x >> 3] >> (7 - x % 8)) & 1 for x in range(w))
    d['px'] = px
    return d


def encode(w, h, bits, px, pal=None):
    """abstract image -> bytes (used to start sessions from a chosen bitmap)."""
    stride = ((w * bits + 31) // 32) * 4
    hdr = 54 if bits == 24 else 54 + 4 * (1 << bits)
    n = hdr + h * stride
    b = bytearray(n)
    b[0:2] = b'BM'
    b[2:6] = n.to_bytes(4, 'little')
    b[10:14] = hdr.to_bytes(4, 'little')
    b[14:18] = (40).to_bytes(4, 'little')
    b[18:22] = w.to_bytes(4, 'little')
    b[22:26] = h.to_bytes(4, 'little')
    b[28] = bits
    if bits < 24:
        for i, c in enumerate(pal):
            b[54 + 4 * i:57 + 4 * i] = bytes([c & 255, (c >> 8) & 255, c >> 16])
    for y in range(h):
        o = hdr + (h - 1 - y) * stride
        for x in range(w):
            c = px[y * w + x]
            if bits == 24:
                b[o + 3 * x:o + 3 * x + 3] = bytes([c & 255, (c >> 8) & 255, c >> 16])
            elif bits == 8:
                b[o + x] = c
            elif bits == 4:
                b[o + (x >> 1)] |= c << (4 if x % 2 == 0 else 0)
            elif c:
                b[o + (x >> 3)] |= 1 << (7 - x % 8)
    return bytes(b)
