"""Transitions generated by TLC from the models MC*.tla, performed on the real library."""
from bmpio import encode
from core import stdpal

SPAN = set('''horiline line rectangle xygrid plotpoly filledrect plotpolyfill filledparallelogram filledcircle roundpen thickcircle
    thickroundline filledellipse'''.split())


FINDING = {'CFLAST': 'colorfilterto24bitregion colorfilterto24bitimage colorfiltercircregion',
           'HGTOP': 'horizontalbrightnessgradto24bitregion horizontalbrightnessgradto24bitimage',
           'GRADABS': 'filledgradrect filleddichromaticgradrect'}
FINDING = {op: kf for kf, v in FINDING.items() for op in v.split()}


def put(ses, k, im):
    if im['w']:
        pal = (im['pal'] or list(stdpal(im['b']))) if im['b'] < 24 else None
        data = encode(im['w'], im['h'], im['b'], im['px'], pal)
        if k >= 9 or k not in ses.mem or bytes(ses.mem[k]) != bytes(data):
            ses.poke(k, data)


def perform(ses, st):
    im, op = st['im'], st['op']
    put(ses, st['s'], im)
    put(ses, st['s2'] or st['d'], st['m2'])
    kf = 'SPAN4' if im['b'] == 4 and op in SPAN else FINDING.get(op, '')
    ses.do(op, *st['a'], s=st['s'], d=st['d'], s2=st['s2'], kf=kf)


def perform_path(ses, st):
    """a whole history; slot 11 is a file that is no bitmap"""
    if any(e['s'] == 11 for e in st['path']):
        ses.poke(11, b'PK\3\4 no bitmap')
    for e in st['path']:
        if ses.dead:
            return
        ses.do(e['op'], *e['a'], s=e['s'], d=e['d'], kf='SPAN4' if e['op'] == 'rectangle2file' and ses.dec.get(e['s']) and ses.bits(e['s']) == 4 else '')


def models(prop, module, quick, thorough=()):
    """entries of Prop.mcs: the model of a property on bitmaps of these sizes"""
    return [(t, '%s-%s-%s' % (module, prop, z), module + '.tla', 'MC.cfg', dict(GEN='1', MCWHAT=prop, MCSIZE=z))
            for t, zs in (('quick', quick), ('thorough', thorough)) for z in zs]
