"""Helpers on which the operations of several properties rest, exercised directly in sessions of these properties too."""
from gen import image
import gen_attr, gen_bytes, gen_curve, gen_file, gen_frac, gen_hue, gen_math, gen_misc, gen_pal, gen_point, gen_text


def part(fn, ops):
    """sessions of fn with the given operations"""
    return lambda ses, sid, tier: fn(ses, sid, tier, ops)


def hue(*ops):
    return part(gen_hue.c30, list(ops))


def maths(*ops):
    return part(gen_math.c29, list(ops))


def point(*ops):
    return part(gen_point.c31, list(ops))


def bytes_(*ops):
    return part(gen_bytes.c27, list(ops))


def onefile(*bases):
    """sessions of the file operations on the given operations in memory"""
    names = [n for n in gen_file.NAMES if gen_file.BASE[n] in bases]
    return part(gen_file.file_session, names)


def textfiles(ses, sid, tier):
    r = ses.rng
    image(ses, r, 1, bits=1, wh=(2, 2))
    names = sorted(gen_text.STR2)
    for j in range(5):
        gen_text.textfile(ses, r, names[(sid + j) % len(names)] if r.random() < 0.5 else r.choice(names), r.choice([1, 1, 2]), r.choice([0, 1]))


def savers(ses, sid, tier):
    r = ses.rng
    image(ses, r, 1, bits=1, wh=(2, 2))
    names = list(gen_frac.FILEOP)
    gen_frac.op(ses, r, r.choice(names))
    gen_curve.fileop(ses, r, r.choice(gen_curve.FILES))
    for _ in range(4):
        gen_attr.pictop(ses, r, True)


FIND = part(gen_misc.find_session, ['imgregionbyRGB2file', 'autocropimg2file', 'imagediff', 'imagediff', 'showsimilarparts', 'cropBMPandsave', 'cropBMPandsave',
                                    'cropBMPandsaveusingrectbnd', 'put'])
REDUCE = part(gen_pal.depth_session, ['reduce24bitimagebits', 'reduce24bitimagebits', 'image'])

ALSO = {
    'C19': [(9, FIND), (13, textfiles), (17, savers), (23, REDUCE)],
    'C01': [(15, bytes_('readint', 'writeint', 'int2buf', 'buf2int'))],
    'C02': [(15, bytes_('readint', 'writeint', 'int2buf', 'buf2int', 'char2int'))],
    'C03': [(15, hue('matchRGBtopal', 'matchRGBtopal', 'RGB2int', 'int2RGB', 'int2RGBlist', 'int2BGRarr', 'int2RGBarr', 'RGB2BGRarr'))],
    'C04': [(25, point('iterline', 'lineseg', 'recvert', 'sortrecpoints'))],
    'C05': [(25, point('iterparallelogram', 'iterline', 'sortrecpoints', 'rectboundarycoords'))],
    'C06': [(25, point('itercirclepart', 'itercirclepartlineedge', 'itercircle', 'circlevert', 'entirecircleisinboundary'))],
    'C07': [(25, point('iterellipsepart', 'iterellipse', 'ellipsevert', 'entireellipseisinboundary'))],
    'C10': [(40, point('itercirclepartlineedge', 'itercirclepart', 'entirecircleisinboundary'))],
    'C11': [(30, bytes_('packpixels', 'unpackpixels', 'adjustbufsize', 'adjustxbufsize', 'BMPbitBLTput', 'BMPbitBLTget'))],
    'C12': [(20, bytes_('resize1bitbufNtimesbigger', 'resize4bitbufNtimesbigger', 'resize8bitbufNtimesbigger', 'resize24bitbufNtimesbigger', 'resizebufNtimesbigger',
                        'resizesmaller24bitbuf', 'altsplitbuf3way', 'altsplitbufnway', 'makeBGRbuf'))],
    'C13': [(20, hue('gammacorrect', 'brightnessadjust', 'thresholdadjust', 'colorfilter', 'monochrome', 'applymonochromefiltertoBGRbuf', 'applygammaBGRbuf',
                     'applybrightnessadjtoBGRbuf', 'applythresholdadjtoBGRbuf', 'gammaBGRbuf', 'monochromefiltertoBGRbuf', 'gammacorrectbyte')),
            (23, onefile('monofilterto24bitimage', 'monofilterto24bitregion', 'colorfilterto24bitimage', 'brightnesseadjto24bitimage', 'thresholdadjto24bitimage', 'gammaadjto24bitimage'))],
    'C14': [(20, hue('colormix', 'interpolateRGB', 'RGBfactors2RGB', 'matchRGBtopal', 'RGBfactorstoBaseandRange'))],
    'C15': [(12, hue('matchRGBtopal', 'matchRGBtopal', 'matchRGBtodefault4bitpal', 'getdefaultbitpal', 'monochromepal', 'monoshiftablepal', 'monoinverseshiftablepal',
                     'monoinverseshiftableBGRpal', 'monoinverseshiftableBGRApal', 'dichromaticpal')), (19, onefile('palshift'))],
    'C16': [(15, hue('matchRGBtopal')), (20, point('itergetneighbors', 'getneighborlist')), (21, bytes_('convertbufto24bit', 'dict2descorderlist', 'unpackpixels'))],
    'C20': [(30, point('itergetneighbors', 'getneighborlist', 'rectboundarycoords')), (31, maths('xorvect', 'andvect', 'dist'))],
    'C22': [(8, point('fractalvalue')), (9, point('fractalpoints', 'newtonfuncs'))],
    'C23': [(12, point('floatregpolygonvert', 'hilbertvert', 'koch', 'kochcurvevert', 'kochsnowflakevert')), (25, maths('rect2polarcoord2Dwithcenter', 'polarcoordangle2D', 'rotvec2D', 'computerotvec'))],
    'C24': [(20, maths('mathnormvec', 'crossprod3d', 'cosaffin', 'spherical2rectcoord3D', 'cylindrical2rectcoord3D', 'rotvec2D', 'computerotvec', 'trans', 'addvect', 'dist', 'dotprod'))],
    'C25': [(20, maths('LSMslope', 'LSMYint', 'mean', 'pivotlist'))],
}
