"""Sessions of calls that the library has to reject."""
from prop import Prop
from gen import *
import gen_misc
from gen_color import factors, lums, pct, glum, GAMMA

one = [[1, 1]] * 3
FINDING = ('filledrect', 'xygrid', 'filledgradrect', 'filleddichromaticgradrect', 'horizontalbrightnessgradto24bitregion')
f3 = [[1, 1], [1, 2], [1, 1]]
RECT = {
    'filledgradrect': lambda r: [lums(r), f3, r.randint(0, 1)],
    'filleddichromaticgradrect': lambda r: [color(r, 24), color(r, 24), r.randint(0, 1)],
    'colorfilterto24bitregion': lambda r: [one],
    'brightnesseadjto24bitregion': lambda r: [[r.randint(-90, 90), 1]],
    'thresholdadjto24bitregion': lambda r: [[40, 200]],
    'gammaadjto24bitregion': lambda r: [[1, 1]],
    'verticalbrightnessgradto24bitregion': lambda r: [glum(r)],
    'filledrect': lambda r: [1], 'xygrid': lambda r: [[2, 3], 1],
    'erasealternatehorizontallinesinregion': lambda r: [2, 1, 255],
    'eraseeverynthhorilineinregion': lambda r: [2],
}
for _n in ('monofilterto24bitregion', 'copyrect', 'itercopyrect', 'itergetcolorfromrectregion', 'invertregion', 'outlineregion',
           'flipverticalregion', 'fliphorizontalregion', 'mirrortopinregion', 'mirrorbottominregion', 'mirrorleftinregion',
           'mirrorrightinregion', 'mirrortopleftinregion', 'mirrortoprightinregion', 'mirrorbottomleftinregion',
           'mirrorbottomrightinregion', 'crop'):
    RECT[_n] = lambda r: []
CIRC = {
    'colorfiltercircregion': lambda r: [one], 'brightnessadjcircregion': lambda r: [[30, 1]],
    'thresholdadjcircregion': lambda r: [[40, 200]], 'gammacorrectcircregion': lambda r: [[1, 1]],
    'vertbrightnessgrad2circregion': lambda r: [glum(r)], 'horibrightnessgrad2circregion': lambda r: [glum(r)],
    'magnifyNtimescircregion': lambda r: [2], 'pixelizenxncircregion': lambda r: [2],
    'erasealternatehorizontallinesincircregion': lambda r: [2, 1, 255], 'eraseeverynthhorizontallineinccircregion': lambda r: [2],
}
for _n in ('monocircle', 'flipXYcircregion', 'flipvertcircregion', 'mirrortopincircregion', 'mirrorbottomincircregion',
           'fliphoricircregion', 'mirrorleftincircregion', 'mirrorrightincircregion', 'mirrortopleftincircregion',
           'mirrortoprightincircregion', 'mirrorbottomleftincircregion', 'mirrorbottomrightincircregion',
           'invertbitsincircregion', 'outlinecircregion'):
    CIRC[_n] = lambda r: []
NTONLY = {'sphere': lambda r: [f3], 'thickencirclearea': lambda r: [f3],
          'drawarc': lambda r: [0, 90, 1, 1, 1, 1], 'copycircregion': lambda r: [[3, 3]]}
NOTINT = ['2.0', '1.5', "'2'", 'None', 'True', 'False', '[1]', '(1, 2)', '1e9', "float('nan')", "float('inf')", '-0.0', '2+0j', "b'1'"]


def edge(r, n):
    return r.choice([0, n - 1, n, -1, n + 1, -n, r.randint(-3, n + 3), r.randint(-3, n + 3), 2 ** 31 - 1, -2 ** 31, 65536 + r.randint(0, n)])


def guard_session(ses, sid, tier):
    r = ses.rng
    image(ses, r, 1, bits=BITS[sid % 4], maxpx=200)
    for _ in range(12):
        if ses.dead:
            return
        w, h = ses.wh(1)
        b = ses.bits(1)
        k = r.random()
        if k < 0.45:
            op = r.choice([*RECT, *CIRC, *NTONLY])
            rest = {**RECT, **CIRC, **NTONLY}[op](r)
            n = 4 if op in RECT else 3
            v = [0, 0, w - 1, h - 1] if n == 4 else [w // 2, h // 2, r.randint(0, 2)]
            if r.random() < 0.3:
                v = [r.randint(-4, 20) for _ in range(n)]
            nt = sorted(r.sample(range(1, n + 1), r.choice([1, 1, 1, 2, n])))
            for i in nt:
                v[i - 1] = 0
            ses.do(op, *v, *rest, s=1, d=2 if op == 'crop' else 0, x={'nt': nt, 'py': [r.choice(NOTINT) for _ in nt]})
        elif k < 0.8:
            op = r.choice([*RECT, *CIRC])
            rest = {**RECT, **CIRC}[op](r)
            if op in RECT:
                v = rect(r, w, h, 0)
                for i in r.sample(range(4), r.choice([1, 1, 2, 4])):
                    v[i] = edge(r, (w, h)[i % 2])
            else:
                v = circ(r, w, h, 0)
                for i in r.sample(range(3), r.choice([1, 1, 2])):
                    v[i] = max(0, r.choice([v[2] + 1, v[2] + 1, v[2] - 1])) if i == 2 else r.choice([v[2] - 1, (w, h)[i] - v[2], v[i] + 1, v[i] - 1])
            if op.endswith('grad2circregion'):
                v[2] = max(1, v[2])
            if op.startswith('pixelizenxn') and min(w, h) < 2:
                continue
            # recorded findings of operations that go ahead are the business of other properties
            if op in FINDING and (op != 'filledrect' or b == 4) and (op != 'xygrid' or b == 4) and all(0 <= q < (w, h)[i % 2] for i, q in enumerate(v)):
                continue
            ses.do(op, *v, *rest, s=1, d=2 if op == 'crop' else 0)
        elif k < 0.9:
            op = r.choice(['resizeNtimessmaller', 'pixelizenxn', 'graddichromiccircle', 'palshift', 'itercolorcycle', 'monofilterto24bitimage',
                           'brightnesseadjto24bitimage', 'gammaadjto24bitimage', 'fillbackgroundwithdichromaticgrad'])
            if op in ('palshift', 'itercolorcycle'):
                if b in (1, 24):
                    ses.do(op, *([1] if op == 'palshift' else []), s=1)
            elif b != 24:
                rest = {'resizeNtimessmaller': [2], 'pixelizenxn': [2], 'graddichromiccircle': [2, 2, 2, 1, 5], 'monofilterto24bitimage': [],
                        'brightnesseadjto24bitimage': [[20, 1]], 'gammaadjto24bitimage': [[1, 1]],
                        'fillbackgroundwithdichromaticgrad': [[0, 255], 3, 4, 1]}[op]
                ses.do(op, *rest, s=1, d=2 if op in ('resizeNtimessmaller', 'pixelizenxn') else 0)
        else:
            image(ses, r, 1, maxpx=200)


PROPS = [
    Prop('C17', guard_session, quick=5500, thorough=12000),
]
