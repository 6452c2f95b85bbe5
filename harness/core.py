"""Recording of sessions against the real library (imported from /repo)."""
import contextlib, copy, hashlib, io, json, os, random, shutil, signal, sys, tempfile
from array import array

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
from bmpio import decode, encode  # noqa: E402

FILE0 = 9          # slots 9.. are files, 1..8 bitmaps in memory
NSLOT = 16


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def norm(v):
    """a returned value as [kind, value]"""
    if v is None:
        return {'k': 'none', 'v': 0}
    if isinstance(v, bool):
        return {'k': 'bool', 'v': int(v)}
    if isinstance(v, int):
        return {'k': 'int', 'v': v} if -2 ** 31 <= v < 2 ** 31 else {'k': 'big', 'v': str(v)}
    if isinstance(v, array):
        return {'k': 'seq', 'v': list(v)}
    if isinstance(v, (list, tuple)):
        return {'k': 'seq', 'v': normseq(v)}
    if isinstance(v, str):
        return {'k': 'str', 'v': v}
    return {'k': 'other', 'v': type(v).__name__}


def normseq(v):
    out = []
    for x in v:
        if isinstance(x, bool):
            out.append(int(x))
        elif isinstance(x, int):
            out.append(x if -2 ** 31 <= x < 2 ** 31 else str(x))
        elif isinstance(x, (list, tuple, array)):
            out.append(normseq(x))
        elif isinstance(x, str):
            out.append(x)
        else:
            out.append(repr(x))
    return out


# operations on circular regions, which leave the last pixel of every row of the disc alone (see known_findings.txt)
CIRCEDGE = set("""flipvertcircregion mirrortopincircregion mirrorbottomincircregion fliphoricircregion mirrorleftincircregion
    mirrorrightincircregion mirrortopleftincircregion mirrortoprightincircregion mirrorbottomleftincircregion
    mirrorbottomrightincircregion copycircregion invertbitsincircregion magnifyNtimescircregion pixelizenxncircregion
    monocircle colorfiltercircregion brightnessadjcircregion thresholdadjcircregion gammacorrectcircregion
    vertbrightnessgrad2circregion horibrightnessgrad2circregion pastecircfrom erasealternatehorizontallinesincircregion
    eraseeverynthhorizontallineinccircregion itercirclepartvertlineedge""".split())


class Session:
    """One history of operations on a few bitmaps and files."""
    tlimit = 20

    def __init__(self, log, sid):
        self.log, self.sid = log, sid
        self.mem = {}
        self.dir = tempfile.mkdtemp(prefix='ses', dir=os.environ.get('VERIF_TMP', None))
        self.prev = {}       # slot -> bytes at the previous event
        self.dec = {}        # slot -> decoded
        self.dead = False
        self.rng = random.Random(sid)
        self.emit({'op': 'reset', 's': 1, 'd': 0, 'a': [], 'sid': sid})

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def emit(self, ev):
        ev['i'] = len(self.log) + 1
        self.log.append(ev)

    def path(self, k):
        return os.path.join(self.dir, 'f%d.bmp' % k)

    def snapshot(self):
        cur = {}
        for k, b in self.mem.items():
            cur[k] = bytes(b)
        for k in range(FILE0, NSLOT + 1):
            p = self.path(k)
            if os.path.isfile(p):
                with open(p, 'rb') as f:
                    cur[k] = f.read()
        return cur

    def changes(self):
        cur = self.snapshot()
        chg = []
        decs = {}
        for k in sorted(set(cur) | set(self.prev)):
            if cur.get(k) == self.prev.get(k):
                continue
            if k not in cur:
                chg.append({'k': k, 'w': 0, 'hx': '', 'pk': 0})
                decs[k] = None
                continue
            d = decode(cur[k])
            decs[k] = d
            r = dict(d)
            r['k'] = k
            r['pk'] = 0
            if r.get('pal'):
                for j in [k] + sorted(self.prev):
                    o = self.dec.get(j)
                    if o and o['w'] > 0 and o.get('pal') == r['pal'] and not o['bad']:
                        r['pk'] = j
                        r['pal'] = []
                        break
            chg.append(r)
        self.prev = cur
        for k, d in decs.items():
            self.dec[k] = d
        return chg

    # dimensions of a slot as decoded
    def wh(self, k):
        d = self.dec[k]
        return d['w'], d['h']

    def bits(self, k):
        return self.dec[k]['b']

    def poke(self, k, data):
        """the client itself puts a bitmap (or file content) in slot k"""
        if k < FILE0:
            self.mem[k] = array('B', data)
        else:
            with open(self.path(k), 'wb') as f:
                f.write(data)
        self.emit({'op': 'poke', 's': k, 'd': 0, 'a': [], 'exc': '', 'msg': [], 'kf': '',
                   'data': bytes(data).hex(), 'ret': norm(None), 'chg': self.changes()})

    def img(self, k, w, h, bits, px, pal=None):
        if bits < 24 and pal is None:
            pal = list(stdpal(bits))
        self.poke(k, encode(w, h, bits, px, pal))

    def do(self, op, *a, s=1, d=0, kf='', s2=0, x=None):
        """perform operation op of the library with arguments a and log the event"""
        if self.dead:
            return None
        from ops import CALLS
        a = [json_arg(v) for v in a]
        if not kf and op in CIRCEDGE:
            kf = 'CIRCEDGE'
        ev = {'op': op, 's': s, 'd': d, 'a': a, 's2': s2, 'kf': kf, 'exc': ''}
        if x:
            ev.update(x)
        out = io.StringIO()
        ret = None
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.tlimit)
        try:
            with contextlib.redirect_stdout(out):
                call = ev
                if 'nt' in ev:      # arguments that are no integers, given as Python expressions
                    call = dict(ev, a=list(a))
                    for i, v in zip(ev['nt'], ev['py']):
                        call['a'][i - 1] = eval(v)
                ret = CALLS.get(op)(self, call) if op in CALLS else self.default(call)
        except Timeout:
            ev['exc'] = 'Timeout'
        except RecursionError:
            ev['exc'] = 'RecursionError'
        except MemoryError:
            ev['exc'] = 'MemoryError'
        except Exception as x:
            ev['exc'] = type(x).__name__
            ev['why'] = str(x)[:200]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        if isinstance(ret, array) and d and d < FILE0:
            self.mem[d] = ret
            ev['ret'] = {'k': 'img', 'v': 0}
        elif d and d < FILE0 and d in self.mem and ret is not None and isinstance(ret, Img):
            ev['ret'] = {'k': 'img', 'v': 0}
        else:
            ev['ret'] = norm(ret)
        ev['msg'] = sorted({m.strip().split(' Files')[0] + ' Files' if m.startswith('Error:cannot compare') else m.strip() for m in out.getvalue().split('\n') if m.startswith('Error')})
        ev['chg'] = self.changes()
        self.emit(ev)
        if ev['exc']:
            self.dead = True
        return ret

    def default(self, ev):
        import pythonbmp.BITMAPlib as B
        return getattr(B, ev['op'])(self.mem[ev['s']], *copy.deepcopy(ev['a']))


class Img:
    pass


def json_arg(v):
    if isinstance(v, tuple):
        return [json_arg(x) for x in v]
    if isinstance(v, list):
        return [json_arg(x) for x in v]
    if isinstance(v, bool):
        return int(v)
    return v


_pal = {}


def stdpal(bits):
    """default palettes as the specification states them"""
    if not _pal:
        import re
        t = open(os.path.join(os.path.dirname(__file__), '..', 'spec', 'Palettes.tla')).read()
        for b in (1, 4, 8):
            m = re.search(r'Pal%d == <<(.*?)>>' % b, t, re.S)
            _pal[b] = [int(v) for v in m.group(1).split(',')]
    return _pal[bits]
