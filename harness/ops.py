"""How an operation of the specification is performed on the real library."""
import copy
from array import array


def B():
    import pythonbmp.BITMAPlib as m
    return m


def _new(ses, ev):
    return B().newBMP(*ev['a'])


def _save(ses, ev):
    B().saveBMP(ses.path(ev['d']), ses.mem[ev['s']])


def _load(ses, ev):
    r = B().loadBMP(ses.path(ev['s']))
    return [] if isinstance(r, array) and len(r) == 0 else r


def bufarg(op):
    """the first argument is a byte buffer"""
    def f(ses, ev):
        return getattr(B(), op)(ses.mem[ev['s']], array('B', ev['a'][0]), *copy.deepcopy(ev['a'][1:]))
    return f


def listof(it):
    return None if it is None else list(it)


CALLS = {
    'pasterect': bufarg('pasterect'),
    'convertselection2BMP': lambda ses, ev: B().convertselection2BMP(array('B', ev['a'][0])),
    'itercopyrect': lambda ses, ev: listof(B().itercopyrect(ses.mem[ev['s']], *ev['a'])),
    'newBMP': _new,
    'saveBMP': _save,
    'loadBMP': _load,
    'copy': lambda ses, ev: array('B', ses.mem[ev['s']]),
}


def bool_last(name, n):
    """operations whose last (n-th) argument is a flag"""
    def f(ses, ev):
        a = copy.deepcopy(ev['a'])
        if len(a) == n:
            a[-1] = bool(a[-1])
        return getattr(B(), name)(ses.mem[ev['s']], *a)
    CALLS[name] = f


bool_last('circle', 5)
bool_last('circlevec', 4)
bool_last('ellipse', 6)
