"""A property's check."""


class Prop:
    quick = 200
    thorough = 4000
    chunk = 120
    assumptions = []
    also = []

    def __init__(self, name, fn, **kw):
        self.name, self.fn = name, fn
        self.mcs = kw.pop('mcs', [])
        self.__dict__.update(kw)

    def session(self, ses, sid, tier):
        # every n-th session exercises the helpers on which the operations of the property rest
        for n, fn in self.also:
            if sid % n == n - 1:
                return fn(ses, sid, tier)
        self.fn(ses, sid, tier)

    def mc(self, tier):
        return [m[1:] for m in self.mcs if tier == 'thorough' or m[0] == 'quick']


