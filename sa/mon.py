"""Base class of the property monitors."""


class Monitor:
    def event(self, eng, st, ev):
        pass

    def end(self, eng, st, v):
        pass

    def fnret(self, eng, st, bid, v):
        pass

    def store(self, eng, st, base, proj, v, line, bid):
        pass

    def discr(self, eng, st, o, v):
        pass

    def simplify(self, eng, st):
        pass

    def call(self, eng, st, c):
        return None

    def locked(self, eng, st, lid, base):
        pass

    def done(self, eng):
        pass
