"""Arrays with symbolic contents and indices: uninterpreted initial contents plus a write log."""
import bdd as B
from bdd import BV
from interp import Model, Unsupported, isint


class Base:
    """initial contents: seeded elements, the rest are canonical select terms"""

    def __init__(self, name, w, care=1, zero0=False, iw=64):
        self.name, self.w, self.care, self.zero0, self.iw = name, w, care, zero0, iw
        self.seeds = {}

    def canon(self, idx):
        if isinstance(idx, int):
            return idx
        if self.care == 1:
            return idx
        return B.bv([B.gcof(x, self.care) for x in B.bits(idx, self.iw)])

    def seed(self, idx, val):
        self.seeds[self.canon(idx)] = val

    def select(self, idx):
        k = self.canon(idx)
        v = self.seeds.get(k)
        if v is None:
            v = B.term(("sel", self.name, k), self.w)
        if self.zero0:
            v = B.bite(B.beq(idx, 0, self.iw), 0, v)
        return v


class SymArr(Model):
    __slots__ = ("base", "n", "log")
    k = "vec"

    def __init__(self, base, n, log=()):
        self.base, self.n, self.log = base, n, log

    def mkey(self):
        return ("symarr", self.base.name, self.n if isinstance(self.n, int) else id(self.n))

    def alen(self):
        return self.n

    def aread(self, I, e):
        if type(e) is tuple:
            e = e[1]
        v = self.base.select(e)
        for g, i, x in self.log:
            v = B.bite(B.and_(g, B.beq(i, e, self.base.iw)), x, v)
        return v

    def awrite(self, I, e, new, g):
        if type(e) is tuple:
            e = e[1]
        if not isint(new):
            raise Unsupported("non-integer element")
        if g == 0:
            return self
        return SymArr(self.base, self.n, self.log + ((g, self.base.canon(e), new),))

    def merged(self, g, o):
        a, b = self.log, o.log
        if a is b or a == b:
            return self
        k = 0
        while k < len(a) and k < len(b) and (a[k] is b[k] or a[k] == b[k]):
            k += 1
        ng = B.not_(g)
        log = a[:k] + tuple((B.and_(g, h), i, v) for h, i, v in a[k:]) + tuple((B.and_(ng, h), i, v) for h, i, v in b[k:])
        return SymArr(self.base, self.n, tuple(e for e in log if e[0]))

    def awindow(self, I, s, n):
        return Win(self, s, n)


class Win(Model):
    """read-only view"""
    __slots__ = ("a", "s", "n")

    def __init__(self, a, s, n):
        self.a, self.s, self.n = a, s, n

    def alen(self):
        return self.n

    def aread(self, I, e):
        if type(e) is tuple:
            e = e[1]
        return self.a.aread(I, B.badd(self.s, e, 64))


def _sel(key, a):
    """definition of an initial element for witnesses: a fixed pseudo-random function of name and index"""
    i = B.ceval(key[2], a)
    ov = a.get(("arr", key[1], i))
    if ov is not None:
        return ov
    h = (hash((key[1], i)) * 0x9E3779B97F4A7C15) & ((1 << 64) - 1)
    return h


B.TERMEVAL["sel"] = _sel
