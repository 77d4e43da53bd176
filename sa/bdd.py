"""Reduced ordered binary decision diagrams and bit-vectors over them (the value domain of the analysis).

A Boolean is a node index (0 = false, 1 = true).  An integer value is either a Python int (constant, stored
modulo 2^w as unsigned) or a BV: a tuple of nodes, least significant first, implicitly zero-extended.
"""
import sys
sys.setrecursionlimit(1000000)

LV = [1 << 60, 1 << 60]
LO = [0, 1]
HI = [0, 1]
_uniq = {}
_ite = {}
_and = {}
_xor = {}
_not = {0: 1, 1: 0}
VARNAME = {}       # level -> name
_names = {}        # name -> level


class TooBig(Exception):
    pass


LIMIT = 6_000_000


def _mk(l, lo, hi):
    if lo == hi:
        return lo
    k = (l, lo, hi)
    r = _uniq.get(k)
    if r is None:
        r = len(LV)
        if r > LIMIT:
            raise TooBig("decision diagram limit")
        LV.append(l)
        LO.append(lo)
        HI.append(hi)
        _uniq[k] = r
    return r


def var(name, level):
    """Boolean variable; the level is its position in the global order and identifies it."""
    while level in VARNAME and VARNAME[level] != name:
        level += 1
    if name in _names:
        level = _names[name]
    else:
        _names[name] = level
        VARNAME[level] = name
    return _mk(level, 0, 1)


def reset():
    """forget all nodes and variables (values built before are invalid afterwards)"""
    del LV[2:], LO[2:], HI[2:]
    for d in (_uniq, _ite, _and, _xor, VARNAME, _names, TERMS, TERMDEF, LINOF):
        d.clear()
    LINEAR[0] = False
    _not.clear()
    _not.update({0: 1, 1: 0})


def not_(a):
    r = _not.get(a)
    if r is None:
        r = _mk(LV[a], not_(LO[a]), not_(HI[a]))
        _not[a] = r
        _not[r] = a
    return r


def and_(a, b):
    if a == b:
        return a
    if a > b:
        a, b = b, a
    if a == 0:
        return 0
    if a == 1:
        return b
    k = (a, b)
    r = _and.get(k)
    if r is None:
        la, lb = LV[a], LV[b]
        if la == lb:
            r = _mk(la, and_(LO[a], LO[b]), and_(HI[a], HI[b]))
        elif la < lb:
            r = _mk(la, and_(LO[a], b), and_(HI[a], b))
        else:
            r = _mk(lb, and_(a, LO[b]), and_(a, HI[b]))
        _and[k] = r
    return r


def or_(a, b):
    if a == b:
        return a
    if a == 0:
        return b
    if b == 0:
        return a
    if a == 1 or b == 1:
        return 1
    return not_(and_(not_(a), not_(b)))


def xor_(a, b):
    if a == b:
        return 0
    if a > b:
        a, b = b, a
    if a == 0:
        return b
    if a == 1:
        return not_(b)
    k = (a, b)
    r = _xor.get(k)
    if r is None:
        la, lb = LV[a], LV[b]
        if la == lb:
            r = _mk(la, xor_(LO[a], LO[b]), xor_(HI[a], HI[b]))
        elif la < lb:
            r = _mk(la, xor_(LO[a], b), xor_(HI[a], b))
        else:
            r = _mk(lb, xor_(a, LO[b]), xor_(a, HI[b]))
        _xor[k] = r
    return r


def ite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    if g == 0 and h == 1:
        return not_(f)
    if g == 0:
        return and_(not_(f), h)
    if h == 0:
        return and_(f, g)
    k = (f, g, h)
    r = _ite.get(k)
    if r is None:
        l = min(LV[f], LV[g], LV[h])
        f0, f1 = (LO[f], HI[f]) if LV[f] == l else (f, f)
        g0, g1 = (LO[g], HI[g]) if LV[g] == l else (g, g)
        h0, h1 = (LO[h], HI[h]) if LV[h] == l else (h, h)
        r = _mk(l, ite(f0, g0, h0), ite(f1, g1, h1))
        _ite[k] = r
    return r


def constrain(f, c, _cache=None):
    """Coudert-Madre generalised cofactor: agrees with f wherever c holds (c != 0)."""
    if c == 1 or f <= 1:
        return f
    if _cache is None:
        _cache = {}
    if f == c:
        return 1
    k = (f, c)
    r = _cache.get(k)
    if r is not None:
        return r
    lf, lc = LV[f], LV[c]
    if lc < lf:
        if LO[c] == 0:
            r = constrain(f, HI[c], _cache)
        elif HI[c] == 0:
            r = constrain(f, LO[c], _cache)
        else:
            r = constrain(f, or_(LO[c], HI[c]), _cache)   # restrict: drop variables f does not mention
    else:
        c0, c1 = (LO[c], HI[c]) if lc == lf else (c, c)
        if c0 == 0:
            r = constrain(HI[f], c1, _cache)
        elif c1 == 0:
            r = constrain(LO[f], c0, _cache)
        else:
            r = _mk(lf, constrain(LO[f], c0, _cache), constrain(HI[f], c1, _cache))
    _cache[k] = r
    return r


def gcof(f, c, _cache=None):
    """generalised cofactor: gcof(f, c) == gcof(g, c) exactly when f and g agree wherever c holds (c != 0)"""
    if c == 1 or f <= 1:
        return f
    if f == c:
        return 1
    if _cache is None:
        _cache = {}
    k = (f, c)
    r = _cache.get(k)
    if r is not None:
        return r
    lf, lc = LV[f], LV[c]
    l = min(lf, lc)
    c0, c1 = (LO[c], HI[c]) if lc == l else (c, c)
    f0, f1 = (LO[f], HI[f]) if lf == l else (f, f)
    if c0 == 0:
        r = gcof(f1, c1, _cache)
    elif c1 == 0:
        r = gcof(f0, c0, _cache)
    else:
        r = _mk(l, gcof(f0, c0, _cache), gcof(f1, c1, _cache))
    _cache[k] = r
    return r


def support(nodes):
    seen, lv, st = set(), set(), list(nodes)
    while st:
        n = st.pop()
        if n <= 1 or n in seen:
            continue
        seen.add(n)
        lv.add(LV[n])
        st.append(LO[n])
        st.append(HI[n])
    return lv


def anysat(f, prefer=0):
    """One satisfying assignment {level: 0/1} of f (f != 0)."""
    a = {}
    while f > 1:
        first, second = (LO[f], HI[f]) if prefer == 0 else (HI[f], LO[f])
        if first != 0:
            a[LV[f]] = prefer
            f = first
        else:
            a[LV[f]] = 1 - prefer
            f = second
    return a


def somesats(f, n):
    """A few different satisfying assignments (depth-first, bounded)."""
    out = []

    def rec(f, a):
        if len(out) >= n or f == 0:
            return
        if f == 1:
            out.append(dict(a))
            return
        for b, c in ((0, LO[f]), (1, HI[f])):
            a[LV[f]] = b
            rec(c, a)
            del a[LV[f]]
    rec(f, {})
    return out


def randsat(f, rng):
    """one satisfying assignment along a random path (f is not 0)"""
    a = {}
    while f > 1:
        lo, hi = LO[f], HI[f]
        b = 1 if lo == 0 else 0 if hi == 0 else rng.getrandbits(1)
        a[LV[f]] = b
        f = hi if b else lo
    return a


def eval_(f, a):
    while f > 1:
        f = HI[f] if a.get(LV[f], 0) else LO[f]
    return f


# ---------------------------------------------------------------- bit-vectors
class BV:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return "BV(%d:%s)" % (len(self.b), ",".join(map(str, self.b[:6])))

    def __eq__(self, o):
        return isinstance(o, BV) and self.b == o.b

    def __hash__(self):
        return hash(self.b)


def bv(bits):
    bits = list(bits)
    while bits and bits[-1] == 0:
        bits.pop()
    for x in bits:
        if x > 1:
            return BV(tuple(bits))
    r = 0
    for i, x in enumerate(bits):
        if x:
            r |= 1 << i
    return r


def bits(v, w):
    if isinstance(v, BV):
        b = v.b
        if len(b) >= w:
            return list(b[:w])
        return list(b) + [0] * (w - len(b))
    return [(v >> i) & 1 for i in range(w)]


def isc(v):
    return not isinstance(v, BV)


def vec(name, w, base, stride=1):
    return bv([var("%s[%d]" % (name, i), base + i * stride) for i in range(w)])


LINEAR = [False]       # sums of values over many variables become canonical linear terms
LINOF = {}


def lin(addends, const, w):
    """canonical term for the sum of the addends and a constant"""
    key = ("lin", tuple(sorted(addends, key=lambda x: x.b)), const & ((1 << w) - 1), w)
    r = term(key, w)
    LINOF[r.b] = key
    return r


TERMEVAL_LIN = lambda k, a: (sum(ceval(x, a) for x in k[1]) + k[2]) & ((1 << k[3]) - 1)


def _lin(a, b, w):
    """linear form of a + b, or None where bit-level addition is cheap"""
    ka = LINOF.get(getattr(a, "b", None))
    kb = LINOF.get(getattr(b, "b", None))
    if (ka and ka[3] != w) or (kb and kb[3] != w):
        return None
    if isc(b):
        a, b, ka, kb = b, a, kb, ka
    if isc(a):
        return lin(kb[1], kb[2] + a, w) if kb else None
    if not ka and not kb and len(support(a.b)) + len(support(b.b)) < 40:
        return None
    return lin((ka[1] if ka else (a,)) + (kb[1] if kb else (b,)), (ka[2] if ka else 0) + (kb[2] if kb else 0), w)


def badd(a, b, w, cin=0):
    if isc(a) and isc(b) and cin in (0, 1):
        return (a + b + cin) & ((1 << w) - 1)
    if LINEAR[0] and cin == 0 and w == 32:
        r = _lin(a, b, w)
        if r is not None:
            return r
    x, y = bits(a, w), bits(b, w)
    c = cin
    out = []
    for i in range(w):
        t = xor_(x[i], y[i])
        out.append(xor_(t, c))
        c = ite(t, c, x[i])
    return bv(out)


def badd_c(a, b, w, cin=0):
    x, y = bits(a, w), bits(b, w)
    c = cin
    out = []
    for i in range(w):
        t = xor_(x[i], y[i])
        out.append(xor_(t, c))
        c = ite(t, c, x[i])
    return bv(out), c


def bnot(a, w):
    if isc(a):
        return ~a & ((1 << w) - 1)
    return bv([not_(x) for x in bits(a, w)])


def bneg(a, w):
    return badd(bnot(a, w), 0, w, 1)


def bsub(a, b, w):
    if LINEAR[0] and isc(b) and not isc(a) and w == 32 and a.b in LINOF:
        return badd(a, (-b) & 0xFFFFFFFF, w)
    if isc(a) and isc(b):
        return (a - b) & ((1 << w) - 1)
    return badd(a, bnot(b, w), w, 1)


def _bitop(a, b, w, f, cf):
    if isc(a) and isc(b):
        return cf(a, b) & ((1 << w) - 1)
    x, y = bits(a, w), bits(b, w)
    return bv([f(p, q) for p, q in zip(x, y)])


def band(a, b, w):
    return _bitop(a, b, w, and_, lambda p, q: p & q)


def bor(a, b, w):
    return _bitop(a, b, w, or_, lambda p, q: p | q)


def bxor(a, b, w):
    return _bitop(a, b, w, xor_, lambda p, q: p ^ q)


def bite(g, a, b):
    if g == 1:
        return a
    if g == 0:
        return b
    if isc(a) and isc(b):
        if a == b:
            return a
        w = max(a.bit_length(), b.bit_length())
    else:
        w = max(len(a.b) if isinstance(a, BV) else a.bit_length(), len(b.b) if isinstance(b, BV) else b.bit_length())
    return bv([ite(g, p, q) for p, q in zip(bits(a, w), bits(b, w))])


def beq(a, b, w, under=1):
    """a == b; where `under` does not hold the result is free"""
    if isc(a) and isc(b):
        return 1 if a == b else 0
    r = 1
    # from the most significant bit down keeps intermediate diagrams small for interleaved orders
    for p, q in reversed(list(zip(bits(a, w), bits(b, w)))):
        if p == q:
            continue
        if under != 1 and p > 1 and q > 1 and and_(under, xor_(p, q)) == 0:
            continue
        r = and_(r, not_(xor_(p, q)))
        if r == 0:
            return 0
    return r


def bult(a, b, w):
    if isc(a) and isc(b):
        return 1 if a < b else 0
    r = 0
    for p, q in zip(bits(a, w), bits(b, w)):
        d = xor_(p, q)
        r = ite(d, q, r)
    return r


def bslt(a, b, w):
    x, y = bits(a, w), bits(b, w)
    x[-1], y[-1] = not_(x[-1]), not_(y[-1])
    return bult(bv(x), bv(y), w)


def bshl(a, s, w, sw):
    """a << s, s an unsigned sw-bit amount already reduced below w."""
    if isc(s):
        if isc(a):
            return (a << s) & ((1 << w) - 1)
        return bv(([0] * s + bits(a, w))[:w])
    x = bits(a, w)
    for k, sb in enumerate(bits(s, sw)):
        if sb == 0:
            continue
        d = 1 << k
        y = ([0] * min(d, w) + x)[:w]
        x = [ite(sb, q, p) for p, q in zip(x, y)]
    return bv(x)


def bshr(a, s, w, sw, arith=False):
    x = bits(a, w)
    fill = x[-1] if arith else 0
    if isc(s):
        return bv((x[s:] + [fill] * min(s, w))[:w])
    for k, sb in enumerate(bits(s, sw)):
        if sb == 0:
            continue
        d = 1 << k
        y = (x[d:] + [fill] * min(d, w))[:w]
        x = [ite(sb, q, p) for p, q in zip(x, y)]
    return bv(x)


def sext(a, w, to):
    if isc(a):
        return a | (((1 << to) - 1) ^ ((1 << w) - 1)) if (a >> (w - 1)) & 1 else a
    x = bits(a, w)
    return bv(x + [x[-1]] * (to - w))


def trunc(a, w):
    if isc(a):
        return a & ((1 << w) - 1)
    return bv(bits(a, w))


def nonzero(a, w):
    if isc(a):
        return 1 if a & ((1 << w) - 1) else 0
    r = 0
    for x in bits(a, w):
        r = or_(r, x)
    return r


# ------------------------------------------------- canonical uninterpreted terms
TERMS = {}        # key -> value
TERMDEF = {}      # level -> (key, bit index)
_termbase = [4096]
DATA = 1 << 40      # bit i of data word or term number k lies at DATA + i * STRIDE + k: comparisons of two of them stay small
STRIDE = 1 << 24


def term(key, w):
    """w fresh Boolean variables standing for the value of an uninterpreted operation; equal keys share them."""
    r = TERMS.get(key)
    if r is None:
        base = _termbase[0]
        _termbase[0] += 1
        out = []
        for i in range(w):
            l = DATA + i * STRIDE + base
            out.append(var("t%d[%d]" % (base, i), l))
            TERMDEF[l] = (key, i)
        r = bv(out)
        TERMS[key] = r
    return r


def _s(v, w):
    return v - (1 << w) if (v >> (w - 1)) & 1 else v


def udivrem(a, b, w):
    if isc(a) and isc(b) and b:
        return a // b, a % b
    if isc(b) and b and b & (b - 1) == 0:
        k = b.bit_length() - 1
        x = bits(a, w)
        return bv(x[k:]), bv(x[:k])
    if w > 32 and sigbits(a) <= 32 and sigbits(b) <= 32:
        return udivrem(trunc(a, 32), trunc(b, 32), 32)
    if isc(b) and b and sigbits(a) <= 10:
        # few bits: exactly, by long division
        n, x = sigbits(a), bits(a, w)
        q, r = [0] * n, 0
        m = b.bit_length() + 1
        for i in reversed(range(n)):
            r = bv([x[i]] + bits(r, m))
            ge = not_(bult(r, b, m + 1))
            q[i] = ge
            r = trunc(bite(ge, bsub(r, b, m + 1), r), m)
        return bv(q), r
    g = or_(beq(a, 0, w), beq(b, 0, w))
    one = beq(b, 1, w)
    lt = bult(a, b, w)
    q, r = term(("udiv", a, b, w), w), term(("urem", a, b, w), w)
    return bite(or_(g, lt), 0, bite(one, a, q)), bite(lt, a, bite(or_(g, one), 0, r))


def sdivrem(a, b, w):
    if isc(a) and isc(b) and b:
        x, y = _s(a, w), _s(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & ((1 << w) - 1), (x - q * y) & ((1 << w) - 1)
    # both operands known non-negative: the unsigned operation
    if bits(a, w)[-1] == 0 and bits(b, w)[-1] == 0:
        return udivrem(a, b, w)
    # sign-extended narrow operands
    if w > 32 and _ext_norm(a, w)[0] == "s" and _ext_norm(b, w)[0] == "s":
        x, y = trunc(a, 32), trunc(b, 32)
        q, r = sdivrem(x, y, 32)
        ov = and_(beq(x, 1 << 31, 32), beq(y, (1 << 32) - 1, 32))
        return bite(ov, 1 << 31, sext(q, 32, w)), bite(ov, 0, sext(r, 32, w))
    g = or_(beq(a, 0, w), beq(b, 0, w))
    one, neg = beq(b, 1, w), beq(b, (1 << w) - 1, w)
    q, r = term(("sdiv", a, b, w), w), term(("srem", a, b, w), w)
    return bite(g, 0, bite(one, a, bite(neg, bneg(a, w), q))), bite(or_(g, or_(one, neg)), 0, r)


def _ext_norm(v, w):
    """(kind, narrow value) of an operand of a wide product: how it extends a 32-bit quantity."""
    x = bits(v, w)
    if all(t == 0 for t in x[32:]):
        return ("z", bv(x[:32]))
    if all(t == x[31] for t in x[32:]):
        return ("s", bv(x[:32]))
    return ("w", v)


def sigbits(v):
    if isc(v):
        return max(1, v.bit_length())
    n = len(v.b)
    while n > 1 and v.b[n - 1] == 0:
        n -= 1
    return n


def bmul(a, b, w):
    if isc(a) and isc(b):
        return (a * b) & ((1 << w) - 1)
    for p, q in ((a, b), (b, a)):
        if isc(p):
            if p == 0:
                return 0
            if bin(p).count("1") <= 4:
                r = 0
                for i in range(p.bit_length()):
                    if (p >> i) & 1:
                        r = badd(r, bshl(q, i, w, 8) if i < w else 0, w)
                return r
    for p, q in ((a, b), (b, a)):
        n = sigbits(p)
        if n <= 6:
            pb, r = bits(p, n), 0
            for i in range(n):
                if pb[i]:
                    r = badd(r, bite(pb[i], bshl(q, i, w, 8) if i < w else 0, 0), w)
            return r
    if w <= 32:
        x, y = sorted((trunc(a, w), trunc(b, w)), key=_vk)
        return term(("mul", x, y, w), w)
    lo = bmul(trunc(a, 32), trunc(b, 32), 32)
    ea, eb = sorted((_ext_norm(a, w), _ext_norm(b, w)), key=lambda t: (t[0], _vk(t[1])))
    if ea[0] != "w" and eb[0] != "w" and w >= 64:
        hi = bits(term(("mulh", ea, eb, 64), 32), 32)
        sg = hi[31] if "s" in (ea[0], eb[0]) else 0
        return bv(bits(lo, 32) + hi + [sg] * (w - 64))
    hi = term(("mulh", ea, eb, w), w - 32)
    return bv(bits(lo, 32) + bits(hi, w - 32))


def _vk(v):
    return (0, v) if isc(v) else (1,) + v.b


def ceval(v, a, memo=None):
    """Concrete value of an abstract integer under an assignment of the input variables; uninterpreted terms are
    evaluated by their definition (used only to confirm a reported witness)."""
    if isc(v):
        return v
    r = 0
    for i, f in enumerate(v.b):
        if evalfull(f, a):
            r |= 1 << i
    return r


def evalfull(f, a):
    while f > 1:
        l = LV[f]
        if l not in a:
            d = TERMDEF.get(l)
            a[l] = (termval(d[0], a) >> d[1]) & 1 if d else 0
        f = HI[f] if a[l] else LO[f]
    return f


TERMEVAL = {}     # op -> function(key, assignment) for model-specific terms


def termval(key, a):
    ck = ("T",) + key if False else ("#", key)
    if ck in a:
        return a[ck]
    op = key[0]
    if op == "lin":
        r = TERMEVAL_LIN(key, a)
    elif op in TERMEVAL:
        r = TERMEVAL[op](key, a)
    elif op == "mul":
        r = ceval(key[1], a) * ceval(key[2], a) & ((1 << key[3]) - 1)
    elif op == "mulh":
        w = key[3]

        def ex(e):
            k, v = e
            x = ceval(v, a)
            return _s(x, 32) if k == "s" else x
        r = ((ex(key[1]) * ex(key[2])) & ((1 << w) - 1)) >> 32
    elif op == "mulovf":
        w, sg = key[3], key[4]
        x, y = ceval(key[1], a), ceval(key[2], a)
        if sg:
            p = _s(x, w) * _s(y, w)
            r = 0 if -(1 << (w - 1)) <= p < (1 << (w - 1)) else 1
        else:
            r = 1 if x * y >> w else 0
    elif op in ("udiv", "urem"):
        x, y = ceval(key[1], a), ceval(key[2], a)
        r = 0 if y == 0 else (x // y if op == "udiv" else x % y)
    elif op in ("sdiv", "srem"):
        w = key[3]
        x, y = ceval(key[1], a), ceval(key[2], a)
        r = 0
        if y:
            q, m = sdivrem(x, y, w)
            r = q if op == "sdiv" else m
    else:
        h = hash((repr(key[0]),) + tuple(ceval(k, a) if isinstance(k, (int, BV)) else repr(k) for k in key[1:]))
        r = h & ((1 << 64) - 1)
    a[ck] = r
    return r
