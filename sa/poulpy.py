"""Plaintext meaning of the poulpy operations the machine uses (trusted, written from poulpy-schemes 0.4.1).

A ciphertext is represented by what it decrypts to: a word (W), a prepared word (WP), or a polynomial with n torus
coefficients in units of 1/16 (P). Scratch memory that was taken and not yet written is dirty (fresh unknowns on use)."""
import bdd as B
from bdd import BV
import stdmodels
from stdmodels import some, NONE, ok, deep
from interp import (Agg, Ref, Union, FnV, StrV, Top, UNINIT, MapV, Model, UNIT, Unsupported, merge, isint, Call, _NoField)

BDD = "poulpy_schemes::bin_fhe::bdd_arithmetic::"
CORE = "poulpy_core::"
HAL = "poulpy_hal::"
CW = 4          # bits of a torus coefficient
ONE = 1 << (CW - 2)

M = dict(stdmodels.M)


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


class W(Model):
    """FheUint<u32>"""
    __slots__ = ("v",)
    TY = "FheUint"

    def __init__(self, v):
        self.v = v

    def mkey(self):
        return ("W",)

    def merged(self, g, o):
        return W(B.bite(g, self.v, o.v))

    def __repr__(self):
        return "W(%r)" % (self.v,)


class WP(Model):
    """FheUintPrepared<u32>"""
    __slots__ = ("v",)
    TY = "FheUintPrepared"

    def __init__(self, v):
        self.v = v

    def mkey(self):
        return ("WP",)

    def merged(self, g, o):
        return WP(B.bite(g, self.v, o.v))

    def __repr__(self):
        return "WP(%r)" % (self.v,)


class P(Model):
    """GLWE or its plaintext: coefficients of the message polynomial"""
    __slots__ = ("c",)
    TY = "GLWE"

    def __init__(self, c):
        self.c = tuple(c)

    def mkey(self):
        return ("P", len(self.c))

    def merged(self, g, o):
        return P(B.bite(g, x, y) for x, y in zip(self.c, o.c))

    def __repr__(self):
        return "P(%d)" % len(self.c)


class Bit(Model):
    """LWE or GGSW encryption of a bit"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def mkey(self):
        return ("Bit",)

    def merged(self, g, o):
        return Bit(B.ite(g, self.b, o.b))


class BitView(Model):
    """mutable view of bit i of the prepared word behind ref"""
    __slots__ = ("ref", "i")

    def __init__(self, ref, i):
        self.ref, self.i = ref, i

    def mkey(self):
        return ("BitView", self.ref.key(), self.i)


class Opaque(Model):
    """keys, layouts, sources, ... : name identifies the object"""
    __slots__ = ("name", "TYN")

    def __init__(self, name):
        self.name = name

    def mkey(self):
        return ("Opaque", self.name)

    def merged(self, g, o):
        return self

    def deref(self, I):
        return self

    def field(self, I, i):
        return Opaque("%s.%d" % (self.name, i))

    def __repr__(self):
        return "Opaque(%s)" % self.name


class Scratch(Opaque):
    __slots__ = ()

    def __init__(self, name="scratch"):
        self.name = name


class Retr(Model):
    """GLWEBlindRetriever: number of accumulators (their contents are reset by every retrieve)"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def mkey(self):
        return ("Retr", self.n)

    def merged(self, g, o):
        return self


class ModuleV(Opaque):
    __slots__ = ()
    TY = "Module"


MODULE = ModuleV("module")
SCRATCH = Scratch()


# ------------------------------------------------------------------ helpers
def target(I, r):
    """innermost reference of a chain"""
    while isinstance(r, Ref):
        v = I.read(r)
        if not isinstance(v, Ref):
            return r
        r = v
    return r


def val(I, r):
    while isinstance(r, Ref):
        r = I.read(r)
    return r


_junk = [0]


def junkbits(I, w):
    _junk[0] += 1
    k = _junk[0]
    return B.bv([B.var("junk%d[%d]" % (k, i), 9_000_000 + k * 64 + i) for i in range(w)])


def renew(I, bits):
    """bits produced by a bootstrapping or by a circuit over bootstrapped selectors: in a freshness analysis unknowns of
    their own, so that what still depends on an older ciphertext is exactly what was not renewed"""
    l = I.mode.get("renewed")
    if l is None:
        return bits
    v = B.bits(junkbits(I, len(bits)), len(bits))
    l.update(B.support(v))
    return v


def nof(I):
    return I.mode.get("n", 1)


def poly(I, v):
    v = val(I, v)
    if isinstance(v, P):
        return v
    if isinstance(v, Top):
        return P([junkbits(I, CW) for _ in range(nof(I))])
    raise Unsupported("polynomial expected, got %r" % (v,))


def word(I, v):
    v = val(I, v)
    if isinstance(v, W):
        return v.v
    if isinstance(v, Top):
        return junkbits(I, 32)
    raise Unsupported("encrypted word expected, got %r" % (v,))


def setv(I, r, v):
    r = target(I, r)
    if isinstance(r, BitView):
        raise Unsupported("write to bit view")
    I.write(r, v)


def wbits(v):
    return B.bits(v, 32)


def conc(v, what="size"):
    if not isinstance(v, int):
        raise Unsupported("%s is not a constant" % what)
    return v


def coefbit(I, c):
    """bit encoded by a coefficient; anything but 0 or 1/4 is recorded as ill-formed"""
    b = B.bits(c, CW)
    bad = 0
    for i in range(CW):
        if i != CW - 2:
            bad = B.or_(bad, b[i])
    if bad:
        I.mode["illformed"] = B.or_(I.mode.get("illformed", 0), B.and_(I.pc, bad))
    return b[CW - 2]


def constp(I, b):
    """polynomial with the bit as constant coefficient"""
    return P([B.bv([0] * (CW - 2) + [b, 0])] + [0] * (nof(I) - 1))


def mkf(trait, name):
    return dict(tr=trait, n=name, id="?%s::%s" % (trait, name), p="%s::%s" % (trait, name), a=[])


def getbit(I, obj, i):
    """bit i of an object implementing GetGGSWBit"""
    v = val(I, obj)
    if isinstance(v, WP):
        if not isinstance(i, int):
            raise Unsupported("symbolic bit index")
        if i >= 32:
            I.panic(1, "bit index out of range")
            return 0
        return wbits(v.v)[i]
    r = I.callf(mkf(BDD + "GetGGSWBit", "get_bit"), {}, [target(I, obj) if isinstance(obj, Ref) else obj, i], None)
    if I.pc == 0:
        return 0
    r = val(I, r)
    if isinstance(r, Bit):
        return r.b
    raise Unsupported("selector bit %r" % (r,))


# ----------------------------------------------------------- module, scratch
@model(HAL + "api::ModuleN::n", HAL + "layouts::Module::n", CORE + "layouts::LWEInfos::n")
def _(I, c):
    return nof(I)


@model(HAL + "api::ModuleLogN::log_n")
def _(I, c):
    return nof(I).bit_length() - 1


M[HAL + "api::ModuleNew::new"] = lambda I, c: MODULE
M[HAL + "api::ScratchAvailable::available"] = lambda I, c: 1 << 40
M[HAL + "api::ScratchOwnedAlloc::alloc"] = lambda I, c: SCRATCH
M[HAL + "api::ScratchOwnedBorrow::borrow"] = lambda I, c: SCRATCH
for _n in ("GLWENormalize::glwe_normalize_tmp_bytes", "GLWERotate::glwe_rotate_tmp_bytes", "GLWETrace::glwe_trace_tmp_bytes",
           "layouts::GLWE::bytes_of_from_infos",
           "encryption::glwe_automorphism_key::<impl poulpy_core::layouts::GLWEAutomorphismKey>::encrypt_sk_tmp_bytes"):
    M[CORE + _n] = lambda I, c: 1
for _n in ("BDDKeyEncryptSk::bdd_key_encrypt_sk_tmp_bytes", "FheUintPrepare::fhe_uint_prepare_tmp_bytes",
           "GLWEBlindRetrieval::glwe_blind_retrieval_tmp_bytes", "GLWEBlindRetriever::retrieve_tmp_bytes",
           "GLWEBlindRotation::glwe_blind_rotation_tmp_bytes"):
    M[BDD + _n] = lambda I, c: 1


@model(HAL + "api::scratch::<impl poulpy_hal::layouts::Scratch>::split_mut")
def _(I, c):
    n = conc(c.args[1], "number of scratch parts")
    return Agg("tuple", [Agg("vec", [Scratch("scratch%d" % i) for i in range(n)]), SCRATCH])


@model(HAL + "api::TakeSlice::take_slice")
def _(I, c):
    n = conc(c.args[1])
    cell = I.newcell(Agg("array", [Top("dirty")] * n))
    return Agg("tuple", [Ref(cell, (), (0, n)), SCRATCH])


@model(CORE + "ScratchTakeCore::take_glwe", CORE + "ScratchTakeCore::take_glwe_plaintext", CORE + "ScratchTakeCore::take_ggsw",
       CORE + "ScratchTakeCore::take_lwe")
def _(I, c):
    return Agg("tuple", [Top("dirty"), SCRATCH])


@model(CORE + "ScratchTakeCore::take_glwe_slice")
def _(I, c):
    n = conc(c.args[1])
    return Agg("tuple", [Agg("vec", [Top("dirty")] * n), SCRATCH])


# ----------------------------------------------------------------- layouts
for _n in ("layouts::GGSWInfos::ggsw_layout", "layouts::GLWEInfos::glwe_layout",
           "layouts::GLWEAutomorphismKeyHelper::automorphism_key_infos"):
    M[CORE + _n] = lambda I, c: Opaque("layout")


@model(CORE + "layouts::GLWE::alloc_from_infos")
def _(I, c):
    return P([0] * nof(I))


@model(BDD + "FheUint::alloc_from_infos", BDD + "FheUint::alloc")
def _(I, c):
    return W(0)


@model(BDD + "FheUintPrepared::alloc_from_infos", BDD + "FheUintPrepared::alloc")
def _(I, c):
    return WP(0)


# ------------------------------------------------------------ GLWE operations
@model(CORE + "GLWECopy::glwe_copy")
def _(I, c):
    setv(I, c.args[1], val(I, c.args[2]))
    return UNIT


def _pw(f):
    def g(I, c):
        a, b = val(I, c.args[1]), val(I, c.args[2])
        if isinstance(a, W) and isinstance(b, W):
            raise Unsupported("linear operation on packed words")
        a, b = poly(I, a), poly(I, b)
        setv(I, c.args[1], P(f(x, y) for x, y in zip(a.c, b.c)))
        return UNIT
    return g


M[CORE + "GLWEAdd::glwe_add_inplace"] = _pw(lambda x, y: B.badd(x, y, CW))
M[CORE + "GLWESub::glwe_sub_inplace"] = _pw(lambda x, y: B.bsub(x, y, CW))
M[CORE + "GLWENormalize::glwe_normalize_inplace"] = lambda I, c: UNIT


def rot(p, k):
    """p * X^k modulo X^n + 1"""
    n = len(p.c)
    k %= 2 * n
    out = [0] * n
    for i, x in enumerate(p.c):
        j = (i + k) % (2 * n)
        out[j % n] = x if j < n else B.bneg(x, CW)
    return P(out)


@model(CORE + "GLWERotate::glwe_rotate_inplace")
def _(I, c):
    k = c.args[1]
    p = poly(I, c.args[2])
    n = nof(I)
    if isinstance(k, int):
        k = B._s(k, 64)
        setv(I, c.args[2], rot(p, k))
        return UNIT
    lw = (2 * n).bit_length() - 1
    for i in range(lw):
        b = B.bits(k, lw)[i]
        q = rot(p, 1 << i)
        p = P(B.bite(b, x, y) for x, y in zip(q.c, p.c))
    setv(I, c.args[2], p)
    return UNIT


@model(CORE + "GLWERotate::glwe_rotate")
def _(I, c):
    k = B._s(conc(c.args[1], "rotation"), 64)
    setv(I, c.args[2], rot(poly(I, c.args[3]), k))
    return UNIT


@model(CORE + "GLWETrace::glwe_trace")
def _(I, c):
    if c.args[2] != 0:
        raise Unsupported("partial trace")
    p = poly(I, c.args[3])
    setv(I, c.args[1], P([p.c[0]] + [0] * (len(p.c) - 1)))
    return UNIT


@model(CORE + "GLWETrace::glwe_trace_inplace")
def _(I, c):
    if c.args[2] != 0:
        raise Unsupported("partial trace")
    p = poly(I, c.args[1])
    setv(I, c.args[1], P([p.c[0]] + [0] * (len(p.c) - 1)))
    return UNIT


@model(CORE + "utils::<impl poulpy_core::layouts::GLWEPlaintext>::encode_vec_i64")
def _(I, c):
    k = val(I, c.args[2])
    k = conc(k.f[0] if isinstance(k, Agg) else k, "precision")
    if k > CW:
        raise Unsupported("precision %d" % k)
    v = I.read(c.args[1])
    v = val(I, v)
    n = nof(I)
    if len(v.f) != n:
        raise Unsupported("encoding of %d values" % len(v.f))
    out = []
    for x in v.f:
        if isinstance(x, Top):
            x = junkbits(I, CW)
        out.append(B.bv([0] * (CW - k) + B.bits(x, 64)[:k]))
    setv(I, c.args[0], P(out))
    return UNIT


@model(CORE + "utils::<impl poulpy_core::layouts::GLWEPlaintext>::decode_vec_i64")
def _(I, c):
    k = val(I, c.args[2])
    k = conc(k.f[0] if isinstance(k, Agg) else k, "precision")
    p = poly(I, c.args[0])
    r = target(I, c.args[1])
    for i, x in enumerate(p.c):
        y = B.badd(x, (1 << (CW - k)) >> 1, CW)
        y = B.bv(B.bits(y, CW)[CW - k:])
        I.write(I.sub(r, i), B.sext(y, k, 64))
    return UNIT


def use_sk(I, what, sk):
    l = I.mode.get("sklog")
    if l is not None:
        l.append((what, I.stack[-1] if I.stack else "?", I.loc))


def srclog(I, l):
    """secret key and streams of an encryption"""
    if I.mode.get("srclog") is not None:
        out = []
        for x in l:
            while isinstance(x, Ref):
                x = I.read(x)
            out.append(x.name if isinstance(x, Opaque) else repr(x)[:40])
        I.mode["srclog"].append(tuple(out) + (I.stack[-1] if I.stack else "?",))


@model(CORE + "encryption::glwe::<impl poulpy_core::layouts::GLWE>::encrypt_sk")
def _(I, c):
    use_sk(I, "encrypt", c.args[3])
    srclog(I, c.args[3:6])
    setv(I, c.args[0], poly(I, c.args[2]))
    return UNIT


@model(CORE + "decryption::glwe::<impl poulpy_core::layouts::GLWE>::decrypt")
def _(I, c):
    use_sk(I, "decrypt", c.args[3])
    setv(I, c.args[2], poly(I, c.args[0]))
    return UNIT


@model(CORE + "noise::glwe::<impl poulpy_core::layouts::GLWE>::noise")
def _(I, c):
    use_sk(I, "noise", c.args[3])
    return Top("noise")


M[HAL + "layouts::Stats::max"] = lambda I, c: Top("noise")
M[HAL + "layouts::Stats::std"] = lambda I, c: Top("noise")


# --------------------------------------------------------- blind access
@model(BDD + "GLWEBlindRotation::glwe_blind_rotation_inplace")
def _(I, c):
    _, res, addr, sign, rsh, mask, lsh = c.args[:7]
    p = poly(I, res)
    sign = conc(sign, "sign")
    for i in range(conc(mask, "mask")):
        k = 1 << (i + conc(lsh, "shift"))
        q = rot(p, k if sign else -k)
        b = getbit(I, addr, i + conc(rsh, "shift"))
        if I.pc == 0:
            return None
        p = P(B.bite(b, x, y) for x, y in zip(q.c, p.c))
    setv(I, res, p)
    return UNIT


def _swap(rev):
    def f(I, c):
        _, res, addr, rsh, mask = c.args[:5]
        rsh, mask = conc(rsh), conc(mask)
        r = target(I, res)
        v = I.read(r)
        l = [poly(I, x) for x in v.f]
        for i in (reversed(range(mask)) if rev else range(mask)):
            t = 1 << (mask - i - 1)
            b = getbit(I, addr, rsh + mask - i - 1)
            if I.pc == 0:
                return None
            for j in range(t):
                if j + t < len(l):
                    x, y = l[j], l[j + t]
                    l[j] = P(B.bite(b, q, p) for p, q in zip(x.c, y.c))
                    l[j + t] = P(B.bite(b, p, q) for p, q in zip(x.c, y.c))
        I.write(r, Agg(v.k, l, v.id, v.var, v.env))
        return UNIT
    return f


M[BDD + "GLWEBlindRetrieval::glwe_blind_retrieval_statefull"] = _swap(False)
M[BDD + "GLWEBlindRetrieval::glwe_blind_retrieval_statefull_rev"] = _swap(True)


@model(BDD + "GLWEBlindRetriever::alloc")
def _(I, c):
    return Retr((conc(c.args[1]) - 1).bit_length() if c.args[1] else 32)


@model(BDD + "GLWEBlindRetriever::retrieve")
def _(I, c):
    slf, _, res, data, sel, off = c.args[:6]
    n = val(I, slf).n
    off = conc(off)
    ds = I.read(data) if isinstance(data, Ref) else data
    ds = val(I, ds)
    accs = [[None, 0] for _ in range(n)]

    def add(a, i):
        if i >= n:
            I.panic(1, "retriever index")
            return
        if accs[i][1] == 0:
            accs[i] = [a, 1]
        else:
            b = getbit(I, sel, i + off)
            if I.pc == 0:
                return
            accs[i][0] = P(B.bite(b, y, x) for x, y in zip(accs[i][0].c, a.c))
            if i + 1 < n:
                add(accs[i][0], i + 1)
            accs[i][1] = 0
    for cnt, d in enumerate(ds.f):
        if not cnt < 1 << n:
            I.panic(1, "accumulating limit")
            return None
        add(poly(I, d), 0)
        if I.pc == 0:
            return None
    if n == 0:
        I.panic(1, "no accumulator")
        return None
    for i in range(n - 1):
        if accs[i][1] != 0:
            add(accs[i][0], i + 1)
            if I.pc == 0:
                return None
            accs[0][1] = 0
    last = accs[-1][0]
    setv(I, res, last if last is not None else Top("dirty"))
    return UNIT


@model(BDD + "GLWEBlinSelection::glwe_blind_selection")
def _(I, c):
    _, res, m, k, rsh, mask = c.args[:6]
    rsh, mask = conc(rsh), conc(mask)
    if rsh + mask > 32:
        I.panic(1, "selection range")
        return None
    m = val(I, m)
    a = {}
    for key, r in m.items:
        a[conc(key, "selection key")] = val(I, r)
    isw = all(isinstance(x, W) for x in a.values())
    if not isw:
        raise Unsupported("selection among %r" % (list(a.values())[:1],))
    # the entries above the selected range never take part
    cur = {kk: x.v for kk, x in a.items()}
    for i in range(mask):
        t = 1 << (mask - i - 1)
        b = getbit(I, k, rsh + mask - i - 1)
        if I.pc == 0:
            return None
        for j in range(t):
            hi, lo = cur.pop(j, None), cur.pop(j + t, None)
            if lo is None and hi is None:
                continue
            cur[j] = B.bite(b, lo if lo is not None else 0, hi if hi is not None else 0)
    setv(I, res, W(cur.get(0, 0)))
    I.mode.setdefault("selections", []).append((rsh, mask, sorted(a)))
    return UNIT


# ------------------------------------------------------------ FheUint operations
@model(BDD + "FheUint::pack")
def _(I, c):
    v = val(I, c.args[2])
    bits = []
    for x in v.f[:32]:
        x = val(I, x)
        if isinstance(x, Bit):
            bits.append(x.b)
        else:
            bits.append(coefbit(I, poly(I, x).c[0]))
    bits += [0] * (32 - len(bits))
    setv(I, c.args[0], W(B.bv(bits)))
    return UNIT


def _splice(size):
    def f(I, c):
        slf, _, dst, src, a, b = c.args[:6]
        dst, src = conc(dst), conc(src)
        if dst >= 32 // size or src >= 32 // size:
            I.panic(1, "splice position")
            return None
        x, y = wbits(word(I, a)), wbits(word(I, b))
        x[size * dst:size * dst + size] = y[size * src:size * src + size]
        setv(I, slf, W(B.bv(x)))
        return UNIT
    return f


M[BDD + "FheUint::splice_u8"] = _splice(8)
M[BDD + "FheUint::splice_u16"] = _splice(16)


@model(BDD + "FheUint::zero_byte")
def _(I, c):
    b = conc(c.args[2])
    x = wbits(word(I, c.args[0]))
    if b >= 4:
        raise Unsupported("zero_byte position")
    x[8 * b:8 * b + 8] = [0] * 8
    setv(I, c.args[0], W(B.bv(x)))
    return UNIT


@model(BDD + "FheUint::sext")
def _(I, c):
    b = conc(c.args[2])
    if b >= 4:
        I.panic(1, "sext position")
        return None
    x = wbits(word(I, c.args[0]))
    for i in range(8 * b + 8, 32):
        x[i] = x[8 * b + 7]
    setv(I, c.args[0], W(B.bv(x)))
    return UNIT


@model(BDD + "FheUint::get_bit_glwe")
def _(I, c):
    i = conc(c.args[2])
    if i >= 32:
        raise Unsupported("bit position")
    setv(I, c.args[3], constp(I, wbits(word(I, c.args[0]))[i]))
    return UNIT


@model(BDD + "FheUint::get_bit_lwe")
def _(I, c):
    i = conc(c.args[2])
    if i >= 32:
        raise Unsupported("bit position")
    setv(I, c.args[3], Bit(wbits(word(I, c.args[0]))[i]))
    return UNIT


@model(BDD + "FheUint::decrypt", BDD + "FheUintPrepared::decrypt")
def _(I, c):
    use_sk(I, "decrypt", c.args[2])
    v = val(I, c.args[0])
    if isinstance(v, (W, WP)):
        return v.v
    return junkbits(I, 32)


@model(BDD + "FheUint::noise", BDD + "FheUintPrepared::noise")
def _(I, c):
    use_sk(I, "noise", c.args[3])
    return Top("noise")


@model(BDD + "FheUint::encrypt_sk")
def _(I, c):
    use_sk(I, "encrypt", c.args[3])
    setv(I, c.args[0], W(c.args[2]))
    return UNIT


@model(BDD + "FheUintPrepared::encrypt_sk")
def _(I, c):
    use_sk(I, "encrypt", c.args[3])
    setv(I, c.args[0], WP(c.args[2]))
    return UNIT


def slt(a, b):
    return B.bv([B.bslt(a, b, 32)])


OPS2 = {
    "Add::add": lambda a, b: B.badd(a, b, 32), "Sub::sub": lambda a, b: B.bsub(a, b, 32),
    "And::and": lambda a, b: B.band(a, b, 32), "Or::or": lambda a, b: B.bor(a, b, 32), "Xor::xor": lambda a, b: B.bxor(a, b, 32),
    "Sll::sll": lambda a, b: B.bshl(a, B.trunc(b, 5), 32, 5), "Srl::srl": lambda a, b: B.bshr(a, B.trunc(b, 5), 32, 5),
    "Sra::sra": lambda a, b: B.bshr(a, B.trunc(b, 5), 32, 5, True),
    "Slt::slt": slt, "Sltu::sltu": lambda a, b: B.bv([B.bult(a, b, 32)]),
}


def wp(I, x):
    v = val(I, x)
    if isinstance(v, WP):
        return v.v
    raise Unsupported("prepared word expected, got %r" % (v,))


def _op2(f, mt):
    def g(I, c):
        a = c.args
        if mt:
            conc(a[1], "thread count")
            if a[1] == 0:
                I.panic(1, "zero threads")
                return None
            a = a[:1] + a[2:]
        x, y = wp(I, a[2]), wp(I, a[3])
        setv(I, a[0], W(B.bv(renew(I, [0] * 32))) if I.mode.get("renewed") is not None else W(f(x, y)))
        return UNIT
    return g


for _k, _f in OPS2.items():
    M[BDD + _k] = _op2(_f, False)
    M[BDD + _k + "_multi_thread"] = _op2(_f, True)


@model(BDD + "Identity::identity_multi_thread")
def _(I, c):
    if c.args[1] == 0:
        I.panic(1, "zero threads")
        return None
    setv(I, c.args[0], W(B.bv(renew(I, wbits(wp(I, c.args[3]))))))
    return UNIT


@model(BDD + "Identity::identity")
def _(I, c):
    setv(I, c.args[0], W(B.bv(renew(I, wbits(wp(I, c.args[2]))))))
    return UNIT


@model(BDD + "ToBits::bit")
def _(I, c):
    v, i = val(I, c.args[0]), conc(c.args[1])
    if i >= 32:
        raise Unsupported("bit index")
    return B.bv([wbits(v)[i]])


# ------------------------------------------------------------- preparation
def _prep(mt):
    def f(I, c):
        a = c.args
        if mt:
            if a[1] == 0:
                I.panic(1, "zero threads")
                return None
            a = a[:1] + a[2:]
        start, count = conc(a[3]), conc(a[4])
        x = renew(I, wbits(word(I, a[2])))
        setv(I, a[0], WP(B.bv([x[i] if start <= i < start + count else 0 for i in range(32)])))
        return UNIT
    return f


M[BDD + "FheUintPrepared::prepare_custom_multi_thread"] = _prep(True)
M[BDD + "FheUintPrepared::prepare_custom"] = _prep(False)


@model(BDD + "FheUintPrepared::prepare")
def _(I, c):
    setv(I, c.args[0], WP(B.bv(renew(I, wbits(word(I, c.args[2]))))))
    return UNIT


@model(BDD + "GetGGSWBit::get_bit")
def _(I, c):
    return Bit(getbit(I, c.args[0], c.args[1])) if isinstance(val(I, c.args[0]), WP) else _nobit(c)


def _nobit(c):
    raise Unsupported("get_bit of %r" % (c.args[0],))


@model(BDD + "GetGGSWBitMut::get_bit")
def _(I, c):
    i = conc(c.args[1])
    if i >= 32:
        I.panic(1, "bit index out of range")
        return None
    return BitView(target(I, c.args[0]), i)


@model(BDD + "GetGGSWBitMut::get_bits")
def _(I, c):
    s, n = conc(c.args[1]), conc(c.args[2])
    if s + n > 32:
        I.panic(1, "bit range out of range")
        return None
    r = target(I, c.args[0])
    return Agg("vec", [BitView(r, i) for i in range(s, s + n)])


def setbit(I, view, b):
    view = val(I, view)
    if not isinstance(view, BitView):
        raise Unsupported("prepare into %r" % (view,))
    v = I.read(view.ref)
    x = wbits(v.v)
    x[view.i] = b
    I.write(view.ref, WP(B.bv(x)))
    l = I.mode.get("bitlog")
    if l is not None:
        l.append((view.ref.key(), view.i))


@model(CORE + "layouts::GGSWPrepared::prepare")
def _(I, c):
    s = val(I, c.args[2])
    setbit(I, c.args[0], s.b if isinstance(s, Bit) else B.bits(junkbits(I, 1), 1)[0])
    return UNIT


@model(CORE + "layouts::GGSWPrepared::zero")
def _(I, c):
    setbit(I, c.args[0], 0)
    return UNIT


@model("poulpy_schemes::bin_fhe::circuit_bootstrapping::circuit::<impl poulpy_schemes::bin_fhe::circuit_bootstrapping::"
       "CircuitBootstrappingKeyPrepared>::execute_to_constant")
def _(I, c):
    s = val(I, c.args[3])
    if c.args[5] != 1:
        raise Unsupported("bootstrapping parameters")
    if c.args[4] != 1:
        # the message would be read in another domain than the one it was encoded in
        s = None
    setv(I, c.args[2], Bit(renew(I, [s.b if isinstance(s, Bit) else B.bits(junkbits(I, 1), 1)[0]])[0]))
    return UNIT


M["poulpy_schemes::bin_fhe::circuit_bootstrapping::CircuitBootstrappingKeyInfos::block_size"] = lambda I, c: 1
M[BDD + "BDDKeyHelper::get_cbt_key"] = lambda I, c: Agg("tuple", [Opaque("cbt"), some(Opaque("ks_glwe")), Opaque("ks_lwe")])


# --------------------------------------------------------------- circuits
@model(BDD + "BitCircuit::new", BDD + "eval::BitCircuit::new")
def _(I, c):
    return Agg("adt", [c.args[0], c.args[1]], bcid(I), 0)


def bcid(I):
    for k in I.prog.adts:
        if k.startswith("poulpy_schemes") and k.endswith("::BitCircuit"):
            return k
    return "poulpy_schemes::BitCircuit"


@model(BDD + "BitCircuitInfo::info")
def _(I, c):
    r = target(I, c.args[0])
    if isinstance(r, Ref):
        return Agg("tuple", [I.sub(r, ("f", 0)), I.read(I.sub(r, ("f", 1)))])
    raise Unsupported("circuit info")


def circuit_info(I, circ):
    """[(nodes, state)] of a circuit value, INPUT_BITS, OUTPUT_BITS"""
    r = target(I, circ)
    v = val(I, circ)
    if not (isinstance(v, Agg) and v.f):
        raise Unsupported("circuit %r" % (v,))
    arr = I.sub(r, ("f", 0))
    items = I.read(arr).f
    aid = items[0].id
    fam = {}
    for im in I.impl_index.get(BDD + "BitCircuitFamily", []):
        if im["self"].k == "adt" and im["self"].id == aid:
            for nm in ("INPUT_BITS", "OUTPUT_BITS"):
                fam[nm] = conc(I.runconst(I.prog.fns[im["items"][nm]], {}))
    if len(fam) != 2:
        raise Unsupported("circuit family of %s" % aid)
    out = []
    for i in range(fam["OUTPUT_BITS"]):
        if i >= len(items):
            I.panic(1, "circuit index")
            return None
        x = I.callf(mkf(BDD + "BitCircuitInfo", "info"), {}, [I.sub(arr, i)], None)
        if I.pc == 0:
            return None
        nodes = I.read(x.f[0]) if isinstance(x.f[0], Ref) else x.f[0]
        out.append((val(I, nodes).f, conc(x.f[1], "state size")))
    return out, fam["INPUT_BITS"], fam["OUTPUT_BITS"], aid


def nodevar(I, nd):
    """variant name of a node and its operands"""
    ad = I.prog.adts.get(nd.id)
    return ad["v"][nd.var][0], nd.f


def run_bit(I, nodes, state, inbit):
    if state == 0:
        return 0
    if len(nodes) % state or not nodes:
        I.panic(1, "circuit shape")
        return 0
    lev = [0] * (2 * state)
    if len(lev) < 2:
        I.panic(1, "circuit shape")
        return 0
    lev[1] = 1
    prev, nxt = lev[:state], lev[state:]
    for s in range(0, len(nodes) - state, state):
        for j in range(state):
            kind, ops = nodevar(I, nodes[s + j])
            if kind == "Cmux":
                if ops[1] >= state or ops[2] >= state:
                    I.panic(1, "circuit node index")
                    return 0
                nxt[j] = B.ite(inbit(ops[0]), prev[ops[1]], prev[ops[2]])
                if I.pc == 0:
                    return 0
            elif kind == "Copy":
                nxt[j] = prev[j]
        prev, nxt = nxt, prev
    kind, ops = nodevar(I, nodes[len(nodes) - state])
    if kind != "Cmux":
        I.panic(1, "last circuit node")
        return 0
    if ops[1] >= state or ops[2] >= state:
        I.panic(1, "circuit node index")
        return 0
    return B.ite(inbit(ops[0]), prev[ops[1]], prev[ops[2]])


def run_circuit(I, circ, inbit, nout, insize):
    r = circuit_info(I, circ)
    if r is None:
        return None
    cs, ib, ob, aid = r
    if insize < ib:
        I.panic(1, "circuit takes %d inputs, %d given" % (ib, insize))
        return None
    if nout < ob:
        I.panic(1, "circuit has %d outputs, %d taken" % (ob, nout))
        return None
    I.mode.setdefault("circuits", []).append(aid)
    memo = {}

    def get(i):
        if i not in memo:
            memo[i] = inbit(i)
        return memo[i]
    out = []
    for nodes, state in cs:
        out.append(run_bit(I, nodes, state, get))
        if I.pc == 0:
            return None
    return out + [0] * (nout - ob)


def _exec(mt):
    def f(I, c):
        a = c.args
        if mt:
            if a[1] == 0:
                I.panic(1, "zero threads")
                return None
            a = a[:1] + a[2:]
        out, helper, circ = a[1], a[2], a[3]
        n = I.length(out)
        size = I.callf(mkf(BDD + "BitSize", "bit_size"), {}, [target(I, helper)], None) \
            if not isinstance(val(I, helper), WP) else 32
        bits = run_circuit(I, circ, lambda i: getbit(I, helper, i), n, conc(size)) if I.mode.get("renewed") is None \
            else renew(I, [0] * n)
        if bits is None:
            return None
        r = out
        if r.win is None:
            r = target(I, out)
        for i, b in enumerate(bits):
            I.write(I.sub(r, i), constp(I, b))
        return UNIT
    return f


M[BDD + "ExecuteBDDCircuit::execute_bdd_circuit_multi_thread"] = _exec(True)
M[BDD + "ExecuteBDDCircuit::execute_bdd_circuit"] = _exec(False)


def _exec2(mt):
    def f(I, c):
        a = c.args
        if mt:
            if a[1] == 0:
                I.panic(1, "zero threads")
                return None
            a = a[:1] + a[2:]
        out, circ, x, y = a[1:5]
        xb, yb = wbits(wp(I, x)), wbits(wp(I, y))

        def inbit(i):
            if i >= 64:
                I.panic(1, "circuit input index")
                return 0
            return (xb + yb)[i]
        bits = run_circuit(I, circ, inbit, 32, 64) if I.mode.get("renewed") is None else renew(I, [0] * 32)
        if bits is None:
            return None
        setv(I, out, W(B.bv(bits)))
        return UNIT
    return f


M[BDD + "ExecuteBDDCircuit2WTo1W::execute_bdd_circuit_2w_to_1w_multi_thread"] = _exec2(True)
M[BDD + "ExecuteBDDCircuit2WTo1W::execute_bdd_circuit_2w_to_1w"] = _exec2(False)

M["num_cpus::get_physical"] = M["num_cpus::get"] = lambda I, c: 1
M["tqdm::tqdm"] = lambda I, c: c.args[0]
M[HAL + "source::Source::new"] = lambda I, c: Opaque("source")

M["const " + BDD + "UnsignedInteger::BITS"] = lambda I, env: 32
