"""P13: encrypted memory, over the plaintext meaning of ciphertexts, for several ring degrees and capacities."""
import bdd as B
import poulpy as PP
from poulpy import W, WP, P, MODULE, SCRATCH, Opaque, val
from core import *
from checks_enc import fresh, cell, KEYS

INFOS = Opaque("infos")
SK, XA, XE = Opaque("sk"), Opaque("xa"), Opaque("xe")


def meth(ctx, name):
    return ctx.method("fhevm", "Memory", name)


def invoke(ctx, I, name, order, vals):
    fn = meth(ctx, name)
    v = I.call_body(fn, ctx.byname(fn, order, vals), {})
    return v, fn


def slice_of(I, vals):
    c = I.newcell(Agg("array", list(vals)))
    return Ref(c, (), (0, len(vals)))


class Mem:
    """a Memory object built and filled through its own functions"""

    def __init__(self, ctx, n, size, word, threads=1, **mode):
        self.ctx, self.n, self.size, self.word, self.threads = ctx, n, size, word, threads
        self.I = I = fresh(ctx, n, **mode)
        v, self.falloc = invoke(ctx, I, "alloc", ("infos", "word_size", "size"), [INFOS, word, size])
        self.r = cell(I, v)
        self.ab = max(1, (size - 1).bit_length())
        self.a = B.vec("a", self.ab, 0)
        self.low = B.vec("low", 4, 40)
        self.w = B.vec("w", 32, 50)
        self.data = [B.vec("d%d" % i, word, 1000 + 100 * i) for i in range(size)]
        self.inr = B.bult(self.a, size, 32) if size < (1 << self.ab) else 1
        self.nm = dict(addr=self.a, w=self.w, **{"d%d" % i: d for i, d in enumerate(self.data[:12])})

    def address(self, off):
        return WP(B.bv((B.bits(self.low, off) if off else []) + B.bits(self.a, self.ab)))

    def encrypt(self, data=None):
        I = self.I
        return invoke(self.ctx, I, "encrypt_sk", ("self", "module", "data", "sk", "source_xa", "source_xe", "scratch"),
                      [self.r, MODULE, slice_of(I, data if data is not None else self.data), SK, XA, XE, SCRATCH])[1]

    def decrypt(self):
        I = self.I
        out = slice_of(I, [PP.junkbits(I, 32) for _ in range(self.size)])
        _, fn = invoke(self.ctx, I, "decrypt", ("self", "module", "data", "sk", "scratch"), [self.r, MODULE, out, SK, SCRATCH])
        self.fdec = fn
        if I.pc == 0:
            return None
        return I.read(Ref(out.cell)).f

    def sel(self):
        """data[a]"""
        v = 0
        for i, d in enumerate(self.data):
            v = B.bite(B.beq(self.a, i, self.ab), d, v)
        return v

    def alive(self, key, fn, g=1):
        """no panic on in-range addresses; returns the surviving condition"""
        g = B.and_(g, self.inr)
        self.ctx.never(key + ":panics", B.and_(g, B.not_(self.I.pc)), where(fn), self.nm, "panics: %s" % (self.I.panics[:1],))
        return B.and_(g, self.I.pc)

    def contents(self, key, want, g, fn, what):
        """the memory decrypts to want"""
        I = self.I
        out = self.decrypt()
        if out is None:
            self.ctx.bad(key, where(self.fdec), "decrypt panics: %s" % (I.panics[:1],))
            return False
        okk = True
        for j in range(self.size):
            got = B.bv(B.bits(out[j], 32)[:self.word]) if isint(out[j]) else out[j]
            okk &= self.ctx.equal("%s:word%d" % (key, j), got, want[j], self.word, g, where(fn), self.nm, "%s: word %d" % (what, j))
        return okk


ACC = ("self", "threads", "module", "res", "address", "offset", "keys", "scratch")
WR = ("self", "threads", "module", "w", "address", "offset", "keys", "scratch")


def roundtrip(ctx, k, n, size, word):
    m = Mem(ctx, n, size, word)
    I = m.I
    f = m.encrypt()
    ctx.check(k + ":encrypt:panics", I.pc == 1, where(f), "encrypt_sk panics: %s" % (I.panics[:1],))
    if I.pc != 1:
        return
    m.contents(k + ":decrypt(encrypt)", m.data, 1, f, "decryption of encrypted contents")
    # a shorter image leaves the rest zero, over old contents
    short = m.data[:max(1, size - 1)]
    f = m.encrypt([B.vec("e%d" % i, word, 90000 + 100 * i) for i in range(size)])
    f = m.encrypt(short)
    if I.pc == 1:
        m.contents(k + ":short image", list(short) + [0] * (size - len(short)), 1, f, "image shorter than the memory")


def stateless(ctx, k, n, size, word, off, threads, **mode):
    m = Mem(ctx, n, size, word, threads, **mode)
    I = m.I
    m.encrypt()
    res = cell(I, W(PP.junkbits(I, 32)))
    ad = cell(I, m.address(off))
    _, fn = invoke(ctx, I, "read_stateless", ACC, [m.r, threads, MODULE, res, ad, off, KEYS, SCRATCH])
    g = m.alive(k, fn)
    if not g:
        return None
    v = I.read(res)
    ctx.equal(k + ":value", v.v if isinstance(v, W) else v, m.sel(), 32, g, where(fn), m.nm, "stateless read")
    ctx.never(k + ":encoding", B.and_(g, I.mode.get("illformed", 0)), where(fn), m.nm, "the bits read are not 0 or 1")
    m.contents(k + ":unchanged", m.data, g, fn, "memory after a stateless read")
    return m


def statefull(ctx, k, n, size, word, off, threads, **mode):
    m = Mem(ctx, n, size, word, threads, **mode)
    I = m.I
    m.encrypt()
    res = cell(I, W(PP.junkbits(I, 32)))
    ad = cell(I, m.address(off))
    _, fn = invoke(ctx, I, "read_statefull", ACC, [m.r, threads, MODULE, res, ad, off, KEYS, SCRATCH])
    g = m.alive(k + ":read", fn)
    if not g:
        return
    v = I.read(res)
    ctx.equal(k + ":value", v.v if isinstance(v, W) else v, m.sel(), 32, g, where(fn), m.nm, "stateful read")
    ctx.never(k + ":encoding", B.and_(g, I.mode.get("illformed", 0)), where(fn), m.nm, "the bits read are not 0 or 1")
    _, fn = invoke(ctx, I, "read_statefull_rev", WR, [m.r, threads, MODULE, cell(I, W(m.w)), ad, off, KEYS, SCRATCH])
    g = m.alive(k + ":write back", fn)
    if not g:
        return
    want = [B.bite(B.beq(m.a, j, m.ab), B.trunc(m.w, word), d) for j, d in enumerate(m.data)]
    m.contents(k + ":after write back", want, g, fn, "memory after read and write back")


def writes(ctx, k, n, size, word, off, threads, **mode):
    m = Mem(ctx, n, size, word, threads, **mode)
    I = m.I
    m.encrypt()
    ad = cell(I, m.address(off))
    _, fn = invoke(ctx, I, "write", WR, [m.r, threads, MODULE, cell(I, W(m.w)), ad, off, KEYS, SCRATCH])
    g = m.alive(k, fn)
    if not g:
        return
    want = [B.bite(B.beq(m.a, j, m.ab), B.trunc(m.w, word), d) for j, d in enumerate(m.data)]
    m.contents(k + ":after", want, g, fn, "memory after a write")


def zeros(ctx, k, n, size, word, addr, threads, **mode):
    m = Mem(ctx, n, size, word, threads, **mode)
    I = m.I
    m.encrypt()
    _, fn = invoke(ctx, I, "zero", ("self", "threads", "module", "addr", "keys", "scratch"),
                   [m.r, threads, MODULE, addr, KEYS, SCRATCH])
    ctx.check(k + ":panics", I.pc == 1, where(fn), "zero panics: %s" % (I.panics[:1],))
    if I.pc != 1:
        return
    m.contents(k + ":after", [0 if j == addr else d for j, d in enumerate(m.data)], 1, fn, "memory after clearing word %d" % addr)


def history(ctx, k, n, size, word, ops, every=10):
    """a long sequence of operations on one memory, addresses constants, data symbolic"""
    m = Mem(ctx, n, size, word, 1)
    I = m.I
    m.encrypt()
    cur = list(m.data)
    fn = None
    for t in range(ops):
        a = (t * 5 + t // 7) % size
        th = (1, 2, 3)[t % 3]
        w = B.vec("w%d" % (t % 16), 32, 200000 + 32 * (t % 16))
        kind = t % 4
        ad = cell(I, WP(a << 2))
        I.panics = []
        if kind == 0:
            res = cell(I, W(0))
            _, fn = invoke(ctx, I, "read_stateless", ACC, [m.r, th, MODULE, res, ad, 2, KEYS, SCRATCH])
        elif kind == 1:
            _, fn = invoke(ctx, I, "write", WR, [m.r, th, MODULE, cell(I, W(w)), ad, 2, KEYS, SCRATCH])
        elif kind == 2:
            res = cell(I, W(0))
            _, fn = invoke(ctx, I, "read_statefull", ACC, [m.r, th, MODULE, res, ad, 2, KEYS, SCRATCH])
        else:
            _, fn = invoke(ctx, I, "zero", ("self", "threads", "module", "addr", "keys", "scratch"), [m.r, th, MODULE, a, KEYS, SCRATCH])
        if I.pc != 1:
            ctx.bad("%s:%d:panics" % (k, t), where(fn), "operation %d of a sequence panics: %s" % (t, I.panics[:1]))
            return
        if kind in (0, 2):
            v = I.read(res)
            if not ctx.equal("%s:%d:value" % (k, t), v.v if isinstance(v, W) else v, cur[a], 32, 1, where(fn), dict(operation=t, address=a), "read %d of a sequence" % t):
                return
        if kind == 2:
            _, fn = invoke(ctx, I, "read_statefull_rev", WR, [m.r, th, MODULE, cell(I, W(w)), ad, 2, KEYS, SCRATCH])
            if I.pc != 1:
                ctx.bad("%s:%d:panics" % (k, t), where(fn), "operation %d of a sequence panics: %s" % (t, I.panics[:1]))
                return
        if kind in (1, 2):
            cur[a] = B.trunc(w, word)
        if kind == 3:
            cur[a] = 0
        if t % every == every - 1:
            if not m.contents("%s:%d" % (k, t), cur, 1, fn, "memory after %d operations" % (t + 1)):
                return


QUICK = [(4, 2), (4, 3), (4, 4), (4, 5), (4, 8), (4, 11), (8, 6), (8, 17), (2, 7), (2, 2), (2, 3), (2, 12), (4, 6), (4, 7), (4, 9), (4, 12),
         (4, 13), (4, 16), (4, 20), (4, 33), (8, 8), (8, 9), (8, 16), (8, 24), (8, 40), (16, 5), (16, 16), (16, 33), (16, 50), (4, 70),
         (16, 130), (64, 31), (64, 32), (64, 63), (64, 64), (64, 65), (64, 100), (64, 128), (64, 257), (1024, 1025), (256, 255), (256, 257), (2, 65), (4, 257)]
DEEP = QUICK + [(2, 2 * i + 1) for i in range(1, 20)] + [(4, i) for i in range(17, 70)] + [(8, i) for i in range(10, 70, 3)] + \
    [(1024, 700), (1024, 1024), (1024, 1025), (256, 1024), (2048, 2049)]


def sizes(ctx):
    """capacities next to the constants of the code"""
    from checks_vm import consts_of
    fns = [f for f in ctx.prog.fns.values() if f.crate == "fhevm" and f.file.endswith("memory.rs") and f.blocks]
    c = {x + d for x in consts_of(ctx, fns) for d in (-1, 0, 1, 2)}
    return sorted((n, x) for x in c for n in (4, 64) if 2 <= x <= 1025)


def p13(ctx):
    ctx.rule = ("abstract interpretation of Memory/BitArray with all contents, the written word and the address symbolic, for ring "
                "degrees and capacities below, at and above one polynomial and not multiples of it; every word after every "
                "operation must be the array-model function of the words before")
    ctx.trusted = ["sa/poulpy.py (plaintext contracts of poulpy operations)"]
    ctx.assumptions = ["the code uses the ring degree only through n and log_n; small degrees stand for all",
                       "capacity at least two, address below the capacity"]
    cfgs = sorted(set((QUICK if ctx.tier == "quick" else DEEP) + sizes(ctx)))
    for n, size in cfgs:
        k = "n%d:size%d" % (n, size)
        word = 5 if size <= 4 else 3 if size <= 33 else 2 if size < 200 else 1
        ctx.tryob(k + ":image", roundtrip, ctx, k + ":image", n, size, word)
        for off in (0, 2):
            for th in ((1, 2) if off else (1,)):
                kk = "%s:off%d:t%d" % (k, off, th)
                ctx.tryob(kk + ":read_stateless", stateless, ctx, kk + ":read_stateless", n, size, word, off, th)
                ctx.tryob(kk + ":read_statefull", statefull, ctx, kk + ":read_statefull", n, size, word, off, th)
                ctx.tryob(kk + ":write", writes, ctx, kk + ":write", n, size, word, off, th)
        for addr in sorted({0, 1, n - 1, n, n + 1, size // 2, size - 1} if ctx.tier == "quick" or size > 70 else set(range(size))):
            if addr < size:
                ctx.tryob("%s:zero%d" % (k, addr), zeros, ctx, "%s:zero%d" % (k, addr), n, size, word, addr, 1)
    for f, nm in ((stateless, "read_stateless"), (statefull, "read_statefull"), (writes, "write")):
        k = "n8:size6:word32:" + nm
        ctx.tryob(k, f, ctx, k, 8, 6, 32, 2, 3)
    ctx.tryob("history:small", history, ctx, "history:small", 4, 3, 2, 300)
    ctx.tryob("history:large", history, ctx, "history:large", 4, 11, 2, 300)
    ctx.counts["configurations"] = len(cfgs)
