"""P11, P12, P14, P16, P20, P26: the encrypted cycle over the plaintext meaning of ciphertexts."""
import bdd as B
import spec as S
import poulpy as PP
from poulpy import W, WP, P, MODULE, SCRATCH, Opaque, val
from core import *
from checks_isa import names_of
from checks_enc import operands, fresh, cell, KEYS, traitfn, op_list, ram_start, RD, RAM, PCU, OFF, enum_val
from checks_testvm import fields
from stdmodels import some, NONE

SK, XA, XE = Opaque("sk"), Opaque("xa"), Opaque("xe")
ROMS = ("imm", "rs1", "rs2", "rd", "rdu", "mu", "pcu")
WIDTH = dict(imm=32, rs1=5, rs2=5, rd=5, rdu=5, mu=2, pcu=4)


# --------------------------------------------------- cut points: operations as canonical terms (verified by P06-P10)
def argmap(ctx, fn, order, args):
    """values by parameter name"""
    have = {}
    for n, pl in fn.names:
        if not pl[1] and 1 <= pl[0] <= fn.argc:
            have[n.lstrip("_")] = args[pl[0] - 1]
    if all(o in have for o in order) and len(args) == len(order):
        return have
    if len(args) == len(order):
        return dict(zip(order, args))
    raise Unsupported("parameters of %s" % fn.key)


def perop(f):
    """an operation that depends on data is evaluated case by case"""
    def g(I, key, args, env):
        v = args[0] if args else None
        if isinstance(v, Union):
            return I.forkalts(v, lambda a: g(I, key, [a] + list(args[1:]), env))
        x = val(I, v)
        if isinstance(x, Union):
            return I.forkalts(x, lambda a: g(I, key, [Ref(I.newcell(a))] + list(args[1:]), env))
        return f(I, key, args, env)
    return g


def vname(I, v):
    v = val(I, v)
    if not isinstance(v, Agg):
        raise Unsupported("operation %r" % (v,))
    return I.prog.adts[v.id]["v"][v.var][0]


def need_threads(I, t):
    if t == 0:
        I.panic(1, "zero threads")
        return False
    return True


def cut_rd(ctx, only=()):
    fn = traitfn(ctx, "Evaluate", "RD_UPDATE", "eval_enc")

    def f(I, key, args, env):
        m = argmap(ctx, fn, RD, args)
        op = vname(I, m["self"])
        if op in only or op == "NONE":
            return I.call_body(fn, args, env)
        if not need_threads(I, m["threads"]):
            return None
        a = [PP.wp(I, m[x]) for x in ("imm", "rs1", "rs2", "pc")] + [PP.word(I, m["ram"])]
        PP.setv(I, m["res"], W(rdterm(op, *a)))
        return UNIT
    return fn.key, perop(f)


def term(key, w):
    """the canonical term of an operation; its value when the operands are constants"""
    if all(isinstance(x, (int, str)) for x in key[1:]):
        return B.TERMEVAL[key[0]](key, {}) & ((1 << w) - 1)
    return B.term(key, w)


def rdterm(op, imm, rs1, rs2, pc, ram):
    """only the operands the operation has are part of the term"""
    if op in S.LOADS:
        return term(("rdop", op, ram), 32)
    if op == "LUI":
        return term(("rdop", op, imm20(imm)), 32)
    if op == "AUIPC":
        return term(("rdop", op, imm20(imm), pc), 32)
    if op in ("JAL", "JALR"):
        return term(("rdop", op, pc), 32)
    if op == "NONE":
        return 0
    if op in ("SLLI", "SRLI", "SRAI"):
        return term(("rdop", op, B.trunc(imm, 5), rs1), 32)
    if op in ("ADDI", "SLTI", "SLTIU", "XORI", "ORI", "ANDI"):
        return term(("rdop", op, imm, rs1), 32)
    if op in ("SLL", "SRL", "SRA"):
        return term(("rdop", op, rs1, B.trunc(rs2, 5)), 32)
    return term(("rdop", op, rs1, rs2), 32)


def imm20(v):
    return B.trunc(v, 20)


def _rdop(key, a):
    op = key[1]
    x = [B.ceval(v, a) for v in key[2:]]
    if op in S.LOADS:
        return S.load_value(op, x[0], 0)
    if op == "LUI":
        return S.rd_value(op, x[0], 0, 0, 0)
    if op == "AUIPC":
        return S.rd_value(op, x[0], 0, 0, x[1])
    if op in ("JAL", "JALR"):
        return S.rd_value(op, 0, 0, 0, x[0])
    if op[-1] == "I" or op == "SLTIU":
        return S.rd_value(op, x[0], x[1], 0, 0)
    return S.rd_value(op, 0, x[0], x[1], 0)


B.TERMEVAL["rdop"] = _rdop


def muterm(op, rs2, old, off):
    if op == "NONE":
        return old
    if op == "SW":
        return rs2
    return term(("muop", op, rs2, old, off), 32)


B.TERMEVAL["muop"] = lambda k, a: S.store_word(k[1], *[B.ceval(x, a) for x in k[2:]])


def cut_mu(ctx, only=()):
    fn = traitfn(ctx, "Store", "RAM_UPDATE", "eval_enc")

    def f(I, key, args, env):
        m = argmap(ctx, fn, RAM, args)
        op = vname(I, m["self"])
        if op in only:
            return I.call_body(fn, args, env)
        if not need_threads(I, m["threads"]):
            return None
        PP.setv(I, m["res"], W(muterm(op, PP.word(I, m["rs2"]), PP.word(I, m["loaded"]), B.trunc(PP.wp(I, m["offset"]), 2))))
        return UNIT
    return fn.key, perop(f)


def bkey(x):
    return (0, x) if isinstance(x, int) else (1,) + tuple(x.b)


def offterm(ctx, rs1, imm):
    if B.LINEAR[0]:
        return B.bsub(B.badd(rs1, imm, 32), ram_start(ctx), 32)
    a, b = sorted((rs1, imm), key=bkey)
    return term(("offop", a, b, ram_start(ctx)), 32)


B.TERMEVAL["offop"] = lambda k, a: (B.ceval(k[1], a) + B.ceval(k[2], a) - k[3]) & 0xFFFFFFFF


def cut_off(ctx):
    fn = ctx.func("fhevm", "ram_offset")

    def f(I, key, args, env):
        m = argmap(ctx, fn, OFF, args)
        if not need_threads(I, m["threads"]):
            return None
        PP.setv(I, m["res"], W(offterm(ctx, PP.wp(I, m["rs1"]), PP.wp(I, m["imm"]))))
        return UNIT
    return fn.key, f


def pcterm(opid, rs1, rs2, pc, imm):
    op = PCNAMES.get(opid) if isinstance(opid, int) else None
    if op == "NONE":
        rs1 = rs2 = imm = 0
    elif op == "JAL":
        rs1 = rs2 = 0
    elif op == "JALR":
        rs2 = pc = 0
    return term(("pcop", B.trunc(opid, 4), rs1, rs2, pc, imm20(imm)), 32)


PCNAMES = {}


def pcvalue(opid, rs1, rs2, pc, imm):
    """one term per operation, chosen by the selector"""
    opid = B.trunc(opid, 4)
    v = 0 if isinstance(opid, int) or B.LINEAR[0] or len(PCNAMES) == 16 else pcterm(opid, rs1, rs2, pc, imm)
    if isinstance(opid, int):
        return pcterm(opid, rs1, rs2, pc, imm)
    for d in sorted(PCNAMES):
        v = B.bite(B.beq(opid, d, 4), pcterm(d, rs1, rs2, pc, imm), v)
    return v


def _pcop(k, a):
    opid, rs1, rs2, pc, imm = [B.ceval(x, a) for x in k[1:]]
    op = PCNAMES.get(opid)
    if op is None:
        return hash((opid, rs1, rs2, pc, imm)) & 0xFFFFFFFF
    return S.next_pc(op, B.sext(imm, 20, 32), rs1, rs2, pc)


B.TERMEVAL["pcop"] = _pcop


def cut_pc(ctx):
    fn = ctx.func("fhevm", "update_pc")
    k, a = ctx.adt("PC_UPDATE")
    for x in a["v"]:
        PCNAMES[x[1]] = x[0]

    def f(I, key, args, env):
        m = argmap(ctx, fn, PCU, args)
        if not need_threads(I, m["threads"]):
            return None
        PP.setv(I, m["res"], W(pcvalue(PP.wp(I, m["op_id"]), *[PP.wp(I, m[x]) for x in ("rs1", "rs2", "pc", "imm")])))
        return UNIT
    return fn.key, f


def params_overrides(ctx, I):
    """methods of CryptographicParameters on an opaque object"""
    for f in ctx.prog.methods("fhevm", "CryptographicParameters"):
        n = f.n
        if n == "module":
            I.overrides[f.key] = lambda I, k, a, e: MODULE
        elif n == "new":
            I.overrides[f.key] = lambda I, k, a, e: Opaque("params")
        else:
            I.overrides[f.key] = (lambda n: lambda I, k, a, e: Opaque("params." + n))(n)


class Machine:
    """an Interpreter in an arbitrary state"""

    def __init__(self, ctx, n=8, rom=3, ram=6, threads=1, debug=False, cuts=True, only=(), verbose=0, **mode):
        self.ctx, self.n, self.rom, self.ram, self.threads = ctx, n, rom, ram, threads
        self.I = I = fresh(ctx, n, **mode)
        params_overrides(ctx, I)
        if cuts:
            for k, f in (cut_rd(ctx, only), cut_mu(ctx, only), cut_off(ctx), cut_pc(ctx)):
                I.overrides[k] = f
        fn = ctx.method("fhevm", "Interpreter", "new_with_debug" if debug else "new")
        v = I.call_body(fn, ctx.byname(fn, ("params", "rom_size", "ram_size"), [Opaque("params"), rom, ram]), {})
        if I.pc == 0:
            raise Unsupported("construction panics: %s" % (I.panics[:1],))
        self.r = cell(I, v)
        self.key, self.fs = fields(ctx, "Interpreter", "fhevm")
        if "threads" in self.fs:
            self.set("threads", threads)
        if verbose:
            self.set("verbose_timings", 1)
        self.nm = {}

    def field(self, n):
        if n not in self.fs:
            raise Unsupported("field %s of Interpreter" % n)
        return self.I.sub(self.r, ("f", self.fs.index(n)))

    def get(self, n):
        return self.I.read(self.field(n))

    def set(self, n, v):
        self.I.write(self.field(n), v)

    def fill(self, name, data):
        """contents of the memory field through its own encryption"""
        I = self.I
        fn = self.ctx.method("fhevm", "Memory", "encrypt_sk")
        c = I.newcell(Agg("array", list(data)))
        I.call_body(fn, self.ctx.byname(fn, ("self", "module", "data", "sk", "source_xa", "source_xe", "scratch"),
                                        [self.field(name), MODULE, Ref(c, (), (0, len(data))), SK, XA, XE, SCRATCH]), {})

    def dump(self, name, size):
        I = self.I
        fn = self.ctx.method("fhevm", "Memory", "decrypt")
        c = I.newcell(Agg("array", [0] * size))
        I.call_body(fn, self.ctx.byname(fn, ("self", "module", "data", "sk", "scratch"),
                                        [self.field(name), MODULE, Ref(c, (), (0, size)), SK, SCRATCH]), {})
        return I.read(Ref(c)).f

    def memstate(self, name):
        m = self.get(name)
        k, fs = fields(self.ctx, "Memory", "fhevm")
        if "state" not in fs:
            raise Unsupported("state of Memory")
        return m.f[fs.index("state")]

    def anystate(self, pcidx=None, regs=None, x0=0, leftovers=True, fixed={}):
        """symbolic program, registers, RAM, pc; everything else holds leftovers of an earlier cycle"""
        ctx, I = self.ctx, self.I
        lv = [0]

        def nv(name, w):
            v = B.vec(name, w, lv[0])
            lv[0] += w
            return v
        kb = max(1, (self.rom - 1).bit_length())
        self.idx = nv("pcidx", kb) if pcidx is None else pcidx
        self.romd = {f: [fixed[f] if f in fixed else nv("%s[%d]" % (f, i), WIDTH[f]) for i in range(self.rom)]
                     for f in ("rd", "rs1", "rs2", "mu", "pcu", "rdu", "imm")}
        # data words and terms bitwise interleaved: comparisons of two of them stay small
        def word(name, i):
            return B.vec(name, 32, B.DATA + i, B.STRIDE)
        self.regs = [0 if j == 0 else word("x%d" % j, j) for j in range(32)] if regs is None else regs
        if x0:
            self.regs[0] = word("x0", 0)
        self.ramd = [word("m[%d]" % i, 32 + i) for i in range(self.ram)]
        for f in ROMS:
            self.fill(f + "_rom", self.romd[f])
        self.fill("registers", self.regs)
        self.fill("ram", self.ramd)
        self.pcv = B.bv([0, 0] + B.bits(self.idx, kb))
        if leftovers:
            for n in self.fs:
                if n.endswith("_fhe_uint"):
                    self.set(n, W(PP.junkbits(I, 32)))
                elif n.endswith("_fhe_uint_prepared"):
                    self.set(n, WP(PP.junkbits(I, 32)))
            self.set("pc_fhe_uint", W(self.pcv))
            self.fieldg, self.havocked = 1, {}
            for k, n in enumerate(sorted(n for (q, n), h in ctx.havoc.items() if q == "field" and n in self.fs and h is not None)):
                t = I.prog.adts[self.key]["v"][0][2][self.fs.index(n)][1]
                if t.k != "int" or type(self.get(n)) is not int:
                    continue
                orbit = ctx.havoc[("field", n)]
                x = B.vec("field " + n, orbit[0] if type(orbit) is tuple else max(1, max(orbit).bit_length()) if type(orbit) is frozenset else t.b, -300_000 + 64 * k)
                self.havocked[n] = (self.get(n), x, t.b)
                self.set(n, x)
                if isinstance(orbit, frozenset):
                    h = 0
                    for v in orbit:
                        h = B.or_(h, B.beq(x, v, t.b))
                    self.fieldg = B.and_(self.fieldg, h)
                elif t.b >= 32 and type(orbit) is not tuple:
                    # 2^31 cycles are out of reach
                    self.fieldg = B.and_(self.fieldg, B.not_(B.bits(x, t.b)[-1]))
            self.cyc = B.vec("cycle", 32, 8_000_000)
            self.set("cycle", self.cyc)
            g = B.and_(B.not_(B.beq(self.cyc, 0, 32)), B.not_(B.beq(self.cyc, 0xFFFFFFFF, 32)))
            g = B.and_(g, self.fieldg)
        else:
            self.cyc, g = 0, 1
        if self.rom < 1 << kb and pcidx is None:
            g = B.and_(g, B.bult(self.idx, self.rom, kb + 1))
        lst, _ = op_list(ctx, "RD_UPDATE_RV32I_OP_LIST")
        self.rdids = {d: o for o, d in lst}
        lst, _ = op_list(ctx, "RAM_UPDATE_OP_LIST")
        self.muids = {d: o for o, d in lst}
        for i in range(self.rom):
            if len(self.rdids) < 32:
                h = 0
                for d in self.rdids:
                    h = B.or_(h, B.beq(self.romd["rdu"][i], d, 5))
                g = B.and_(g, h)
            h = 0
            for d in PCNAMES:
                h = B.or_(h, B.beq(self.romd["pcu"][i], d, 4))
            g = B.and_(g, h)
        self.g = g
        self.nm = dict(pc=self.pcv, cycle=self.cyc)

    def firststate(self, fixed={}):
        """program and RAM loaded into a new machine"""
        self.anystate(pcidx=0, leftovers=False, fixed=fixed)

    def mux(self, idx, vals, w):
        v = 0
        for i, x in enumerate(vals):
            v = B.bite(B.beq(idx, i, w), x, v)
        return v

    def expect(self):
        """the state after one step"""
        kb = max(1, (self.rom - 1).bit_length())
        f = self.f = {n: self.mux(self.idx, self.romd[n], kb) for n in ROMS}
        self.rs1v = self.mux(f["rs1"], self.regs, 5)
        self.rs2v = self.mux(f["rs2"], self.regs, 5)
        self.off = offterm(self.ctx, self.rs1v, f["imm"])
        rb = max(1, (self.ram - 1).bit_length())
        self.ri = B.bv(B.bits(self.off, 32)[2:2 + rb])
        if self.ram < 1 << rb:
            self.g = B.and_(self.g, B.bult(self.ri, self.ram, rb + 1))
        self.ramv = self.mux(self.ri, self.ramd, rb)
        rdv = 0
        for d, op in self.rdids.items():
            rdv = B.bite(B.beq(f["rdu"], d, 5), rdterm(op, f["imm"], self.rs1v, self.rs2v, self.pcv, self.ramv), rdv)
        self.rdv = rdv
        nw = 0
        for d, op in self.muids.items():
            nw = B.bite(B.beq(f["mu"], d, 2), muterm(op, self.rs2v, self.ramv, B.trunc(self.off, 2)), nw)
        self.nw = nw
        self.regs2 = [0 if j == 0 else B.bite(B.beq(f["rd"], j, 5), rdv, self.regs[j]) for j in range(32)]
        self.ram2 = [B.bite(B.beq(self.ri, j, rb), nw, self.ramd[j]) for j in range(self.ram)]
        self.pc2 = pcvalue(f["pcu"], self.rs1v, self.rs2v, self.pcv, f["imm"])
        self.nm.update({k: v for k, v in f.items()})
        self.nm.update(rs1v=self.rs1v, rs2v=self.rs2v)

    def cycle(self, debug=False):
        ctx, I = self.ctx, self.I
        fn = ctx.method("fhevm", "Interpreter", "cycle_debug" if debug else "cycle")
        order = ("self", "module", "keys", "sk", "scratch") if debug else ("self", "module", "keys", "scratch")
        vals = [self.r, MODULE, KEYS] + ([cell(I, SK)] if debug else []) + [SCRATCH]
        I.pc, I.panics = self.g, []
        ints = {n: v for n in self.fs if n != "cycle" for v in [self.get(n)] if type(v) is int}
        I.call_body(fn, ctx.byname(fn, order, vals), {})
        if I.pc != 0:
            for n, v in ints.items():
                x = self.get(n)
                if type(x) is int and x != v:
                    # a field that steps with every cycle
                    ctx.counters[("field", n)] = 1
            for n, (v0, x, w) in getattr(self, "havocked", {}).items():
                h = ctx.havoc[("field", n)]
                if h == 1 or type(h) is tuple:
                    # the values it takes, where its step depends on itself alone
                    if h == 1:
                        ctx.havoc[("field", n)] = "any"
                    y = self.get(n)
                    if type(y) is B.BV and set(B.support(list(y.b))) <= set(B.support(B.bits(x, w))):
                        xs = [B.LV[b] for b in x.b]
                        orbit, v = set(), v0
                        while v not in orbit and len(orbit) < 5000 and v >> len(xs) == 0:
                            orbit.add(v)
                            v = B.ceval(y, {l: v >> i & 1 for i, l in enumerate(xs)})
                        if v in orbit:
                            ctx.havoc[("field", n)] = frozenset(orbit)
                            raise Restart()
                    if type(h) is tuple or type(y) is not B.BV or any(re.match(r"t\d", B.VARNAME.get(l, "t0")) for l in B.support(list(y.b))):
                        # a step with no exact form (a remainder, say): is it closed in a few bits?  If not, its values are unknown
                        ctx.havoc[("field", n)] = (8,) if h == 1 and v0 < 256 else None
                        raise Restart()
        return fn


def compare(m, k, fn, what="after one cycle"):
    ctx, I = m.ctx, m.I
    ctx.never(k + ":panics", B.and_(m.g, B.not_(I.pc)), where(fn), m.nm, "the cycle panics: %s" % (I.panics[:1],))
    g = B.and_(m.g, I.pc)
    if not g:
        return
    I.pc = 1
    regs = m.dump("registers", 32)
    for j in range(32):
        ctx.equal("%s:x%d" % (k, j), regs[j], m.regs2[j], 32, g, where(fn), m.nm, "register x%d %s" % (j, what))
    ram = m.dump("ram", m.ram)
    for j in range(m.ram):
        ctx.equal("%s:ram%d" % (k, j), ram[j], m.ram2[j], 32, g, where(fn), m.nm, "memory word %d %s" % (j, what))
    v = m.get("pc_fhe_uint")
    ctx.equal("%s:pc" % k, v.v if isinstance(v, W) else v, m.pc2, 32, g, where(fn), m.nm, "pc %s" % what)
    ctx.equal("%s:cycle" % k, m.get("cycle"), B.badd(m.cyc, 1, 32), 32, g, where(fn), m.nm, "cycle counter %s" % what)
    for f in ROMS:
        d = m.dump(f + "_rom", m.rom)
        for i in range(m.rom):
            ctx.equal("%s:%s_rom%d" % (k, f, i), d[i], m.romd[f][i], 32, g, where(fn), m.nm, "%s memory entry %d %s" % (f, i, what))


def p11(ctx):
    ctx.rule = ("abstract interpretation of the whole cycle (real Memory, preparation, selection and refresh code) on a symbolic "
                "program, registers, RAM and pc, with leftovers in every intermediate; instruction operations enter as canonical "
                "terms (decided by P06-P10); every register, memory word, program entry and pc bit afterwards must be the step function")
    ctx.trusted = ["sa/poulpy.py (plaintext contracts of poulpy operations)"]

    def one(k, **kw):
        m = Machine(ctx, **kw)
        m.anystate()
        m.expect()
        fn = m.cycle()
        compare(m, k, fn)

    def first(k, **kw):
        m = Machine(ctx, **kw)
        m.firststate()
        m.expect()
        fn = m.cycle()
        compare(m, k, fn, "after the first cycle")

    cfgs = [("A", dict()), ("verbose", dict(verbose=1)), ("n4", dict(n=4, rom=5, ram=4, threads=3, maporder="reverse"))]
    if ctx.tier != "quick":
        cfgs += [("n16", dict(n=16, rom=6, ram=11)), ("n2", dict(n=2, rom=4, ram=4, threads=2)), ("n64", dict(n=64, rom=5, ram=9, threads=7))]
    for k, kw in cfgs:
        if k != "verbose":
            ctx.tryob(k, lambda k=k, kw=kw: one(k, **kw))
    ctx.tryob("registers", regload, ctx)
    ctx.tryob("first", lambda: first("first"))
    ctx.tryob("first verbose", lambda: first("first verbose", verbose=1))
    ops = [o for o in S.OPS if o not in S.MEXT] + ["SYSTEM"]
    for op in ops:
        ctx.tryob("op:" + op, whole, ctx, op)
    ctx.tryob("program", history, ctx, "program", S.mixed(), 34, 3)
    ctx.tryob("loop", history, ctx, "loop", S.spin(), 70 if ctx.tier == "quick" else 300, 20)
    ctx.counts.update(configurations=len(cfgs) + 1, instructions=len(ops))


def regload(ctx):
    """registers set by the caller are the registers of the machine, and nothing else changes"""
    fn = ctx.method("fhevm", "Interpreter", "init_registers")
    for n, rom, ram in ((8, 3, 6), (16, 2, 4), (64, 2, 3)):
        m = Machine(ctx, n=n, rom=rom, ram=ram)
        m.anystate()
        I = m.I
        want = [0] + [B.vec("new%d" % j, 32, 100000 + 32 * j) for j in range(1, 32)]
        src = I.newcell(Agg("array", list(want)))
        I.call_body(fn, ctx.byname(fn, ("self", "module", "data", "sk_prepared", "source_xa", "source_xe", "scratch"),
                                   [m.r, MODULE, Ref(src, (), (0, 32)), SK, XA, XE, SCRATCH]), {})
        k = "registers:n%d" % n
        if I.pc != 1:
            ctx.bad(k, where(fn), "setting the registers panics: %s" % (I.panics[:1],))
            continue
        for j, x in enumerate(m.dump("registers", 32)):
            ctx.equal("%s:x%d" % (k, j), x, want[j], 32, 1, where(fn), {}, "register x%d" % j)
        for j, x in enumerate(m.dump("ram", ram)):
            ctx.equal("%s:ram%d" % (k, j), x, m.ramd[j], 32, 1, where(fn), {}, "memory word %d" % j)
        v = m.get("pc_fhe_uint")
        ctx.equal(k + ":pc", v.v, m.pcv, 32, 1, where(fn), {}, "pc")


def history(ctx, k, words, steps, every=1, debug=False, n=8, ram=4, **kw):
    """a loaded program run for several cycles from the initial state: data symbolic, control and addresses constants"""
    cls = Debug if debug else Machine
    m = cls(ctx, n=n, rom=len(words), ram=ram, **kw)
    I = m.I
    m.ramd = [B.vec("m[%d]" % i, 32, i, ram) for i in range(ram)]
    fn = ctx.method("fhevm", "Interpreter", "ram_encrypt_sk")
    I.call_body(fn, ctx.byname(fn, ("self", "module", "data", "sk_prepared", "source_xa", "source_xe", "scratch"),
                               [m.r, MODULE, Ref(I.newcell(Agg("array", list(m.ramd))), (), (0, ram)), SK, XA, XE, SCRATCH]), {})
    fn = ctx.method("fhevm", "Interpreter", "instructions_encrypt_sk")
    I.call_body(fn, ctx.byname(fn, ("self", "module", "instructions", "sk_prepared", "source_xa", "source_xe", "scratch"),
                               [m.r, MODULE, parser_of(ctx, I, words), SK, XA, XE, SCRATCH]), {})
    if I.pc != 1:
        ctx.und(k, "loading panics: %s" % (I.panics[:1],))
        return
    ids = {t: {x[0]: x[1] for x in ctx.adt(t)[1]["v"]} for t in ("RD_UPDATE", "RAM_UPDATE", "PC_UPDATE")}
    m.rdids = {d: o for o, d in op_list(ctx, "RD_UPDATE_RV32I_OP_LIST")[0]}
    m.muids = {d: o for o, d in op_list(ctx, "RAM_UPDATE_OP_LIST")[0]}
    m.romd = {f: [] for f in ROMS}
    for w in words:
        op = [o for o in S.OPS if S.match(w, o) == 1][0]
        rs2, rs1, rd = S.regs(w, op)
        rdo = op if op in ids["RD_UPDATE"] else "NONE"
        d = dict(imm=S.immediate(w, op), rs1=rs1, rs2=rs2, rd=rd, rdu=ids["RD_UPDATE"][rdo], mu=ids["RAM_UPDATE"].get(op, ids["RAM_UPDATE"]["NONE"]),
                 pcu=ids["PC_UPDATE"].get(op, ids["PC_UPDATE"]["NONE"]))
        for f in ROMS:
            m.romd[f].append(d[f])
    m.regs, m.pcv, m.cyc, m.g = [0] * 32, 0, 0, 1
    for t in range(steps):
        m.idx = m.pcv >> 2
        m.nm = dict(cycle=t, pc=m.pcv)
        m.expect()
        fn = m.cycle(debug)
        if I.pc == 0:
            ctx.bad("%s:%d:panics" % (k, t), where(fn), "cycle %d of a program panics: %s" % (t, I.panics[:1]))
            return
        if t % every == every - 1 or t == steps - 1:
            if compare(m, "%s:%d" % (k, t), fn, "after cycle %d of a program" % t) is False:
                return
        if debug and (t % every == every - 1 or t == steps - 1):
            mirrored(m, "%s:%d" % (k, t), fn)
        m.regs, m.ramd, m.pcv, m.cyc = m.regs2, m.ram2, m.pc2, t + 1
        if not isinstance(m.pcv, int):
            raise Unsupported("pc of a program is not a constant")


def whole(ctx, op, threads=1):
    """one instruction end to end, with the operation itself, the address and the next pc evaluated by the code"""
    k = "op:" + op
    rdo = op if op in names_of(ctx, "RD_UPDATE") else "NONE"
    muo = op if op in S.STORES else "NONE"
    pco = op if op in S.BRANCHES or op in ("JAL", "JALR") else "NONE"
    m = Machine(ctx, n=8, rom=3, ram=4, threads=threads, only=(op,))
    I = m.I
    for key in (cut_off(ctx)[0], cut_pc(ctx)[0]):
        del I.overrides[key]
    if op in S.LOADS + S.STORES + ("LUI", "AUIPC"):
        rs1, imm = B.vec("base", 32, 0, 2), B.vec("immediate", 32, 1, 2)
        rs2 = B.vec("source", 32, 1000, 1)
    elif op in S.BRANCHES:
        rs1, rs2 = B.vec("left", 32, 0, 3), B.vec("right", 32, 1, 3)
        imm = B.vec("immediate", 32, 2, 3)
    else:
        imm, rs1, rs2 = operands(op)[:3]
    imm = imm_form(op, imm)
    kb = 2
    idx = 1
    m.idx, m.pcv = idx, idx * 4
    ids = {t: {x[0]: x[1] for x in ctx.adt(t)[1]["v"]} for t in ("RD_UPDATE", "RAM_UPDATE", "PC_UPDATE")}
    one = dict(rd=3, rs1=5, rs2=7, rdu=ids["RD_UPDATE"][rdo], mu=ids["RAM_UPDATE"][muo], pcu=ids["PC_UPDATE"][pco], imm=imm)
    nop = dict(rd=1, rs1=2, rs2=4, rdu=ids["RD_UPDATE"]["ADDI"], mu=0, pcu=1, imm=77)
    m.romd = {f: [nop[f], one[f], nop[f]] for f in ROMS}
    m.regs = [0] + [0x01010101 * j for j in range(1, 32)]
    m.regs[5], m.regs[7] = rs1, rs2
    m.ramd = [B.vec("m%d" % j, 32, 2000 + 40 * j) for j in range(4)]
    for f in ROMS:
        m.fill(f + "_rom", m.romd[f])
    m.fill("registers", m.regs)
    m.fill("ram", m.ramd)
    for n in m.fs:
        if n.endswith("_fhe_uint"):
            m.set(n, W(PP.junkbits(I, 32)))
        elif n.endswith("_fhe_uint_prepared"):
            m.set(n, WP(PP.junkbits(I, 32)))
    m.set("pc_fhe_uint", W(m.pcv))
    m.cyc = 3
    m.set("cycle", 3)
    off = B.bsub(B.badd(rs1, imm, 32), ram_start(ctx), 32)
    ri = B.bv(B.bits(off, 32)[2:4])
    low = B.trunc(off, 2)
    ramv = m.mux(ri, m.ramd, 2)
    g = 1
    if op in S.LOADS:
        g = B.beq(low, 0, 2)
        rdv = S.load_value(op, ramv, 0)
    elif rdo == "NONE":
        rdv = 0
    else:
        rdv = S.rd_value(op, imm, rs1, rs2, m.pcv)
    nw = ramv
    if op in S.STORES:
        g = S.aligned(op, low)
        nw = S.store_word(op, rs2, ramv, low)
    m.g = g
    m.regs2 = list(m.regs)
    m.regs2[3] = rdv
    m.ram2 = [B.bite(B.beq(ri, j, 2), nw, m.ramd[j]) for j in range(4)]
    m.pc2 = S.next_pc(op, imm, rs1, rs2, m.pcv)
    m.nm = dict(rs1=rs1, rs2=rs2, imm=imm)
    fn = m.cycle()
    compare(m, k, fn, "after one cycle executing %s" % op)


def imm_form(op, imm):
    """immediates as the decoder delivers them"""
    f = S.OPS[op][3] if op in S.OPS else "R"
    if f in ("I", "S"):
        return B.sext(B.trunc(imm, 12), 12, 32)
    if f == "B":
        return B.sext(B.bv([0] + B.bits(imm, 13)[1:]), 13, 32)
    if f == "J":
        return B.sext(B.bv([0] + B.bits(imm, 20)[1:]), 20, 32)     # the circuit takes 20 bits
    if f == "U":
        return B.trunc(imm, 20)
    if f == "SH":
        return B.trunc(imm, 5)
    return 0


# ------------------------------------------------------------------------------------------------ P12
def p12(ctx):
    ctx.rule = ("abstract interpretation: x0 decrypts to zero in a new machine, and after one cycle from any state (any program, any "
                "registers including any x0, any RAM, any pc) x0 decrypts to zero; by induction it is zero in every state")
    ctx.trusted = ["sa/poulpy.py (plaintext contracts of poulpy operations)"]

    def new(k, **kw):
        m = Machine(ctx, **kw)
        fn = ctx.method("fhevm", "Interpreter", "new_with_debug" if kw.get("debug") else "new")
        v = m.dump("registers", 32)
        ctx.equal(k, v[0], 0, 32, 1, where(fn), {}, "x0 of a new machine")

    def step(k, debug=False, **kw):
        m = Machine(ctx, debug=debug, **kw)
        m.anystate(x0=1)
        m.expect()
        fn = m.cycle()
        g = B.and_(m.g, m.I.pc)
        m.I.pc = 1
        if not g:
            ctx.und(k, "the cycle never completes")
            return
        v = m.dump("registers", 32)
        ctx.equal(k, v[0], 0, 32, g, where(fn), m.nm, "x0 after one cycle")

    def load(k):
        m = Machine(ctx)
        I = m.I
        for n, arg in (("ram_encrypt_sk", m.ram), ("instructions_encrypt_sk", None)):
            fn = ctx.method("fhevm", "Interpreter", n)
            if arg is not None:
                d = Ref(I.newcell(Agg("array", [B.vec("m%d" % i, 32, 100 * i) for i in range(arg)])), (), (0, arg))
            else:
                d = parser_of(ctx, I, [0x13] * m.rom)
            I.call_body(fn, ctx.byname(fn, ("self", "module", "data" if arg else "instructions", "sk_prepared", "source_xa", "source_xe", "scratch"),
                                       [m.r, MODULE, d, SK, XA, XE, SCRATCH]), {})
        if I.pc != 1:
            ctx.und(k, "loading panics")
            return
        ctx.equal(k, m.dump("registers", 32)[0], 0, 32, 1, where(fn), {}, "x0 after loading program and memory")

    for n in (2, 4, 8, 16, 32, 64):
        ctx.tryob("new:n%d" % n, lambda: new("new:n%d" % n, n=n))
    ctx.tryob("new debug", lambda: new("new debug", debug=True))
    ctx.tryob("load", lambda: load("load"))
    cfgs = [("A", dict()), ("n4", dict(n=4, rom=5, ram=4, threads=3)), ("t40", dict(n=16, rom=2, ram=3, threads=40))]
    if ctx.tier != "quick":
        cfgs += [("n2", dict(n=2, rom=3, ram=3)), ("n32", dict(n=32, rom=2, ram=3, threads=5)), ("n64", dict(n=64, rom=2, ram=3, threads=5, spawn="reverse"))]
    for k, kw in cfgs:
        ctx.tryob("cycle:" + k, lambda: step("cycle:" + k, **kw))


def parser_of(ctx, I, words):
    """InstructionsParser holding the words, through its own functions"""
    new = ctx.method("fhevm", "InstructionsParser", "new")
    r = cell(I, I.call_body(new, [], {}))
    add = ctx.method("fhevm", "InstructionsParser", "add")
    mk = ctx.method("fhevm", "Instruction", "new")
    for w in words:
        v = I.call_body(mk, [w], {})
        if I.pc == 0:
            return r
        I.call_body(add, ctx.byname(add, ("self", "instruction"), [r, v]), {})
    return r


def loadable(ctx):
    """P02: what parser and encryption of the program accept together is evaluable by the encrypted machine"""
    lst = {o for o, _ in op_list(ctx, "RD_UPDATE_RV32I_OP_LIST")[0]}
    from checks_isa import expect_ops
    fn = ctx.method("fhevm", "Interpreter", "instructions_encrypt_sk")
    for debug in (False, True):
        for pos in (0, 1):
            k = "load:%s%d" % ("debug:" if debug else "", pos)

            def one():
                m = (Debug if debug else Machine)(ctx, n=8, rom=2, ram=4)
                I = m.I
                w = B.vec("w", 32, 0)
                words = [0x00C58533, 0x00C58533]
                words[pos] = w
                p = parser_of(ctx, I, words)
                I.call_body(fn, ctx.byname(fn, ("self", "module", "instructions", "sk_prepared", "source_xa", "source_xe", "scratch"),
                                           [m.r, MODULE, p, SK, XA, XE, SCRATCH]), {})
                ok = I.pc
                good = B.beq(S.fld(w, 0, 7), S.SYSTEM, 7)
                for op in S.OPS:
                    r = expect_ops(op)[0]
                    if r in lst or r == "NONE":
                        good = B.or_(good, S.match(w, op))
                for op in S.OPS:
                    if op in S.MEXT:
                        ctx.never("%s:%s" % (k, op), B.and_(B.and_(ok, B.not_(good)), S.match(w, op)), where(fn), dict(word=w),
                                  "a %s word, which the encrypted machine cannot evaluate, is accepted" % op)
                        good = B.or_(good, S.match(w, op))
                ctx.never("%s:other" % k, B.and_(ok, B.not_(good)), where(fn), dict(word=w), "invalid word accepted")
                ctx.check("%s:some" % k, ok != 0, where(fn), "every program is refused")
            ctx.tryob(k, one)


# ------------------------------------------------------------------------------------------------ P14
GUARDED = {"read_stateless": 0, "read_statefull": 0, "write": 0, "read_statefull_rev": 1}
ACC = ("self", "threads", "module", "res", "address", "offset", "keys", "scratch")


def memfields(ctx):
    k, fs = fields(ctx, "Memory", "fhevm")
    return fs


def p14(ctx):
    ctx.rule = ("typestate analysis: in every function of Memory the open/closed flag is abstractly interpreted from both states (a "
                "wrong-state call must panic before anything is touched, a right-state call must leave the prescribed state); over a "
                "whole cycle from any closed state the event sequence of every memory must be (stateless read | write | clear | "
                "stateful read ; write-back at the same address and offset)* and end closed")
    ctx.trusted = ["sa/poulpy.py (plaintext contracts of poulpy operations)"]
    import checks_mem as CM

    def setstate(m, r, v):
        fs = memfields(ctx)
        if "state" not in fs:
            raise Unsupported("state of Memory")
        m.I.write(m.I.sub(r, ("f", fs.index("state"))), v)

    def getstate(I, r):
        fs = memfields(ctx)
        if "state" not in fs:
            raise Unsupported("state of Memory")
        return I.read(I.sub(r, ("f", fs.index("state"))))

    def access(m, name, off=0):
        I = m.I
        res = cell(I, W(m.w))
        ad = cell(I, m.address(off))
        if name == "zero":
            return CM.invoke(ctx, I, "zero", ("self", "threads", "module", "addr", "keys", "scratch"), [m.r, 1, MODULE, 0, KEYS, SCRATCH])[1]
        order = CM.ACC if name in ("read_stateless", "read_statefull") else CM.WR
        return CM.invoke(ctx, I, name, order, [m.r, 1, MODULE, res, ad, off, KEYS, SCRATCH])[1]

    def guard(name, want, n, size):
        """a call in the wrong state"""
        k = "guard:%s:n%d:size%d" % (name, n, size)
        m = CM.Mem(ctx, n, size, 3)
        m.encrypt()
        if want == 0:
            access(m, "read_statefull")       # opens
            if m.I.pc == 0:
                raise Unsupported("open panics")
        m.I.panics = []
        fn = access(m, name)
        ctx.never(k, B.and_(m.inr, m.I.pc), where(fn), m.nm,
                  "%s runs to completion on %s memory" % (name, "an open" if want == 0 else "a closed"))

    def right(name, n, size):
        k = "state:%s:n%d:size%d" % (name, n, size)
        m = CM.Mem(ctx, n, size, 3)
        m.encrypt()
        seq = {"read_statefull_rev": ["read_statefull"]}.get(name, [])
        for s in seq:
            access(m, s)
        fn = access(m, name)
        g = B.and_(m.inr, m.I.pc)
        ctx.never(k + ":panics", B.and_(m.inr, B.not_(m.I.pc)), where(fn), m.nm, "%s panics in the right state: %s" % (name, m.I.panics[:1]))
        if not g:
            return
        # what the flag allows afterwards, observed through the guards themselves
        want = {"read_statefull": ("read_statefull_rev", ("read_stateless", "read_statefull", "write"))}.get(
            name, ("read_stateless", ("read_statefull_rev",)))
        st0, pc0 = dict(m.I.st), m.I.pc
        for nxt, ok in [(want[0], True)] + [(x, False) for x in want[1]]:
            m.I.st, m.I.pc, m.I.panics = dict(st0), pc0, []
            f2 = access(m, nxt)
            if ok:
                ctx.never("%s:then %s" % (k, nxt), B.and_(g, B.not_(m.I.pc)), where(f2), m.nm, "%s is refused after %s" % (nxt, name))
            else:
                ctx.never("%s:then %s" % (k, nxt), B.and_(g, m.I.pc), where(f2), m.nm, "%s is accepted after %s" % (nxt, name))
        m.I.st, m.I.pc = st0, pc0

    for n, size in ((4, 3), (4, 9)) if ctx.tier == "quick" else ((4, 3), (4, 9), (2, 7), (8, 8), (8, 30), (16, 5)):
        for name, want in GUARDED.items():
            ctx.tryob("guard:%s:%d:%d" % (name, n, size), guard, name, want, n, size)
            ctx.tryob("state:%s:%d:%d" % (name, n, size), right, name, n, size)
        ctx.tryob("state:zero:%d:%d" % (n, size), right, "zero", n, size)

    def new(k):
        for dbg in (False, True):
            m = Machine(ctx, debug=dbg)
            fn = ctx.method("fhevm", "Interpreter", "new")
            for f in ("ram", "registers") + tuple(x + "_rom" for x in ROMS):
                v = m.memstate(f)
                ctx.check("%s:%s:%s" % (k, "debug" if dbg else "plain", f), v == 0, where(fn), "memory %s of a new machine is open (%r)" % (f, v))
    ctx.tryob("new", new, "new")

    def cyc(k, first=False, **kw):
        m = Machine(ctx, **kw)
        m.firststate() if first else m.anystate()
        m.expect()
        I = m.I
        ev = []
        for name in tuple(GUARDED) + ("zero", "encrypt_sk", "decrypt"):
            fn = ctx.method("fhevm", "Memory", name)

            def wrap(I, key, args, env, fn=fn, name=name):
                order = CM.ACC if name in ("read_stateless", "read_statefull") else CM.WR if name in GUARDED else None
                ad = off = None
                if order:
                    mp = argmap(ctx, fn, order, args)
                    ad, off = PP.wp(I, mp["address"]), mp["offset"]
                ev.append([who(I, args[0]), name, I.pc, ad, off])
                return I.call_body(fn, args, env)
            I.overrides[fn.key] = wrap

        def who(I, r):
            for f in ("ram", "registers") + tuple(x + "_rom" for x in ROMS):
                x = m.field(f)
                if isinstance(r, Ref) and (r.cell, r.path) == (x.cell, x.path):
                    return f
            return "?"
        fn = m.cycle(debug=kw.get("debug", False))
        g = B.and_(m.g, I.pc)
        if not g:
            ctx.und(k, "the cycle never completes: %s" % (I.panics[:1],))
            return
        per = {}
        for e in ev:
            per.setdefault(e[0], []).append(e)
        if "?" in per or "ram" not in per:
            ctx.und(k + ":events", "memories not identified")
        for f, l in per.items():
            opened = None
            okk = True
            for i, e in enumerate(l):
                kk = "%s:%s:%d" % (k, f, i)
                if opened is None:
                    if e[1] == "read_statefull":
                        opened = e
                    okk = ctx.check(kk, e[1] != "read_statefull_rev", where(fn), "write-back on %s without an open read" % f) and okk
                else:
                    if e[1] != "read_statefull_rev":
                        okk = ctx.check(kk, False, where(fn), "%s on %s between a stateful read and its write-back" % (e[1], f)) and okk
                        continue
                    if e[4] != opened[4]:
                        okk = ctx.check(kk, False, where(fn), "write-back to %s with another address offset" % f) and okk
                    same_addr(ctx, kk + ":address", m, f, opened, e, g, fn)
                    if e[2] != opened[2] and B.and_(g, B.xor_(e[2], opened[2])):
                        ctx.und(kk, "conditional accesses")
                    opened = None
            ctx.check("%s:%s:closed" % (k, f), opened is None, where(fn), "%s is left open at the end of the cycle" % f)
        n = sum(1 for e in per.get("ram", []) if e[1] == "read_statefull")
        ctx.check(k + ":ram:once", n == 1, where(fn), "RAM is opened %d times in one cycle" % n)
        for f in ("ram", "registers") + tuple(x + "_rom" for x in ROMS):
            v = m.memstate(f)
            ctx.never("%s:%s:state" % (k, f), B.and_(g, B.bits(v, 1)[0]) if isint(v) else 0, where(fn), m.nm, "%s is open after the cycle" % f)

    ctx.tryob("cycle", lambda: cyc("cycle"))
    ctx.tryob("first cycle", lambda: cyc("first cycle", first=True))
    ctx.tryob("threads", lambda: cyc("threads", n=4, rom=3, ram=9, threads=5))


def same_addr(ctx, k, m, f, a, b, g, fn):
    """both accesses select the same word"""
    size = {"ram": m.ram, "registers": 32}.get(f, m.rom)
    bits = max(1, (size - 1).bit_length())
    o1, o2 = a[4], b[4]
    if not isinstance(o1, int) or not isinstance(o2, int):
        ctx.und(k, "offset")
        return
    x = B.bv(B.bits(a[3], 32)[o1:o1 + bits])
    y = B.bv(B.bits(b[3], 32)[o2:o2 + bits])
    ctx.equal(k, y, x, bits, g, where(fn), m.nm, "address of the write-back to %s" % f)


# ------------------------------------------------------------------------------------------------ P15
def p15(ctx):
    ctx.rule = ("abstract interpretation of every multi-threaded operation with symbolic data for thread counts below, at and above the "
                "number of elements and not dividing it, with the spawned closures run in program order and in reverse; each result "
                "must be the function that the single-threaded operation computes (no element skipped, processed twice or given to "
                "the wrong slot)")
    ctx.trusted = ["sa/poulpy.py (plaintext contracts of poulpy operations; poulpy's own multi-threaded calls satisfy them for every count)",
                   "safe Rust: spawned closures share no mutable memory"]
    ctx.assumptions = ["thread counts listed in the obligations (and those next to every constant of the multi-threaded code); data are symbolic"]
    import checks_mem as CM
    quick = ctx.tier == "quick"
    near = thread_counts(ctx)
    few = tuple(range(1, 12)) + (13, 15, 16, 17, 31, 32, 33, 64, 70)
    cfgs = ((4, 5, 5, tuple(sorted(set(few) | near)), 2), (4, 3, 32, tuple(range(1, 41)) + (63, 64, 65, 70, 100, 128) + tuple(near), 2), (8, 5, 8, tuple(range(2, 12)), 1),
            (4, 21, 3, (2, 3, 4, 5, 7, 16), 1), (2, 9, 4, (2, 3, 5), 1))
    if not quick:
        cfgs += ((2, 5, 32, tuple(range(1, 40)), 2), (8, 20, 9, tuple(range(1, 24)), 2), (4, 33, 12, tuple(range(2, 20)), 2))
    for n, size, word, ths, both in cfgs:
        for t in sorted(set(ths)):
            for sp in ("", "reverse") if both == 2 else ("reverse" if t % 2 else "",):
                k = "mem:n%d:size%d:bits%d:t%d%s" % (n, size, word, t, ":rev" if sp else "")
                kw = dict(spawn=sp)
                ctx.tryob(k, lambda: (CM.stateless(ctx, k + ":read_stateless", n, size, word, 2, t, **kw)))
                ctx.tryob(k, lambda: (CM.statefull(ctx, k + ":read_statefull", n, size, word, 0, t, **kw)))
                ctx.tryob(k, lambda: (CM.writes(ctx, k + ":write", n, size, word, 0, t, **kw)))
                ctx.tryob(k, lambda: (CM.zeros(ctx, k + ":zero", n, size, word, size - 1, t, **kw)))
    prep(ctx, sorted(set(range(1, 71)) | {100, 128, 200} | near))
    # operations
    lst, lf = op_list(ctx, "RD_UPDATE_RV32I_OP_LIST")
    import checks_enc as CE
    for op, _ in lst:
        for t in sorted({2, 3, 4, 5, 8, 16, 31, 32, 33, 64} | near):
            def one():
                I = fresh(ctx)
                a = operands(op)
                r1, ok1, fn, _ = CE.eval_rd(ctx, I, op, *a, threads=1)
                p1 = I.pc
                I.pc = 1
                r2, ok2, fn, _ = CE.eval_rd(ctx, I, op, *a, threads=t, dirty=op != "NONE")
                k = "op:%s:t%d" % (op, t)
                ctx.never(k + ":panics", B.xor_(ok1, ok2), where(fn), {}, "panics with %d threads only" % t)
                if ok1 and ok2:
                    ctx.equal(k, r2.v, r1.v, 32, B.and_(ok1, ok2), where(fn), dict(imm=a[0], rs1=a[1], rs2=a[2]), "%s with %d threads" % (op, t))
            ctx.tryob("op:%s:t%d" % (op, t), one)
    for t in sorted({2, 3, 4, 7, 8, 16, 33, 64} | near if quick else set(range(2, 70)) | near):
        kw = dict(spawn="reverse" if t % 2 else "")

        def one():
            m = Machine(ctx, threads=t, **kw)
            m.anystate()
            m.expect()
            fn = m.cycle()
            compare(m, "cycle:t%d" % t, fn, "after one cycle with %d threads" % t)
        ctx.tryob("cycle:t%d" % t, one)

    def setting():
        st, gt = ctx.method("fhevm", "Interpreter", "set_threads"), ctx.method("fhevm", "Interpreter", "threads")
        for t in sorted({1, 2, 3, 7, 32, 33, 200} | near):
            m = Machine(ctx, threads=5)
            m.I.call_body(st, [m.r, t], {})
            ok1 = m.I.pc == 1
            v = m.I.call_body(gt, [m.r], {})
            ctx.check("set_threads:%d" % t, ok1 and m.I.pc == 1 and v == t, where(st), "asking for %d threads gives %s" % (t, v))
    ctx.tryob("set_threads", setting)


def thread_counts(ctx, top=300):
    """thread counts next to the small constants that multi-threaded code compares with"""
    from checks_vm import consts_of, callees
    fns = [f for f in ctx.prog.fns.values() if f.crate == "fhevm" and f.blocks and
           ("threads" in {n for n, _ in f.names} or any("chunks" in c or "thread::" in c for c in callees(f)))
           and not any(x in f.file for x in ("/tests", "/codegen", "measurements"))]
    c = {x + d for x in consts_of(ctx, fns) for d in (-1, 0, 1)}
    ctx.counts["constants of multi-threaded code"] = len(c)
    return {x for x in c if 1 <= x <= top}


def prep(ctx, ths):
    fns = [f for f in ctx.prog.fns.values() if f.crate == "fhevm" and f.n == "prepare_multiple_fheuint" and f.blocks]
    if not fns:
        raise Anchor("prepare_multiple_fheuint")
    fn = fns[0]
    order = ("self", "threads", "res", "bits", "bit_counts", "key", "scratch")
    for counts in ((5, 2, 4, 32, 5, 5, 5), (32, 32), (1,), (3, 1, 2), (4, 4, 4)):
        for t in ths:
            for sp in ("", "reverse"):
                k = "prepare:%s:t%d%s" % ("+".join(map(str, counts)), t, ":rev" if sp else "")

                def one():
                    I = fresh(ctx, spawn=sp)
                    src = [B.vec("v%d" % i, 32, 40 * i) for i in range(len(counts))]
                    old = [PP.junkbits(I, 32) for _ in counts]
                    dst = [cell(I, WP(o)) for o in old]
                    res = cell(I, stdvec(I, dst))
                    I.call_body(fn, ctx.byname(fn, order, [MODULE, t, res, stdvec(I, [cell(I, W(s)) for s in src]), stdvec(I, list(counts)), KEYS, SCRATCH]), {})
                    ctx.check(k + ":panics", I.pc == 1, where(fn), "panics: %s" % (I.panics[:1],))
                    if I.pc != 1:
                        return
                    bad = None
                    for i, d in enumerate(dst):
                        v = I.read(d)
                        w = v.v if isinstance(v, WP) else v
                        if not isint(w):
                            ctx.und(k, "value %r" % (w,))
                            return
                        x, y = B.bits(w, 32), B.bits(src[i], 32)
                        for j in range(counts[i]):
                            if x[j] != y[j]:
                                bad = bad or (i, j)
                    ctx.check(k, bad is None, where(fn), "bit %s of word %s is not the source bit" % ((bad[1], bad[0]) if bad else (0, 0)))
                ctx.tryob(k, one)


def stdvec(I, l):
    return Agg("vec", list(l))


# ------------------------------------------------------------------------------------------------ P16
def p16(ctx):
    ctx.rule = ("information-flow analysis: in the abstract interpretation of `cycle` from any state, and of every operation it can "
                "evaluate, (a) no call that takes the secret key or turns a ciphertext into a plaintext (decrypt, noise, encryption "
                "under the secret key) is reachable, (b) no branch, index or loop bound depends on plaintext contents, (c) the "
                "sequence of accesses does not depend on contents")
    ctx.trusted = ["sa/poulpy.py (which poulpy operations reveal plaintexts)"]

    def judge(k, m, fn, allowed=()):
        I = m.I if hasattr(m, "I") else m
        for what, w, loc in I.mode["sklog"]:
            ctx.bad("%s:%s" % (k, what), "%s (%s)" % (w, loc), "%s is reached from non-debug execution" % what)
        if not I.mode["sklog"]:
            ctx.ok(k + ":secret key")
        bad = []
        for v, f, loc in I.mode["branchlog"]:
            sup = {B.VARNAME.get(l, "?").split("[")[0] for l in B.support(B.bits(v, 64) if not isinstance(v, int) else [])}
            if not sup <= set(allowed):
                bad.append((f, loc, sorted(sup)[:4]))
        ctx.check(k + ":branches", not bad, "%s (%s)" % bad[0][:2] if bad else "", "a branch depends on encrypted contents: %s" % (bad[:3],))

    def cyc(k, first=False, **kw):
        m = Machine(ctx, **kw)
        m.firststate() if first else m.anystate()
        m.expect()
        m.I.mode["sklog"], m.I.mode["branchlog"] = [], []
        fn = m.cycle()
        if m.I.pc == 0:
            ctx.und(k, "the cycle never completes")
            return
        judge(k, m, fn, ("cycle",))

    ctx.tryob("cycle", lambda: cyc("cycle"))
    ctx.tryob("first", lambda: cyc("first", first=True))
    ctx.tryob("threads", lambda: cyc("threads", n=4, rom=3, ram=9, threads=5))
    ctx.tryob("debug machine", lambda: cyc("debug machine", debug=True))
    ctx.tryob("verbose", lambda: cyc("verbose", first=True, verbose=1))
    import checks_enc as CE
    for op, _ in op_list(ctx, "RD_UPDATE_RV32I_OP_LIST")[0]:
        def one():
            I = fresh(ctx, sklog=[], branchlog=[])
            _, ok1, fn, _ = CE.eval_rd(ctx, I, op, *operands(op), threads=3)
            judge("rd:" + op, I, fn)
        ctx.tryob("rd:" + op, one)
    for op, _ in op_list(ctx, "RAM_UPDATE_OP_LIST")[0]:
        def one():
            I = fresh(ctx, sklog=[], branchlog=[])
            fn = traitfn(ctx, "Store", "RAM_UPDATE", "eval_enc")
            slf = cell(I, enum_val(ctx, I, "RAM_UPDATE", None, op))
            addr, rs2, old = B.vec("addr", 32, 0), B.vec("rs2", 32, 100, 2), B.vec("word", 32, 101, 2)
            CE.call(ctx, I, fn, RAM, [slf, 1, MODULE, cell(I, W(0)), cell(I, W(rs2)), cell(I, W(old)), cell(I, WP(addr)), KEYS, SCRATCH])
            judge("ram:" + op, I, fn)
        ctx.tryob("ram:" + op, one)

    def pcu():
        I = fresh(ctx, sklog=[], branchlog=[])
        fn = ctx.func("fhevm", "update_pc")
        CE.call(ctx, I, fn, PCU, [3, MODULE, cell(I, W(0))] + [cell(I, WP(0x1234 + i)) for i in range(4)] + [cell(I, WP(B.vec("op", 4, 0))), KEYS, SCRATCH])
        judge("update_pc", I, fn)
    ctx.tryob("update_pc", pcu)

    def off():
        I = fresh(ctx, sklog=[], branchlog=[])
        fn = ctx.func("fhevm", "ram_offset")
        CE.call(ctx, I, fn, OFF, [3, MODULE, cell(I, W(0)), cell(I, WP(B.vec("a", 32, 0, 2))), cell(I, WP(B.vec("b", 32, 1, 2))), KEYS, SCRATCH])
        judge("ram_offset", I, fn)
    ctx.tryob("ram_offset", off)
    import checks_vm as CV
    CV.execs(ctx, blind=True)
    CV.vm_modes(ctx, False)


# ------------------------------------------------------------------------------------------------ P20
def plain_cuts(ctx, I):
    """plaintext evaluators as the same canonical terms (decided by P03)"""
    f1 = ctx.method("fhevm", "RD_UPDATE", "eval_plain")
    f2 = ctx.method("fhevm", "RAM_UPDATE", "eval_plain")
    f3 = ctx.method("fhevm", "PC_UPDATE", "eval_plain")
    ids = {x[0]: x[1] for x in ctx.adt("PC_UPDATE")[1]["v"]}

    def rd(I, key, args, env):
        m = argmap(ctx, f1, ("self", "imm", "rs1", "rs2", "pc", "ram"), args)
        return rdterm(vname(I, m["self"]), m["imm"], m["rs1"], m["rs2"], m["pc"], m["ram"])

    def mu(I, key, args, env):
        m = argmap(ctx, f2, ("self", "rs2", "ram", "offset"), args)
        return muterm(vname(I, m["self"]), m["rs2"], m["ram"], B.trunc(m["offset"], 2))

    def pc(I, key, args, env):
        m = argmap(ctx, f3, ("self", "imm", "rs1", "rs2", "pc"), args)
        return pcterm(ids[vname(I, m["self"])], m["rs1"], m["rs2"], m["pc"], m["imm"])
    I.overrides[f1.key], I.overrides[f2.key], I.overrides[f3.key] = perop(rd), perop(mu), perop(pc)


class Debug(Machine):
    """a machine with its plaintext mirror"""

    def __init__(self, ctx, **kw):
        super().__init__(ctx, debug=True, **kw)
        B.LINEAR[0] = True
        plain_cuts(ctx, self.I)
        v = self.get("vm_debug")
        if isinstance(v, Agg) and not v.f and ctx.pid == "P20":
            ctx.bad("mirror", where(ctx.method("fhevm", "Interpreter", "new_with_debug")), "a machine made for debugging has no plaintext mirror")
        if not isinstance(v, Agg) or not v.f:
            raise Unsupported("no mirror in a debug machine")
        self.mk, self.mf = fields(ctx, "InterpreterDebug", "fhevm")

    def mref(self, n):
        if n not in self.mf:
            raise Unsupported("field %s of the mirror" % n)
        return self.I.sub(self.I.sub(self.field("vm_debug"), ("v", 1, 0) if False else ("f", 0)), ("f", self.mf.index(n)))

    def mirror(self, romd=None, regs=None, ramd=None, pcv=None):
        I = self.I
        romd, regs, ramd = romd or self.romd, regs or self.regs, ramd or self.ramd
        for f in ROMS:
            I.write(self.mref(f + "_rom"), Agg("vec", list(romd[f])))
        I.write(self.mref("registers"), Agg("array", list(regs)))
        I.write(self.mref("ram"), Agg("vec", list(ramd)))
        I.write(self.mref("pc"), self.pcv if pcv is None else pcv)
        for n in ("ram_addr", "imm", "rs1_val", "rs2_val", "ram_val", "rd_val", "rs1_addr", "rs2_addr", "rd_addr", "rdu", "pcu", "mu"):
            if n in self.mf:
                I.write(self.mref(n), PP.junkbits(I, 32))
        # preparation covers the bits that address the program; the others were never written
        v = self.get("pc_fhe_uint_prepared")
        if isinstance(v, WP):
            kb = max(1, (self.rom - 1).bit_length())
            self.set("pc_fhe_uint_prepared", WP(B.trunc(v.v, kb + 2)))


def mirrored(m, k, fn):
    """the mirror holds the state after the step"""
    ctx, I = m.ctx, m.I
    md = {n: I.read(m.mref(n)) for n in ("registers", "ram", "pc")}
    f2 = [f for f in ctx.prog.methods("fhevm", "InterpreterDebug") if f.n == "update_registers"]
    wh = where(f2[0] if f2 else fn)
    for j in range(32):
        ctx.equal("%s:mirror x%d" % (k, j), md["registers"].f[j], m.regs2[j], 32, m.g, wh, m.nm, "mirror register x%d" % j)
    for j in range(m.ram):
        ctx.equal("%s:mirror ram%d" % (k, j), md["ram"].f[j], m.ram2[j], 32, m.g, wh, m.nm, "mirror memory word %d" % j)
    ctx.equal("%s:mirror pc" % k, md["pc"], m.pc2, 32, m.g, wh, m.nm, "mirror pc")


def xored(l, i, d):
    l = list(l)
    l[i] = B.bxor(l[i], d, 32)
    return l


def p20(ctx):
    ctx.rule = ("abstract interpretation of a debug cycle with its mirror: (a) from any state that agrees with the mirror the run does "
                "not stop, leaves the same encrypted state as the plain cycle and the mirror in the state of one machine step; "
                "(b) for each component (pc, each program field, each register, each memory word, the derived address, the "
                "register result, the stored word, the next pc) any difference between machine and mirror stops the run; "
                "(c) loading sets machine and mirror to the same contents")
    ctx.trusted = ["sa/poulpy.py (plaintext contracts of poulpy operations)"]
    cfg = dict(n=8, rom=4, ram=4)

    split = []

    def agree(k, first=False, fixed={}, **kw):
        try:
            agree1(k, first, fixed, **kw)
        except B.TooBig:   # one operation at a time
            if fixed or split:
                raise
            split.append(k)
            ids = {t: {x[0]: x[1] for x in ctx.adt(t)[1]["v"]} for t in ("RD_UPDATE", "RAM_UPDATE", "PC_UPDATE")}
            base = dict(rs1=0, rs2=3, rd=5, imm=ram_start(ctx) & 0xFFFFFFFF, rdu=ids["RD_UPDATE"]["NONE"], mu=ids["RAM_UPDATE"]["NONE"],
                        pcu=ids["PC_UPDATE"]["NONE"])
            cases = [("%s@%d" % (o, i), dict(base, mu=ids["RAM_UPDATE"][o], imm=(base["imm"] + 4 * i) & 0xFFFFFFFF))
                     for i in range(kw["ram"]) for o, _ in op_list(ctx, "RAM_UPDATE_OP_LIST")[0]]
            if not first:
                cases += [(o, dict(base, rs1=7, rdu=d)) for o, d in op_list(ctx, "RD_UPDATE_RV32I_OP_LIST")[0] if o[0] != "L" or o == "LUI"]
                cases += [(o, dict(base, rdu=ids["RD_UPDATE"][o])) for o in ids["RD_UPDATE"] if o in ("LB", "LBU", "LH", "LHU", "LW")]
                cases += [(o, dict(base, pcu=d)) for o, d in ids["PC_UPDATE"].items()]
            for o, fx in cases:
                ctx.tryob("%s:%s" % (k, o), lambda: agree1("%s:%s" % (k, o), first, fx, **dict(kw, rom=2)))

    def agree1(k, first, fixed, **kw):
        m = Debug(ctx, **kw)
        m.firststate(fixed=fixed) if first else m.anystate(fixed=fixed)
        m.expect()
        m.mirror()
        fn = m.cycle(debug=True)
        compare(m, k, fn, "after one debug cycle")
        mirrored(m, k, fn)

    ctx.tryob("agree", lambda: agree("agree", **cfg))
    ctx.tryob("agree first", lambda: agree("agree first", first=True, **cfg))
    ctx.tryob("agree threads", lambda: agree("agree threads", n=4, rom=2, ram=8, threads=3))
    ctx.tryob("program", history, ctx, "program", S.mixed(), 34, 6, True)

    def deviate(k, setup, what, n=8, rom=4, ram=4, fixed={}):
        m = Debug(ctx, n=n, rom=rom, ram=ram)
        m.anystate(fixed=fixed)
        m.expect()
        m.g = B.and_(m.g, setup(m))
        fn = m.cycle(debug=True)
        ctx.never(k, B.and_(m.g, m.I.pc), where(fn), m.nm, what)

    def d32(w=32):
        return B.vec("delta", w, 9_000_000)

    def nz(d, w=32):
        return B.not_(B.beq(d, 0, w))

    def devpc(m):
        o = B.vec("other", 2, 9_000_000)
        m.mirror(pcv=B.bv([0, 0] + B.bits(o, 2)))
        return B.and_(B.bult(o, m.rom, 3), B.not_(B.beq(o, m.idx, 2)))
    ctx.tryob("pc", lambda: deviate("deviation:pc", devpc, "a pc different from the mirror's goes unnoticed"))
    for f in ROMS:
        def devrom(m):
            d = d32(WIDTH[f])
            romd = dict(m.romd)
            romd[f] = [B.bxor(x, d, 32) for x in romd[f]]
            m.mirror(romd=romd)
            return nz(d, WIDTH[f])
        ctx.tryob("rom " + f, lambda: deviate("deviation:%s" % f, devrom, "a fetched %s different from the mirror's goes unnoticed" % f))
    # the deviating register is read as rs1, read as rs2, or not touched
    for j in (1, 5, 16, 31) if ctx.tier == "quick" else range(1, 32):
        a, b, c = [x for x in (2, 9, 30, 12) if x != j][:3]
        for case, fx in (("rs1", dict(rs1=j, rs2=b, rd=c)), ("rs2", dict(rs1=a, rs2=j, rd=c)), ("idle", dict(rs1=a, rs2=b, rd=c)),
                         ("overwritten", dict(rs1=j, rs2=b, rd=j))):
            def devreg(m):
                d = d32()
                m.mirror(regs=xored(m.regs, j, d))
                return nz(d)
            ctx.tryob("reg %d %s" % (j, case), lambda: deviate("deviation:x%d:%s" % (j, case), devreg,
                                                               "a register different from the mirror's goes unnoticed", fixed=fx))
    st = ram_start(ctx)
    for j in range(4):
        for i in range(4):
            def devram(m):
                d = d32()
                m.mirror(ramd=xored(m.ramd, j, d))
                return nz(d)
            ctx.tryob("ram %d %d" % (j, i), lambda: deviate("deviation:ram%d:access%d" % (j, i), devram,
                      "a memory word different from the mirror's goes unnoticed", fixed=dict(rs1=0, imm=st + 4 * i)))

    def skew(which):
        """the encrypted operation deviates by delta"""
        def setup(m):
            I = m.I
            m.mirror()
            d = d32()
            k, f = {"rd": cut_rd, "store": cut_mu}[which](ctx) if which in ("rd", "store") else {"address": cut_off, "pc": cut_pc}[which](ctx)

            def g(I, key, args, env):
                r = f(I, key, args, env)
                fn = ctx.prog.fns[key]
                mp = argmap(ctx, fn, {"rd": RD, "store": RAM, "address": OFF, "pc": PCU}[which], args)
                PP.setv(I, mp["res"], W(B.bxor(PP.word(I, mp["res"]), d, 32)))
                return r
            I.overrides[k] = g
            return nz(d)
        return setup
    ctx.tryob("rd result", lambda: deviate("deviation:rd result", skew("rd"), "a wrong register result goes unnoticed"))
    ctx.tryob("stored word", lambda: deviate("deviation:stored word", skew("store"), "a wrong stored word goes unnoticed"))
    ctx.tryob("address", lambda: deviate("deviation:address", skew("address"), "a wrong memory address goes unnoticed"))

    def nextpc():
        what = "a wrong next pc goes unnoticed"
        try:
            deviate("deviation:next pc", skew("pc"), what)
        except B.TooBig:   # one operation at a time
            for v in ctx.adt("PC_UPDATE")[1]["v"]:
                deviate("deviation:next pc:%s" % v[0], skew("pc"), what, fixed=dict(pcu=v[1]))
    ctx.tryob("next pc", nextpc)

    def load():
        m = Debug(ctx, n=8, rom=3, ram=4)
        I = m.I
        data = [B.vec("m%d" % i, 32, 1000 + 100 * i) for i in range(4)]
        fn = ctx.method("fhevm", "Interpreter", "ram_encrypt_sk")
        d = Ref(I.newcell(Agg("array", list(data))), (), (0, 4))
        I.call_body(fn, ctx.byname(fn, ("self", "module", "data", "sk_prepared", "source_xa", "source_xe", "scratch"), [m.r, MODULE, d, SK, XA, XE, SCRATCH]), {})
        ctx.check("load:ram:panics", I.pc == 1, where(fn), "loading RAM panics: %s" % (I.panics[:1],))
        if I.pc != 1:
            return
        mr, er = I.read(m.mref("ram")).f, m.dump("ram", 4)
        for i in range(4):
            ctx.equal("load:ram%d" % i, er[i], data[i], 32, 1, where(fn), {}, "machine RAM after loading")
            ctx.equal("load:mirror ram%d" % i, mr[i], data[i], 32, 1, where(fn), {}, "mirror RAM after loading")
    ctx.tryob("load ram", load)
    ctx.tryob("load program", lambda: program(ctx, "load", debug=True))

    def start():
        m = Debug(ctx, n=8, rom=3, ram=4)
        fn = ctx.method("fhevm", "Interpreter", "new_with_debug")
        I = m.I
        for j, v in enumerate(I.read(m.mref("registers")).f):
            ctx.equal("start:x%d" % j, v, 0, 32, 1, where(fn), {}, "mirror register of a new machine")
        ctx.equal("start:pc", I.read(m.mref("pc")), 0, 32, 1, where(fn), {}, "mirror pc of a new machine")
        v = m.get("pc_fhe_uint_prepared")
        ctx.equal("start:machine pc", v.v if isinstance(v, WP) else v, 0, 32, 1, where(fn), {}, "pc of a new machine")
        for j, v in enumerate(m.dump("registers", 32)):
            ctx.equal("start:machine x%d" % j, v, 0, 32, 1, where(fn), {}, "register of a new machine")
    ctx.tryob("start", start)
    B.LINEAR[0] = False
    import checks_vm as CV
    CV.vm_modes(ctx, True)


# ------------------------------------------------------------------------------------------------ P26
def program(ctx, k, debug=False, positions=(0, 1, 2), rom=3):
    """load [.., w at position i, ..] and read the seven memories back"""
    ids = {t: {x[0]: x[1] for x in ctx.adt(t)[1]["v"]} for t in ("RD_UPDATE", "RAM_UPDATE", "PC_UPDATE")}
    from checks_isa import expect_ops
    lst = {o for o, _ in op_list(ctx, "RD_UPDATE_RV32I_OP_LIST")[0]}
    fn = ctx.method("fhevm", "Interpreter", "instructions_encrypt_sk")
    fixed = [(0x00C58533, "ADD", 10, 11, 12, 0), (0xFEA42E23, "SW", 0, 8, 10, 0xFFFFFFFC), (0x00B51463, "BNE", 0, 10, 11, 8)]
    for pos in positions:
        def one():
            m = (Debug if debug else Machine)(ctx, n=8, rom=rom, ram=4)
            I = m.I
            for o in ("RD_UPDATE", "RAM_UPDATE", "PC_UPDATE"):
                pass
            w = B.vec("w", 32, 0)
            words = [fixed[i % 3][0] for i in range(rom)]
            words[pos] = w
            nm = dict(word=w)
            p = parser_of(ctx, I, words)
            ok = I.pc
            for op in S.OPS:
                if op in S.MEXT or op not in lst and expect_ops(op)[0] != "NONE":
                    continue
                ctx.never("%s:%d:%s:parser" % (k, pos, op), B.and_(S.match(w, op), B.not_(ok)), where(fn), nm, "a valid %s word is refused" % op)
            # only words the parser accepts and the machine supports
            g = 0
            for op in S.OPS:
                if op not in S.MEXT:
                    g = B.or_(g, S.match(w, op))
            I.pc = B.and_(g, ok)
            st = I.pc
            I.panics = []
            I.call_body(fn, ctx.byname(fn, ("self", "module", "instructions", "sk_prepared", "source_xa", "source_xe", "scratch"),
                                       [m.r, MODULE, p, SK, XA, XE, SCRATCH]), {})
            ctx.never("%s:%d:panics" % (k, pos), B.and_(st, B.not_(I.pc)), where(fn), nm, "loading panics: %s" % (I.panics[:1],))
            g = I.pc
            if not g:
                return
            I.pc = 1
            for f in ROMS:
                d = [("machine", m.dump(f + "_rom", rom))]
                if debug:
                    d.append(("mirror", I.read(m.mref(f + "_rom")).f))
                for who, vals in d:
                    for i in range(rom):
                        kk = "%s:%s:%d:%s%d" % (k, who, pos, f, i)
                        if i != pos:
                            _, op, rd, rs1, rs2, imm = fixed[i % 3]
                            ctx.equal(kk, vals[i], want_field(ids, f, op, rd, rs1, rs2, imm), 32, g, where(fn), nm, "%s of instruction %d" % (f, i))
                            continue
                        v = 0
                        for op in S.OPS:
                            if op in S.MEXT:
                                continue
                            rs2, rs1, rd = S.regs(w, op)
                            v = B.bite(S.match(w, op), want_field(ids, f, op, rd, rs1, rs2, S.immediate(w, op)), v)
                        ctx.equal(kk, vals[i], v, 32, g, where(fn), nm, "%s of instruction %d" % (f, i))
        ctx.tryob("%s:%d" % (k, pos), one)


def want_field(ids, f, op, rd, rs1, rs2, imm):
    from checks_isa import expect_ops
    e = expect_ops(op)
    return {"rd": rd, "rs1": rs1, "rs2": rs2, "imm": imm, "rdu": ids["RD_UPDATE"][e[0]], "mu": ids["RAM_UPDATE"][e[1]],
            "pcu": ids["PC_UPDATE"][e[2]]}[f]


def p26(ctx):
    ctx.rule = ("abstract interpretation of loading a program with a symbolic word at each position: every entry of the seven memories "
                "must be the decoded field (as a Boolean function of the word); a cycle from any program must deliver every field to "
                "its consumer (all registers, memory words and pc bits afterwards depend on the fetched fields as the step function does)")
    ctx.trusted = ["sa/poulpy.py (plaintext contracts of poulpy operations)", "sa/spec.py"]
    program(ctx, "load")
    if ctx.tier != "quick":
        program(ctx, "load5", positions=range(9), rom=9)
        program(ctx, "load debug", debug=True)

    def fetch(k, **kw):
        m = Machine(ctx, **kw)
        m.anystate()
        m.expect()
        fn = m.cycle()
        compare(m, k, fn, "after executing the fetched instruction")
    ctx.tryob("fetch", lambda: fetch("fetch"))
    ctx.tryob("fetch n4", lambda: fetch("fetch n4", n=8, rom=9, ram=2))


# --------------------------------------------------------------------------------------------------- P29
LOW = 1 << 40       # stored ciphertexts lie below everything that is computed in the cycle


def p29(ctx):
    ctx.rule = ("freshness (lineage) analysis by abstract interpretation of one cycle from any state: every circuit bootstrapping and "
                "every circuit over bootstrapped selectors yields unknowns of its own, all other operations propagate their "
                "operands; afterwards a register, RAM word or pc bit may depend on its own former ciphertext (left in place), on "
                "the program memories and on renewed unknowns, and on no other stored ciphertext")
    ctx.trusted = ["sa/poulpy.py (which poulpy operations bootstrap)"]

    def own(l, i, b):
        x = l[i]
        return B.support([B.bits(x, 32)[b]]) if not isinstance(x, int) else set()

    def state(m, first):
        I = m.I
        regs = [B.vec("x%d" % j, 32, LOW + 64 * j) for j in range(32)]
        m.anystate(pcidx=0 if first else None, regs=regs, leftovers=not first)
        ram = [B.vec("ram%d" % j, 32, LOW + 64 * (40 + j)) for j in range(m.ram)]
        m.fill("ram", ram)
        m.ramd = ram
        I.mode["renewed"] = set()
        m.g = 1 if first else B.and_(m.fieldg, B.and_(B.not_(B.beq(m.cyc, 0, 32)), B.not_(B.beq(m.cyc, 0xFFFFFFFF, 32))))

    def name(lv):
        return B.VARNAME.get(lv, "?")

    def one(k, first=False, cycles=1, **kw):
        m = Machine(ctx, cuts=False, **kw)
        state(m, first)
        for c in range(cycles):
            fn = m.cycle()
            g = m.I.pc
            if g == 0:
                ctx.und("%s:%d" % (k, c), "the cycle never completes: %s" % (m.I.panics[:1],))
                return
            m.I.pc = 1
            m.g = 1
            new = {"registers": m.dump("registers", 32), "ram": m.dump("ram", m.ram)}
            free = set(m.I.mode["renewed"])
            free |= {l for l, x in B.VARNAME.items() if x.startswith(("field ", "static ", "outside world", "cycle["))}
            for f in ROMS:
                for x in m.romd[f]:
                    free |= B.support(B.bits(x, 32))
            for what, old in (("registers", m.regs), ("ram", m.ramd)):
                for j, v in enumerate(new[what]):
                    bad = set()
                    for b, x in enumerate(B.bits(v, 32)):
                        bad |= B.support([B.and_(g, x)]) - free - own(old, j, b) - B.support([g])
                    ctx.check("%s:%d:%s[%d]" % (k, c, what, j), not bad, where(fn),
                              "%s %d takes over a ciphertext that was not bootstrapped in this cycle (from %s)" %
                              ("register" if what == "registers" else "memory word", j, sorted({name(x).split("[")[0] for x in bad})[:3]))
            v = m.get("pc_fhe_uint")
            bad = B.support([B.and_(g, x) for x in B.bits(v.v, 32)]) - free - B.support([g])
            ctx.check("%s:%d:pc" % (k, c), not bad, where(fn), "the program counter takes over a ciphertext that was not bootstrapped in "
                      "this cycle (from %s)" % (sorted({name(x).split("[")[0] for x in bad})[:3],))

    cfgs = [("any", dict()), ("first", dict(first=True)), ("threads", dict(n=4, rom=4, ram=4, threads=3)), ("verbose", dict(first=True, verbose=1))]
    if ctx.tier != "quick":
        cfgs += [("n16", dict(n=16, rom=4, ram=9)), ("n64", dict(n=64, rom=4, ram=4, threads=7))]
    for k, kw in cfgs:
        ctx.tryob(k, lambda k=k, kw=kw: one(k, **kw))
    ctx.counts.update(configurations=len(cfgs))
