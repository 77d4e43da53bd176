"""P05: one step of the cleartext machine."""
import bdd as B
import spec as S
from symarr import SymArr, Base
from core import *


def fields(ctx, name, crate):
    k, a = ctx.adt(name, crate)
    return k, [f[0] for f in a["v"][0][2]]


def mk(ctx, name, crate, **kw):
    """struct value with fields given by name"""
    k, fs = fields(ctx, name, crate)
    for n in kw:
        if n not in fs:
            raise Unsupported("field %s of %s" % (n, name))
    more = [n for n in fs if n not in kw and n not in KNOWN.get(name, fs)]
    if more:
        kw = dict(kw)
        try:
            v = constructed(ctx, name, crate, kw)
        except (Unsupported, KeyError, AttributeError, IndexError):
            v = None
        for n in more:
            x = v.f[fs.index(n)] if isinstance(v, Agg) and v.id == k else None
            if x is not None and pure(x):
                kw[n] = x
    return Agg("adt", [kw.get(n, Top("field " + n)) for n in fs], k, 0)


# fields the checks give values to, or that play no part
KNOWN = {"TestVM": {"registers", "rom", "ram", "pc", "input_info", "output_info", "max_cycles"},
         "Memory": {"data", "offset", "_is_write", "size"}, "BootMemory": {"data", "offset", "size"},
         "InputInfo": {"start_addr", "size"}, "OutputInfo": {"start_addr", "size"},
         "Phantom": {"boot_rom", "boot_ram", "output_info", "input_info", "_elf_bytes"},
         "EncryptedVM": {"params", "sk_prepared", "key_prepared", "interpreter", "output_info", "ram_offset", "max_cycles", "phantom_debug"}}


def pure(v):
    return isint(v) or isinstance(v, StrV) or isinstance(v, Agg) and all(pure(x) for x in v.f)


def constructed(ctx, name, crate, kw):
    """the value a constructor gives to fields that the checks do not know"""
    I = ctx.interp()

    def call(ty, fn, order, args):
        f = ctx.method(crate, ty, fn)
        v = I.call_body(f, ctx.byname(f, order, args), {})
        return v if I.pc == 1 else None

    def empty(m):
        k, fs = fields(ctx, "Memory", crate)
        off, size = m.f[fs.index("offset")], m.f[fs.index("size")]
        return Ref(I.newcell(mk(ctx, "BootMemory", crate, data=Agg("vec", []), offset=off, size=size)))
    if name == "Memory":
        return call(name, "new", ("offset", "size", "is_write"), [kw["offset"], kw["size"], kw.get("_is_write", 1)])
    if name == "BootMemory":
        return call(name, "new", ("offset", "size", "data"), [kw["offset"], kw["size"], kw["data"]])
    if name == "TestVM":
        inf = [kw.get(n) or mk(ctx, t, crate, start_addr=1 << 18, size=4) for n, t in (("input_info", "InputInfo"), ("output_info", "OutputInfo"))]
        return call(name, "init", ("boot_rom", "boot_ram", "input_info", "output_info", "max_cycles"),
                    [empty(kw["rom"]), empty(kw["ram"])] + [Ref(I.newcell(x)) for x in inf] + [kw.get("max_cycles", 7)])
    return None


def getf(ctx, v, name, crate, field):
    k, fs = fields(ctx, name, crate)
    if field not in fs:
        raise Unsupported("field %s of %s" % (field, name))
    return v.f[fs.index(field)]


CFG = [dict(rom_off=0, rom_size=1 << 18, ram_off=1 << 18, ram_size=1 << 17),
       dict(rom_off=0, rom_size=3 << 14, ram_off=1 << 18, ram_size=3 << 12)]


def immpos(op):
    """position in the sum of every immediate bit of the word (bit 31, the sign, stays on top)"""
    f = S.OPS[op][3]
    if f == "I":
        return {20 + k: k for k in range(11)}
    if f == "S":
        return {**{7 + k: k for k in range(5)}, **{25 + k: 5 + k for k in range(6)}}
    if f == "B":
        return {**{8 + k: 1 + k for k in range(4)}, **{25 + k: 5 + k for k in range(6)}, 7: 11}
    if f == "J":
        return {**{21 + k: 1 + k for k in range(10)}, 20: 11, **{12 + k: 12 + k for k in range(8)}}
    if f == "U":
        return {k: k for k in range(12, 32)}
    return {}


def word(op, base=100, stride=6):
    pos = immpos(op)
    return B.bv([B.var("w[%d]" % i, base + stride * pos[i] + 3 if i in pos else i) for i in range(32)])


def step(ctx, op, cfg, cn, rdcase):
    I = ctx.fresh()
    key = "%s:cfg%d" % (op, cn)
    # instruction word, operand values, pc: inputs in a suitable order
    w = word(op)
    pc = B.vec("pc", 32, 100, 6)
    a = B.vec("rs1v", 32, 101, 6)
    b = B.vec("rs2v", 32, 102, 6) if op not in S.STORES else B.vec("rs2v", 32, 1000)
    # immediates are bits of w: place the word's bits so that they sit next to the operand bits
    nm = dict(word=w, pc=pc, rs1=a, rs2=b)
    rom, ram = cfg["rom_off"], cfg["ram_off"]
    g = S.match(w, op)
    inrom = B.and_(B.not_(B.bult(pc, rom, 32)), B.bult(pc, rom + cfg["rom_size"] - 3, 32))
    g = B.and_(g, inrom)
    g = B.and_(g, B.beq(B.trunc(pc, 2), 0, 2))
    imm = S.immediate(w, op)
    rs2i, rs1i, rd = S.regs(w, op)
    av = B.bite(B.beq(rs1i, 0, 5), 0, a)
    bv_ = B.bite(B.beq(rs2i, 0, 5), 0, b)
    # when both sources name the same register, they hold the same value
    same = B.beq(rs1i, rs2i, 5)
    size = {"B": 1, "H": 2, "W": 4}
    addr = None
    if op in S.LOADS or op in S.STORES:
        n = size[op[1]]
        addr = B.badd(av, imm, 32)
        g = B.and_(g, B.and_(B.not_(B.bult(addr, ram, 32)), B.bult(addr, ram + cfg["ram_size"] - (n - 1), 32)))
        g = B.and_(g, S.aligned(op, B.trunc(addr, 2)))
        nm["addr"] = addr
    if op in ("JAL", "JALR") or op in S.BRANCHES:
        tgt = S.next_pc(op, imm, av, bv_, pc)
        g = B.and_(g, B.beq(B.trunc(tgt, 2), 0, 2))
    romb = Base("rom", 8, g)
    for i in range(4):
        romb.seed(B.badd(B.bsub(pc, rom, 64), i, 64), B.bv(B.bits(w, 32)[8 * i:8 * i + 8]))
    regb = Base("regs", 32, g, zero0=True)
    regb.seed(rs1i, a)
    if rs2i != 0:
        regb.seed(rs2i, b)
    ramb = Base("ram", 8, g)
    mem = None
    if op in S.LOADS:
        mem = B.vec("mem", 8 * n, 105, 6)
        base = B.bsub(addr, ram, 64)
        for i in range(n):
            ramb.seed(B.badd(base, i, 64), B.bv(B.bits(mem, 8 * n)[8 * i:8 * i + 8]))
        nm["mem"] = mem
    C = "compiler"
    vm = mk(ctx, "TestVM", C,
            registers=SymArr(regb, 32), pc=pc,
            rom=mk(ctx, "Memory", C, data=SymArr(romb, cfg["rom_size"]), offset=rom, size=cfg["rom_size"]),
            ram=mk(ctx, "Memory", C, data=SymArr(ramb, cfg["ram_size"]), offset=ram, size=cfg["ram_size"]),
            max_cycles=B.vec("maxc", 64, 5000))
    fn = ctx.method(C, "TestVM", "run")
    r = Ref(I.newcell(vm))
    I.pc, I.panics = g, []
    I.call_body(fn, [r], {})
    ok = I.pc
    pan = [p for p in I.panics]
    ctx.never(key + ":panics", B.and_(g, B.not_(ok)), where(fn), nm,
              "%s panics (%s)" % (op, pan[0][1:] if pan else ""))
    if ok == 0:
        return
    out = I.read(r)
    # pc
    if op in S.MEXT:
        want = S.m_value(op, av, bv_)
    elif op in S.LOADS:
        want = S.load_value(op, mem, 0)
    elif op in S.STORES or op in S.BRANCHES:
        want = None
    else:
        want = S.rd_value(op, imm, av, bv_, pc)
    ctx.equal(key + ":pc", getf(ctx, out, "TestVM", C, "pc"), S.next_pc(op, imm, av, bv_, pc), 32, ok, where(fn), nm, "pc after " + op)
    # register file at an arbitrary index
    j = B.vec("j", 5, 50)
    regs = getf(ctx, out, "TestVM", C, "registers")
    old = regb.select(j)
    if want is None:
        wj = old
    else:
        wj = B.bite(B.and_(B.beq(j, rd, 5), B.not_(B.beq(rd, 0, 5))), want, old)
    if isinstance(regs, SymArr):
        ctx.equal(key + ":registers", regs.aread(I, j), wj, 32, ok, where(fn), dict(nm, register=j), "register after " + op)
    else:
        ctx.und(key + ":registers", "register file %r" % (regs,))
    # memory at an arbitrary byte
    ramv = getf(ctx, getf(ctx, out, "TestVM", C, "ram"), "Memory", C, "data")
    romv = getf(ctx, getf(ctx, out, "TestVM", C, "rom"), "Memory", C, "data")
    k = B.vec("k", 17, 104, 6)
    oldk = B.term(("sel", "ram", k), 8)
    wk = oldk
    if op in S.STORES:
        base = B.bsub(addr, ram, 64)
        for i in range(n):
            wk = B.bite(B.beq(k, B.badd(base, i, 64), 64), B.bv(B.bits(bv_, 32)[8 * i:8 * i + 8]), wk)
    if isinstance(ramv, SymArr):
        ramv.base.care = 1
        ctx.equal(key + ":ram", ramv.aread(I, k), wk, 8, ok, where(fn), dict(nm, byte=k), "RAM byte after " + op)
    else:
        ctx.und(key + ":ram", "ram %r" % (ramv,))
    if isinstance(romv, SymArr):
        ctx.check(key + ":rom", not romv.log, where(fn), "%s writes instruction memory" % op)


def spec_step(w, regs, ram, base, pc):
    """(registers, ram bytes, pc) after the instruction word w (a constant); addresses and control must be constants"""
    op = [o for o in S.OPS if S.match(w, o) == 1][0]
    rs2, rs1, rd = S.regs(w, op)
    imm = S.immediate(w, op)
    a, b = regs[rs1], regs[rs2]
    regs, ram = list(regs), list(ram)
    npc = S.next_pc(op, imm, a, b, pc)
    if op in S.LOADS or op in S.STORES:
        ad = B.badd(a, imm, 32)
        if not isinstance(ad, int):
            raise Unsupported("address of a program is not a constant")
        n = {"B": 1, "H": 2, "W": 4}[op[1]]
        i = ad - base
    v = None
    if op in S.LOADS:
        v = S.load_value(op, B.bv([x for j in range(n) for x in B.bits(ram[i + j], 8)]), 0)
    elif op in S.STORES:
        for j in range(n):
            ram[i + j] = B.bv(B.bits(b, 32)[8 * j:8 * j + 8])
    elif op in S.MEXT:
        v = S.m_value(op, a, b)
    elif op not in S.BRANCHES:
        v = S.rd_value(op, imm, a, b, pc)
    if v is not None and rd:
        regs[rd] = v
    return op, regs, ram, npc


def program(ctx, k, words, steps, every=1, size=64, base=1 << 18, tape=None):
    """a machine made by test_vm runs a program: data symbolic, control and addresses constants"""
    import poulpy as PP
    I = ctx.fresh(PP.M)
    C = "compiler"
    ram = [B.bv([B.var("m%d[%d]" % (i, j), 8 * (i % 4) * 16 + j * 16 + i // 4) for j in range(8)]) for i in range(size)]
    rom = [w >> 8 * j & 255 for w in words for j in range(4)]
    bm = [mk(ctx, "BootMemory", C, data=Agg("vec", list(d)), offset=o, size=len(d)) for d, o in ((rom, 0), (ram, base))]
    ph = mk(ctx, "Phantom", C, boot_rom=bm[0], boot_ram=bm[1], input_info=mk(ctx, "InputInfo", C, start_addr=base, size=4),
            output_info=mk(ctx, "OutputInfo", C, start_addr=base, size=4), _elf_bytes=PP.NONE if hasattr(PP, "NONE") else Top("none"))
    f = ctx.method(C, "Phantom", "test_vm")
    v = I.call_body(f, ctx.byname(f, ("self", "max_cycles"), [Ref(I.newcell(ph)), steps]), {})
    if I.pc != 1:
        ctx.und(k, "construction panics: %s" % (I.panics[:1],))
        return
    r = Ref(I.newcell(v))
    fn = ctx.method(C, "TestVM", "run")
    regs, pc = [0] * 32, 0
    for t in range(steps):
        op, regs, ram, npc = spec_step(words[pc >> 2], regs, ram, base, pc)
        I.call_body(fn, [r], {})
        kk = "%s:%d" % (k, t)
        if I.pc != 1:
            ctx.bad(kk + ":panics", where(fn), "step %d of a program (%s at pc %d) panics: %s" % (t, op, pc, I.panics[:1]))
            return
        out = I.read(r)
        nm = dict(step=t, pc=pc)
        good = ctx.equal(kk + ":pc", getf(ctx, out, "TestVM", C, "pc"), npc, 32, 1, where(fn), nm, "pc after step %d (%s)" % (t, op))
        if t % every == every - 1 or t == steps - 1:
            rg = getf(ctx, out, "TestVM", C, "registers")
            if isinstance(rg, Agg):
                for j in range(32):
                    good &= ctx.equal("%s:x%d" % (kk, j), rg.f[j], regs[j], 32, 1, where(fn), nm, "x%d after step %d (%s)" % (j, t, op)) is not False
            d = getf(ctx, getf(ctx, out, "TestVM", C, "ram"), "Memory", C, "data")
            if isinstance(d, Agg):
                for j in range(size):
                    good &= ctx.equal("%s:byte%d" % (kk, j), d.f[j], ram[j], 8, 1, where(fn), nm, "RAM byte %d after step %d (%s)" % (j, t, op)) is not False
        if good is False:
            return
        pc = npc
        if not isinstance(pc, int):
            raise Unsupported("pc of a program is not a constant")


def p05(ctx):
    ctx.rule = ("abstract interpretation of TestVM::run on a symbolic register file, memory, pc and instruction word, one run per "
                "mnemonic; pc, an arbitrary register and an arbitrary memory byte after the step must be the specification's "
                "functions of the state before")
    ctx.trusted = ["sa/spec.py (RV32IM semantics)", "instruction and RAM regions of two representative sizes (accesses in range)"]
    for cn, cfg in enumerate(CFG):
        for op in S.OPS:
            ctx.tryob("%s:cfg%d" % (op, cn), step, ctx, op, cfg, cn, 0)
    quick = ctx.tier == "quick"
    mext = [S.enc(o, 16 + i, 5 + i % 2, 6) for i, o in enumerate(("MUL", "MULH", "MULHSU", "MULHU", "DIV", "DIVU", "REM", "REMU"))]
    prog = S.mixed()
    ctx.tryob("program", program, ctx, "program", prog, 70 if quick else 300, 3)
    ctx.tryob("program:m", program, ctx, "program:m", prog[:3] + mext + [S.enc("JAL", 0, imm=-32)], 40, 5)
    ctx.tryob("loop", program, ctx, "loop", S.spin(), 4000 if quick else 20000, 20)
    ctx.counts["mnemonics"] = len(S.OPS)
