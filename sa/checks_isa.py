"""P01-P04: decoder and plaintext evaluators of the encrypted machine."""
import bdd as B
import spec as S
from core import *


def enum_val(ctx, I, ty, v, var):
    """Agg of enum variant by name"""
    k, a = ctx.adt(ty)
    for i, x in enumerate(a["v"]):
        if x[0] == var:
            return Agg("adt", [], k, i)
    raise Anchor("%s::%s" % (ty, var))


def names_of(ctx, ty):
    k, a = ctx.adt(ty)
    return [x[0] for x in a["v"]]


def cond_is(v, id_, i):
    """condition under which the enum value v is variant i"""
    if type(v) is Union:
        g = 0
        for h, a in v.alts:
            g = B.or_(g, B.and_(h, cond_is(a, id_, i)))
        return g
    if isinstance(v, Agg) and v.id == id_:
        return 1 if v.var == i else 0
    raise Unsupported("enum value %r" % (v,))


def expect_ops(op):
    if op in S.STORES:
        return "NONE", op, "NONE"
    if op in S.BRANCHES:
        return "NONE", "NONE", op
    if op in ("JAL", "JALR"):
        return op, "NONE", op
    return op, "NONE", "NONE"


def decode(ctx, I, w):
    """abstract results of the decoder on the word w: (imm, (rs2,rs1,rd), (rdu,ramu,pcu)), each with its no-panic condition"""
    inst = Ref(I.newcell(Agg("adt", [w], ctx.adt("Instruction")[0])))
    out = []
    for n in ("get_imm", "get_registers", "get_opid"):
        fn = ctx.method("fhevm", "Instruction", n)
        I.pc, I.panics = 1, []
        v = I.call_body(fn, [inst], {})
        out.append((v, I.pc, fn))
    return out


def parser_add(ctx, I, w):
    """InstructionsParser::new(); add(word); get(0)"""
    new = ctx.method("fhevm", "InstructionsParser", "new")
    add = ctx.method("fhevm", "InstructionsParser", "add")
    get = ctx.method("fhevm", "InstructionsParser", "get")
    k = ctx.adt("Instruction")[0]
    I.pc, I.panics = 1, []
    p = Ref(I.newcell(I.call_body(new, [], {})))
    I.call_body(add, [p, Agg("adt", [w], k)], {})
    pc = I.pc
    v = I.call_body(get, [p, 0], {})
    raw = I.call_body(ctx.method("fhevm", "InstructionsParser", "get_raw"), [p, 0], {})
    return v, pc, I.pc, raw, add


def p01(ctx):
    ctx.rule = ("abstract interpretation of the decoder's MIR on one symbolic 32-bit word; every result bit, as a Boolean "
                "function of the word, must equal the specification's function wherever the word is a valid encoding")
    ctx.trusted = ["sa/spec.py (RV32IM encoding tables)"]
    I = ctx.interp()
    w = B.vec("w", 32, 0)
    nm = {"word": w}
    (imm, okimm, fimm), (regs, okr, freg), (ops, oko, fop) = decode(ctx, I, w)
    enums = [ctx.adt(n)[0] for n in ("RD_UPDATE", "RAM_UPDATE", "PC_UPDATE")]
    vals = [names_of(ctx, n) for n in ("RD_UPDATE", "RAM_UPDATE", "PC_UPDATE")]
    for op in S.OPS:
        g = S.match(w, op)
        for what, ok, fn in (("get_imm", okimm, fimm), ("get_registers", okr, freg), ("get_opid", oko, fop)):
            ctx.never("%s:%s:panics" % (op, what), B.and_(g, B.not_(ok)), where(fn), nm, "%s panics on a valid %s word" % (what, op))
        ctx.equal("%s:imm" % op, imm, S.immediate(w, op), 32, B.and_(g, okimm), where(fimm), nm, "immediate of %s" % op)
        for i, f in enumerate(("rs2", "rs1", "rd")):
            ctx.equal("%s:%s" % (op, f), regs.f[i], S.regs(w, op)[i], 32, B.and_(g, okr), where(freg), nm, "%s of %s" % (f, op))
        for i, (e, l) in enumerate(zip(enums, vals)):
            want = expect_ops(op)[i]
            if want not in l:
                raise Anchor("variant %s" % want)
            ctx.tryob("%s:op%d" % (op, i), lambda: ctx.never(
                "%s:op%d" % (op, i), B.and_(B.and_(g, oko), B.not_(cond_is(ops.f[i], e, l.index(want)))), where(fop), nm,
                "%s is not decoded as %s" % (op, want)))
    # the parser used to load programs keeps every decoded field
    v, okadd, okget, raw, fadd = parser_add(ctx, I, w)
    for op in S.OPS:
        g = S.match(w, op)
        ctx.never("%s:parser:panics" % op, B.and_(g, B.not_(okget)), where(fadd), nm, "parser panics on a valid %s word" % op)
        g = B.and_(g, okget)
        exp = [B.sext(S.immediate(w, op), 32, 64) if False else S.immediate(w, op)] + list(S.regs(w, op))
        ids = []
        for i, (e, l) in enumerate(zip(enums, vals)):
            ids.append(ctx.prog.adts[e]["v"][l.index(expect_ops(op)[i])][1])
        for n, got, want, wd in zip(("imm", "rs2", "rs1", "rd", "rdu", "ramu", "pcu"), v.f, exp + ids, (32, 64, 64, 64, 64, 64, 64)):
            ctx.equal("%s:parser:%s" % (op, n), got, want, wd, g, where(fadd), nm, "parser field %s of %s" % (n, op))
        ctx.equal("%s:parser:raw" % op, raw.f[0], w, 32, g, where(fadd), nm, "raw word")
    ctx.counts["mnemonics"] = len(S.OPS)
    ctx.done(I)


def p02(ctx):
    ctx.rule = ("abstract interpretation of the decoder on one symbolic word: the non-panicking condition of loading the word "
                "must imply that the word is a supported encoding")
    ctx.trusted = ["sa/spec.py (RV32IM encoding tables)"]
    I = ctx.interp()
    w = B.vec("w", 32, 0)
    nm = {"word": w}
    v, okadd, okget, raw, fadd = parser_add(ctx, I, w)
    sysop = B.beq(S.fld(w, 0, 7), S.SYSTEM, 7)
    allv = sysop
    for op in S.OPS:
        allv = B.or_(allv, S.match(w, op))
    # one obligation per major opcode, so that a known finding cannot hide another
    named = {0b0110111: "LUI", 0b0010111: "AUIPC", 0b1101111: "JAL", 0b1100111: "JALR", 0b1100011: "BRANCH",
             0b0000011: "LOAD", 0b0100011: "STORE", 0b0010011: "OP-IMM", 0b0110011: "OP", S.SYSTEM: "SYSTEM"}
    bad = B.and_(okadd, B.not_(allv))
    for oc, n in named.items():
        o = B.beq(S.fld(w, 0, 7), oc, 7)
        if n == "OP-IMM":
            for f3 in range(8):
                h = B.and_(o, B.beq(S.fld(w, 12, 3), f3, 3))
                ctx.never("accept:%s:%d" % (n, f3), B.and_(bad, h), where(fadd), nm, "invalid word accepted")
        else:
            ctx.never("accept:%s" % n, B.and_(bad, o), where(fadd), nm, "invalid word accepted")
        bad = B.and_(bad, B.not_(o))
    ctx.never("accept:other", bad, where(fadd), nm, "word with an unknown major opcode accepted")
    # the no-op opcode has no effect
    for i, n in enumerate(("imm", "rs2", "rs1", "rd")):
        ctx.equal("system:%s" % n, v.f[i], 0, 64, B.and_(sysop, okget), where(fadd), nm, "SYSTEM word decodes with %s" % n)
    none = []
    for ty in ("RD_UPDATE", "RAM_UPDATE", "PC_UPDATE"):
        k, a = ctx.adt(ty)
        none.append([x[1] for x in a["v"] if x[0] == "NONE"][0])
    for i, n in enumerate(("rdu", "ramu", "pcu")):
        ctx.equal("system:%s" % n, v.f[4 + i], none[i], 64, B.and_(sysop, okget), where(fadd), nm, "SYSTEM word is not a no-op")
    ctx.done(I)
    import checks_cycle
    checks_cycle.loadable(ctx)


def evalenum(ctx, I, ty, op, args):
    fn = ctx.method("fhevm", ty, "eval_plain")
    self_ = Ref(I.newcell(enum_val(ctx, I, ty, None, op)))
    I.pc, I.panics = 1, []
    v = I.call_body(fn, [self_] + args, {})
    return v, I.pc, fn


def argorder(ctx, fn, names):
    """positions of the arguments by name (the debug names of the MIR locals)"""
    return None


def operands(op):
    """symbolic operands in a variable order that suits the operation"""
    if op in ("LUI", "AUIPC"):      # imm[i] next to pc[i+12]
        pc = B.vec("pc", 32, 0, 2)
        imm = B.vec("imm", 32, 25, 2)
        rs1, rs2, ram = B.vec("rs1", 32, 1000, 1), B.vec("rs2", 32, 1100, 1), B.vec("ram", 32, 1200, 1)
        return imm, rs1, rs2, pc, ram
    return [B.vec(n, 32, i, 5) for i, n in enumerate(("imm", "rs1", "rs2", "pc", "ram"))]


def p03(ctx):
    ctx.rule = ("abstract interpretation of eval_plain for each operation on symbolic operands; each result bit must be the same "
                "Boolean function of the operands as in the RV32I specification")
    ctx.trusted = ["sa/spec.py (RV32I semantics)"]
    for op in names_of(ctx, "RD_UPDATE"):
        if op in S.MEXT:
            continue

        def one():
            I = ctx.fresh()
            imm, rs1, rs2, pc, ram = operands(op)
            nm = dict(imm=imm, rs1=rs1, rs2=rs2, pc=pc, ram=ram)
            v, ok, fn = evalenum(ctx, I, "RD_UPDATE", op, [imm, rs1, rs2, pc, ram])
            ctx.never("RD:%s:panics" % op, B.not_(ok), where(fn), nm, "%s panics" % op)
            if op == "NONE":
                return
            if op in S.LOADS:
                want = S.load_value(op, ram, 0)
            else:
                want = S.rd_value(op, imm, rs1, rs2, pc)
            ctx.equal("RD:%s" % op, v, want, 32, ok, where(fn), nm, "result of %s" % op)
        ctx.tryob("RD:%s" % op, one)
    for op in names_of(ctx, "PC_UPDATE"):
        def one():
            I = ctx.fresh()
            imm, rs1, rs2, pc, ram = operands(op)
            nm = dict(imm=imm, rs1=rs1, rs2=rs2, pc=pc)
            v, ok, fn = evalenum(ctx, I, "PC_UPDATE", op, [imm, rs1, rs2, pc])
            ctx.never("PC:%s:panics" % op, B.not_(ok), where(fn), nm, "%s panics" % op)
            ctx.equal("PC:%s" % op, v, S.next_pc(op, imm, rs1, rs2, pc), 32, ok, where(fn), nm, "next pc of %s" % op)
        ctx.tryob("PC:%s" % op, one)
    I = ctx.fresh()
    imm, rs1, rs2, pc, ram = operands("")
    off = B.vec("off", 2, 1000)
    nm2 = dict(rs2=rs2, ram=ram, offset=off)
    for op in names_of(ctx, "RAM_UPDATE"):
        def one():
            v, ok, fn = evalenum(ctx, I, "RAM_UPDATE", op, [rs2, ram, off])
            ctx.never("RAM:%s:panics" % op, B.not_(ok), where(fn), nm2, "%s panics" % op)
            if op == "NONE":
                ctx.equal("RAM:NONE", v, ram, 32, ok, where(fn), nm2, "memory word without a store")
            else:
                ctx.equal("RAM:%s" % op, v, S.store_word(op, rs2, ram, off), 32, B.and_(ok, S.aligned(op, off)), where(fn), nm2,
                          "memory word after %s" % op)
        ctx.tryob("RAM:%s" % op, one)


def p04(ctx):
    ctx.rule = ("abstract interpretation of eval_plain for the M operations on symbolic operands; products and quotients are "
                "canonical terms, special cases are exact; the result must equal the specification's on every operand pair")
    ctx.trusted = ["sa/spec.py (RV32M semantics)", "equality of products/quotients is syntactic on canonical operands"]
    I = ctx.interp()
    rs1, rs2 = B.vec("rs1", 32, 0, 2), B.vec("rs2", 32, 1, 2)
    nm = dict(rs1=rs1, rs2=rs2)
    have = names_of(ctx, "RD_UPDATE")
    for op in S.MEXT:
        if op not in have:
            raise Anchor("RD_UPDATE::" + op)

        def one():
            v, ok, fn = evalenum(ctx, I, "RD_UPDATE", op, [0, rs1, rs2, 0, 0])
            ctx.never("%s:panics" % op, B.not_(ok), where(fn), nm, "%s panics" % op)
            ctx.equal("%s" % op, v, S.m_value(op, rs1, rs2), 32, ok, where(fn), nm, "result of %s" % op)
        ctx.tryob(op, one)
    ctx.done(I)
