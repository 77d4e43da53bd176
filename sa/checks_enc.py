"""P06-P10, P25: encrypted operations on the plaintext meaning of ciphertexts."""
import bdd as B
import spec as S
import poulpy as PP
from poulpy import W, WP, P, MODULE, SCRATCH, Opaque, val
from core import *
from checks_isa import enum_val, names_of

KEYS = Opaque("keys")


def fresh(ctx, n=1, **mode):
    I = ctx.fresh(PP.M)
    I.mode["n"] = n
    I.mode.update(mode)
    return I


def traitfn(ctx, trait, ty, name, crate="fhevm"):
    """body of the trait method for the local type"""
    k, _ = ctx.adt(ty, crate)
    for im in ctx.prog.impls:
        if im["tr"].split("::")[-1] == trait and im["self"].k == "adt" and im["self"].id == k and name in im["items"]:
            return ctx.prog.fns[im["items"][name]]
    # any method of that name on the type
    for im in ctx.prog.impls:
        if im["self"].k == "adt" and im["self"].id == k and name in im["items"]:
            return ctx.prog.fns[im["items"][name]]
    return ctx.method(crate, ty, name)


def cell(I, v):
    return Ref(I.newcell(v))


def call(ctx, I, fn, order, vals):
    I.pc, I.panics = 1, []
    I.call_body(fn, ctx.byname(fn, order, vals), {})
    return I.pc


RD = ("self", "threads", "module", "res", "rs1", "rs2", "imm", "pc", "ram", "keys", "scratch")


def eval_rd(ctx, I, op, imm, rs1, rs2, pc, ram, threads=1, dirty=False):
    fn = traitfn(ctx, "Evaluate", "RD_UPDATE", "eval_enc")
    res = cell(I, W(PP.junkbits(I, 32)) if dirty else W(0))
    slf = cell(I, enum_val(ctx, I, "RD_UPDATE", None, op))
    vals = [slf, threads, MODULE, res, cell(I, WP(rs1)), cell(I, WP(rs2)), cell(I, WP(imm)), cell(I, WP(pc)), cell(I, W(ram)),
            KEYS, SCRATCH]
    before = {v.cell: I.st[v.cell] for v in vals if isinstance(v, Ref) and v is not res}
    ok = call(ctx, I, fn, RD, vals)
    same = all(I.st.get(c) is v for c, v in before.items())
    return (I.read(res) if ok else None), ok, fn, same


def operands(op):
    """symbolic operands in an order that suits the operation (20-bit upper immediates sit 12 positions up)"""
    if op in ("LUI", "AUIPC"):
        pc = B.vec("pc", 32, 0, 2)
        imm = B.vec("imm", 20, 25, 2)
        rs1, rs2, ram = B.vec("rs1", 32, 1000), B.vec("rs2", 32, 1100), B.vec("ram", 32, 1200)
    elif op in ("SLL", "SRL", "SRA"):
        rs2, rs1 = B.vec("rs2", 32, 0), B.vec("rs1", 32, 100)
        imm, pc, ram = B.vec("imm", 32, 1000), B.vec("pc", 32, 1100), B.vec("ram", 32, 1200)
    elif op in ("SLLI", "SRLI", "SRAI"):
        imm, rs1 = B.vec("imm", 5, 0), B.vec("rs1", 32, 100)
        rs2, pc, ram = B.vec("rs2", 32, 1000), B.vec("pc", 32, 1100), B.vec("ram", 32, 1200)
    else:
        imm, rs1, rs2, pc, ram = [B.vec(n, 32, i, 5) for i, n in enumerate(("imm", "rs1", "rs2", "pc", "ram"))]
    return imm, rs1, rs2, pc, ram


def op_list(ctx, name):
    """the constant list of operations (variant names, in order)"""
    I = ctx.interp(PP.M)
    for k, f in ctx.prog.fns.items():
        if f.crate == "fhevm" and f.n == name and f.k in ("const", "static"):
            v = I.runconst(f, {})
            if isinstance(v, Ref):
                v = I.read(v)
            out = []
            for x in v.f:
                ad = ctx.prog.adts[x.id]
                out.append((ad["v"][x.var][0], ad["v"][x.var][1]))
            return out, f
    raise Anchor("constant " + name)


def p06(ctx):
    ctx.rule = ("abstract interpretation of the encrypted evaluator of every register operation over the plaintext meaning of "
                "ciphertexts (library operations by contract, generated circuit tables node by node); every result bit must be "
                "the RV32I function of the operands")
    ctx.trusted = ["sa/poulpy.py (plaintext contracts of poulpy operations)", "sa/spec.py"]
    lst, lf = op_list(ctx, "RD_UPDATE_RV32I_OP_LIST")
    have = [n for n, _ in lst]
    base = [o for o in S.OPS if o not in S.MEXT and o not in S.STORES and o not in S.BRANCHES]
    for o in base:
        ctx.check("list:%s" % o, o in have, where(lf), "operation %s is missing from the list the machine evaluates" % o)
    ids = [d for _, d in lst]
    ctx.check("list:distinct", len(set(ids)) == len(ids), where(lf), "two operations share a selector: %s" % ids)
    ctx.check("list:5bits", all(d < 32 for d in ids), where(lf), "a selector does not fit the five selector bits: %s" % ids)
    for op in names_of(ctx, "RD_UPDATE"):
        if op in S.MEXT or op in S.LOADS:
            continue

        def one():
            I = fresh(ctx)
            imm, rs1, rs2, pc, ram = operands(op)
            nm = dict(imm=imm, rs1=rs1, rs2=rs2, pc=pc, ram=ram)
            v, ok, fn, same = eval_rd(ctx, I, op, imm, rs1, rs2, pc, ram, dirty=op != "NONE")
            ctx.never("%s:panics" % op, B.not_(ok), where(fn), nm, "%s panics: %s" % (op, I.panics[:1]))
            if not ok:
                return
            ctx.check("%s:operands" % op, same, where(fn), "%s changes one of its operands" % op)
            want = 0 if op == "NONE" else S.rd_value(op, imm, rs1, rs2, pc)
            ctx.equal("%s" % op, v.v if isinstance(v, W) else v, want, 32, ok, where(fn), nm, "encrypted result of %s" % op)
        ctx.tryob(op, one)
    ctx.counts["operations"] = len(lst)


def p10(ctx):
    ctx.rule = ("abstract interpretation of the encrypted load operations over the plaintext meaning of ciphertexts: for every "
                "loaded word the result must be the addressed bytes with the right extension")
    ctx.trusted = ["sa/poulpy.py (plaintext contracts of poulpy operations)", "sa/spec.py"]
    for op in S.LOADS:
        def one():
            I = fresh(ctx)
            imm, rs1, rs2, pc, ram = operands(op)
            # natural alignment: the address rs1+imm; its two low bits choose the byte within the word
            addr = B.badd(rs1, imm, 32)
            off = B.trunc(addr, 2)
            nm = dict(word=ram, rs1=rs1, imm=imm)
            v, ok, fn, same = eval_rd(ctx, I, op, imm, rs1, rs2, pc, ram, dirty=True)
            ctx.never("%s:panics" % op, B.not_(ok), where(fn), nm, "%s panics" % op)
            if not ok:
                return
            ctx.check("%s:operands" % op, same, where(fn), "%s changes one of its operands" % op)
            v = v.v if isinstance(v, W) else v
            for o in range(4):
                g = B.and_(ok, B.beq(off, o, 2))
                if S.aligned(op, o) == 0:
                    continue
                key = "%s:offset%d" % (op, o)
                if o and not same_on(v, S.load_value(op, ram, o), 32, g) and not same_on(v, S.load_value(op, ram, 0), 32, g):
                    key += ":other"       # neither the addressed bytes nor (known finding) those at offset 0
                ctx.equal(key, v, S.load_value(op, ram, o), 32, g, where(fn), nm,
                          "encrypted result of %s at byte offset %d of the word" % (op, o))
        ctx.tryob(op, one)


def same_on(a, b, w, g):
    return all(B.and_(g, B.xor_(x, y)) == 0 for x, y in zip(B.bits(a, w), B.bits(b, w)))


RAM = ("self", "threads", "module", "res", "rs2", "loaded", "offset", "keys", "scratch")


def p09(ctx):
    ctx.rule = ("abstract interpretation of the encrypted store operations over the plaintext meaning of ciphertexts; every bit of "
                "the merged word must be the function of old word, register and address that RV32I prescribes")
    ctx.trusted = ["sa/poulpy.py (plaintext contracts of poulpy operations)", "sa/spec.py"]
    lst, lf = op_list(ctx, "RAM_UPDATE_OP_LIST")
    have = [n for n, _ in lst]
    for o in ("NONE",) + S.STORES:
        ctx.check("list:%s" % o, o in have, where(lf), "operation %s is missing from the list the machine evaluates" % o)
    ids = [d for _, d in lst]
    ctx.check("list:distinct", len(set(ids)) == len(ids), where(lf), "two operations share a selector: %s" % ids)
    ctx.check("list:2bits", all(d < 4 for d in ids), where(lf), "a selector does not fit two bits: %s" % ids)
    fn = traitfn(ctx, "Store", "RAM_UPDATE", "eval_enc")
    for op in names_of(ctx, "RAM_UPDATE"):
        for rev in ("", "reverse"):
            def one():
                I = fresh(ctx, maporder=rev)
                addr = B.vec("addr", 32, 0)
                rs2, old = B.vec("rs2", 32, 100, 2), B.vec("word", 32, 101, 2)
                nm = dict(addr=addr, rs2=rs2, word=old)
                res = cell(I, W(PP.junkbits(I, 32)))
                slf = cell(I, enum_val(ctx, I, "RAM_UPDATE", None, op))
                a, b, c = cell(I, W(rs2)), cell(I, W(old)), cell(I, WP(addr))
                before = {x.cell: I.st[x.cell] for x in (a, b, c)}
                ok = call(ctx, I, fn, RAM, [slf, 1, MODULE, res, a, b, c, KEYS, SCRATCH])
                k = op + (":order2" if rev else "")
                ctx.never("%s:panics" % k, B.not_(ok), where(fn), nm, "%s panics: %s" % (op, I.panics[:1]))
                if not ok:
                    return
                ctx.check("%s:operands" % k, all(I.st.get(x) is y for x, y in before.items()), where(fn), "%s changes an operand" % op)
                v = I.read(res)
                v = v.v if isinstance(v, W) else v
                if op == "NONE":
                    ctx.equal(k, v, old, 32, ok, where(fn), nm, "memory word without a store")
                else:
                    off = B.trunc(addr, 2)
                    ctx.equal(k, v, S.store_word(op, rs2, old, off), 32, B.and_(ok, S.aligned(op, off)), where(fn), nm,
                              "memory word after encrypted %s" % op)
            ctx.tryob(op + rev, one)


PCU = ("threads", "module", "res", "rs1", "rs2", "pc", "imm", "op_id", "keys", "scratch")


def find_fn(ctx, name, crate="fhevm"):
    return ctx.func(crate, name)


def pcu_ids(ctx):
    k, a = ctx.adt("PC_UPDATE")
    return {x[0]: x[1] for x in a["v"]}


def p07(ctx):
    ctx.rule = ("abstract interpretation of update_pc and of its generated circuit tables on symbolic operands, one run per "
                "operation; every next-pc bit must be the RV32I function of rs1, rs2, pc and the sign-extended 20-bit immediate")
    ctx.trusted = ["sa/poulpy.py (plaintext contracts of poulpy operations)", "sa/spec.py"]
    fn = find_fn(ctx, "update_pc")
    for op, d in pcu_ids(ctx).items():
        for threads in (1, 3):
            def one():
                I = fresh(ctx)
                rs1, rs2, pc, imm = [B.vec(n, 32, i, 4) for i, n in enumerate(("rs1", "rs2", "pc", "imm"))]
                if op in S.BRANCHES:       # the comparison on top of the sum
                    rs1, rs2 = B.vec("rs1", 32, 0, 2), B.vec("rs2", 32, 1, 2)
                    pc, imm = B.vec("pc", 32, 100, 2), B.vec("imm", 32, 101, 2)
                sgn = B.sext(B.trunc(imm, 20), 20, 32)
                nm = dict(rs1=rs1, rs2=rs2, pc=pc, imm=sgn)
                junk = B.vec("ophigh", 28, 5000)
                opv = B.bv(B.bits(d, 4) + B.bits(junk, 28))
                res = cell(I, W(PP.junkbits(I, 32)))
                ins = [cell(I, WP(x)) for x in (rs1, rs2, pc, sgn, opv)]
                before = {x.cell: I.st[x.cell] for x in ins}
                ok = call(ctx, I, fn, PCU, [threads, MODULE, res] + ins + [KEYS, SCRATCH])
                k = "%s:t%d" % (op, threads)
                ctx.never("%s:panics" % k, B.not_(ok), where(fn), nm, "%s panics: %s" % (op, I.panics[:1]))
                if not ok:
                    return
                ctx.check("%s:operands" % k, all(I.st.get(x) is y for x, y in before.items()), where(fn), "%s changes an operand" % op)
                v = I.read(res)
                v = v.v if isinstance(v, W) else v
                ctx.equal(k, v, S.next_pc(op, sgn, rs1, rs2, pc), 32, ok, where(fn), nm, "encrypted next pc of %s" % op)
            ctx.tryob("%s:t%d" % (op, threads), one)


OFF = ("threads", "module", "res", "rs1", "imm", "keys", "scratch")
RAM_OFFSET = 1 << 18


def ram_start(ctx):
    """start of guest RAM as the crate defines it"""
    for k, f in ctx.prog.fns.items():
        if f.n == "RAM_OFFSET" and f.k in ("const", "static"):
            v = ctx.interp(PP.M).runconst(f, {})
            if isinstance(v, int):
                return v
    return RAM_OFFSET


def p08(ctx):
    ctx.rule = ("abstract interpretation of ram_offset and of its generated circuit tables on symbolic rs1 and imm; every bit of "
                "the result must be the bit of rs1 + imm - RAM start")
    ctx.trusted = ["sa/poulpy.py (plaintext contracts of poulpy operations)"]
    fn = find_fn(ctx, "ram_offset")
    start = ram_start(ctx)
    ctx.counts["ram start"] = hex(start)
    for threads in (1, 3):
        def one():
            I = fresh(ctx)
            rs1, imm = B.vec("rs1", 32, 0, 2), B.vec("imm", 32, 1, 2)
            nm = dict(rs1=rs1, imm=imm)
            res = cell(I, W(PP.junkbits(I, 32)))
            ins = [cell(I, WP(x)) for x in (rs1, imm)]
            before = {x.cell: I.st[x.cell] for x in ins}
            ok = call(ctx, I, fn, OFF, [threads, MODULE, res] + ins + [KEYS, SCRATCH])
            ctx.never("t%d:panics" % threads, B.not_(ok), where(fn), nm, "panics: %s" % (I.panics[:1],))
            if not ok:
                return
            ctx.check("t%d:operands" % threads, all(I.st.get(x) is y for x, y in before.items()), where(fn), "changes an operand")
            v = I.read(res)
            v = v.v if isinstance(v, W) else v
            want = B.bsub(B.badd(rs1, imm, 32), start, 32)
            for j in range(32):
                ctx.equal("t%d:bit%d" % (threads, j), B.bv([B.bits(v, 32)[j]]), B.bv([B.bits(want, 32)[j]]), 1, ok, where(fn), nm,
                          "bit %d of the encrypted address offset" % j)
        ctx.tryob("t%d" % threads, one)
