"""RV32IM reference semantics, written from the RISC-V unprivileged specification, on the value domain of bdd.py."""
import bdd as B

M32 = 0xFFFFFFFF


def fld(w, lo, n):
    return B.bv(B.bits(w, 32)[lo:lo + n])


def cat(*parts):
    """parts: (value, width) from least significant"""
    out = []
    for v, n in parts:
        out += B.bits(v, n)
    return B.bv(out)


def sx(v, n):
    return B.sext(v, n, 32)


def imm_i(w):
    return sx(fld(w, 20, 12), 12)


def imm_s(w):
    return sx(cat((fld(w, 7, 5), 5), (fld(w, 25, 7), 7)), 12)


def imm_b(w):
    return sx(cat((0, 1), (fld(w, 8, 4), 4), (fld(w, 25, 6), 6), (fld(w, 7, 1), 1), (fld(w, 31, 1), 1)), 13)


def imm_u(w):
    return B.band(w, 0xFFFFF000, 32)


def imm_u20(w):
    return fld(w, 12, 20)


def imm_j(w):
    return sx(cat((0, 1), (fld(w, 21, 10), 10), (fld(w, 20, 1), 1), (fld(w, 12, 8), 8), (fld(w, 31, 1), 1)), 21)


def shamt(w):
    return fld(w, 20, 5)


# mnemonic -> (opcode, funct3 or None, funct7 or None, format)
OPS = {
    "LUI": (0b0110111, None, None, "U"), "AUIPC": (0b0010111, None, None, "U"),
    "JAL": (0b1101111, None, None, "J"), "JALR": (0b1100111, 0, None, "I"),
    "BEQ": (0b1100011, 0, None, "B"), "BNE": (0b1100011, 1, None, "B"), "BLT": (0b1100011, 4, None, "B"),
    "BGE": (0b1100011, 5, None, "B"), "BLTU": (0b1100011, 6, None, "B"), "BGEU": (0b1100011, 7, None, "B"),
    "LB": (0b0000011, 0, None, "I"), "LH": (0b0000011, 1, None, "I"), "LW": (0b0000011, 2, None, "I"),
    "LBU": (0b0000011, 4, None, "I"), "LHU": (0b0000011, 5, None, "I"),
    "SB": (0b0100011, 0, None, "S"), "SH": (0b0100011, 1, None, "S"), "SW": (0b0100011, 2, None, "S"),
    "ADDI": (0b0010011, 0, None, "I"), "SLTI": (0b0010011, 2, None, "I"), "SLTIU": (0b0010011, 3, None, "I"),
    "XORI": (0b0010011, 4, None, "I"), "ORI": (0b0010011, 6, None, "I"), "ANDI": (0b0010011, 7, None, "I"),
    "SLLI": (0b0010011, 1, 0, "SH"), "SRLI": (0b0010011, 5, 0, "SH"), "SRAI": (0b0010011, 5, 0b0100000, "SH"),
    "ADD": (0b0110011, 0, 0, "R"), "SUB": (0b0110011, 0, 0b0100000, "R"), "SLL": (0b0110011, 1, 0, "R"),
    "SLT": (0b0110011, 2, 0, "R"), "SLTU": (0b0110011, 3, 0, "R"), "XOR": (0b0110011, 4, 0, "R"),
    "SRL": (0b0110011, 5, 0, "R"), "SRA": (0b0110011, 5, 0b0100000, "R"), "OR": (0b0110011, 6, 0, "R"),
    "AND": (0b0110011, 7, 0, "R"),
    "MUL": (0b0110011, 0, 1, "R"), "MULH": (0b0110011, 1, 1, "R"), "MULHSU": (0b0110011, 2, 1, "R"),
    "MULHU": (0b0110011, 3, 1, "R"), "DIV": (0b0110011, 4, 1, "R"), "DIVU": (0b0110011, 5, 1, "R"),
    "REM": (0b0110011, 6, 1, "R"), "REMU": (0b0110011, 7, 1, "R"),
}
MEXT = ("MUL", "MULH", "MULHSU", "MULHU", "DIV", "DIVU", "REM", "REMU")
LOADS = ("LB", "LH", "LW", "LBU", "LHU")
STORES = ("SB", "SH", "SW")
BRANCHES = ("BEQ", "BNE", "BLT", "BGE", "BLTU", "BGEU")
SYSTEM = 0b1110011


def match(w, op):
    """condition: the word w encodes op"""
    oc, f3, f7, _ = OPS[op]
    g = B.beq(fld(w, 0, 7), oc, 7)
    if f3 is not None:
        g = B.and_(g, B.beq(fld(w, 12, 3), f3, 3))
    if f7 is not None:
        g = B.and_(g, B.beq(fld(w, 25, 7), f7, 7))
    return g


def immediate(w, op):
    """immediate operand as the machine uses it (upper immediates unshifted: 20 bits)"""
    f = OPS[op][3]
    return {"U": imm_u20, "J": imm_j, "I": imm_i, "B": imm_b, "S": imm_s, "SH": shamt, "R": lambda w: 0}[f](w)


def regs(w, op):
    """(rs2, rs1, rd) with 0 for fields the format lacks"""
    f = OPS[op][3]
    rs2 = fld(w, 20, 5) if f in "RSB" and f != "SH" else 0
    rs1 = fld(w, 15, 5) if f not in ("U", "J") else 0
    rd = fld(w, 7, 5) if f not in ("S", "B") else 0
    return rs2, rs1, rd


def b2i(g):
    return B.bv([g])


def rd_value(op, imm, rs1, rs2, pc):
    """result of every non-load, non-M register-writing operation (imm as given by immediate())"""
    if op == "LUI":
        return B.bshl(imm, 12, 32, 8)
    if op == "AUIPC":
        return B.badd(pc, B.bshl(imm, 12, 32, 8), 32)
    if op in ("JAL", "JALR"):
        return B.badd(pc, 4, 32)
    o = op
    y = rs2
    if op in ("ADDI", "SLTI", "SLTIU", "XORI", "ORI", "ANDI", "SLLI", "SRLI", "SRAI"):
        y = imm
        o = {"SLTIU": "SLTU"}.get(op, op[:-1])
    if o == "ADD":
        return B.badd(rs1, y, 32)
    if o == "SUB":
        return B.bsub(rs1, y, 32)
    if o == "SLT":
        return b2i(B.bslt(rs1, y, 32))
    if o == "SLTU":
        return b2i(B.bult(rs1, y, 32))
    if o == "XOR":
        return B.bxor(rs1, y, 32)
    if o == "OR":
        return B.bor(rs1, y, 32)
    if o == "AND":
        return B.band(rs1, y, 32)
    s = B.trunc(y, 5)
    if o == "SLL":
        return B.bshl(rs1, s, 32, 5)
    if o == "SRL":
        return B.bshr(rs1, s, 32, 5, False)
    if o == "SRA":
        return B.bshr(rs1, s, 32, 5, True)
    raise KeyError(op)


def m_value(op, a, b):
    if op == "MUL":
        return B.bmul(a, b, 32)
    if op in ("MULH", "MULHSU", "MULHU"):
        x = B.sext(a, 32, 64) if op != "MULHU" else a
        y = B.sext(b, 32, 64) if op == "MULH" else b
        return B.bv(B.bits(B.bmul(x, y, 64), 64)[32:])
    z = B.beq(b, 0, 32)
    ov = B.and_(B.beq(a, 0x80000000, 32), B.beq(b, M32, 32))
    if op == "DIVU":
        return B.bite(z, M32, B.udivrem(a, b, 32)[0])
    if op == "REMU":
        return B.bite(z, a, B.udivrem(a, b, 32)[1])
    if op == "DIV":
        return B.bite(z, M32, B.bite(ov, 0x80000000, B.sdivrem(a, b, 32)[0]))
    if op == "REM":
        return B.bite(z, a, B.bite(ov, 0, B.sdivrem(a, b, 32)[1]))
    raise KeyError(op)


def taken(op, rs1, rs2):
    return {"BEQ": lambda: B.beq(rs1, rs2, 32), "BNE": lambda: B.not_(B.beq(rs1, rs2, 32)),
            "BLT": lambda: B.bslt(rs1, rs2, 32), "BGE": lambda: B.not_(B.bslt(rs1, rs2, 32)),
            "BLTU": lambda: B.bult(rs1, rs2, 32), "BGEU": lambda: B.not_(B.bult(rs1, rs2, 32))}[op]()


def next_pc(op, imm, rs1, rs2, pc):
    if op == "JAL":
        return B.badd(pc, imm, 32)
    if op == "JALR":
        return B.band(B.badd(rs1, imm, 32), 0xFFFFFFFE, 32)
    if op in BRANCHES:
        return B.bite(taken(op, rs1, rs2), B.badd(pc, imm, 32), B.badd(pc, 4, 32))
    return B.badd(pc, 4, 32)


def load_value(op, word, off):
    """value of a load from the aligned word at byte offset off (0..3, naturally aligned)"""
    s = B.bshr(word, B.bshl(off, 3, 5, 3), 32, 5, False)
    if op == "LW":
        return word
    if op == "LB":
        return B.sext(B.trunc(s, 8), 8, 32)
    if op == "LBU":
        return B.trunc(s, 8)
    if op == "LH":
        return B.sext(B.trunc(s, 16), 16, 32)
    if op == "LHU":
        return B.trunc(s, 16)
    raise KeyError(op)


def aligned(op, off):
    b = B.bits(off, 2)
    if op in ("LW", "SW"):
        return B.and_(B.not_(b[0]), B.not_(b[1]))
    if op in ("LH", "LHU", "SH"):
        return B.not_(b[0])
    return 1


def store_word(op, rs2, word, off):
    """the aligned word after a store at byte offset off"""
    if op == "SW":
        return rs2
    out = []
    ob = B.bits(off, 2)
    w, r = B.bits(word, 32), B.bits(rs2, 32)
    for j in range(32):
        by = j // 8
        if op == "SB":
            g = B.and_(ob[0] if by & 1 else B.not_(ob[0]), ob[1] if by & 2 else B.not_(ob[1]))
            out.append(B.ite(g, r[j % 8], w[j]))
        else:
            g = ob[1] if by & 2 else B.not_(ob[1])
            out.append(B.ite(g, r[j % 16], w[j]))
    return B.bv(out)


def enc(op, rd=0, rs1=0, rs2=0, imm=0):
    """instruction word (constants)"""
    oc, f3, f7, f = OPS[op]
    w = oc | (f3 or 0) << 12
    if f == "R":
        return w | rd << 7 | rs1 << 15 | rs2 << 20 | (f7 or 0) << 25
    if f == "SH":
        return w | rd << 7 | rs1 << 15 | (imm & 31) << 20 | (f7 or 0) << 25
    if f == "I":
        return w | rd << 7 | rs1 << 15 | (imm & 0xFFF) << 20
    if f == "S":
        return w | (imm & 31) << 7 | rs1 << 15 | rs2 << 20 | (imm >> 5 & 0x7F) << 25
    if f == "B":
        return w | (imm >> 11 & 1) << 7 | (imm >> 1 & 15) << 8 | rs1 << 15 | rs2 << 20 | (imm >> 5 & 63) << 25 | (imm >> 12 & 1) << 31
    if f == "U":
        return w | rd << 7 | (imm & 0xFFFFF) << 12
    return w | rd << 7 | (imm >> 12 & 255) << 12 | (imm >> 11 & 1) << 20 | (imm >> 1 & 1023) << 21 | (imm >> 20 & 1) << 31


def mixed(ram=0x40):
    """straight-line program over every kind of operation, with register hazards, x0 targets, jumps and byte stores;
    addresses and control are constants, data comes from RAM"""
    e = enc
    return [
        e("LUI", 2, imm=ram), e("LW", 5, 2, imm=0), e("LW", 6, 2, imm=4), e("ADD", 7, 5, 6), e("ADD", 7, 7, 7), e("SW", rs1=2, rs2=7, imm=8),
        e("LW", 8, 2, imm=8), e("XOR", 0, 5, 6), e("SUB", 9, 0, 5), e("SB", rs1=2, rs2=9, imm=5), e("LW", 10, 2, imm=4), e("SH", rs1=2, rs2=6, imm=2),
        e("JAL", 1, imm=8), e("ADDI", 5, 0, imm=99), e("LBU", 11, 2, imm=0), e("LH", 12, 2, imm=8), e("AUIPC", 13, imm=1), e("ADDI", 3, 0, imm=84),
        e("JALR", 3, 3, imm=0), e("ADDI", 6, 0, imm=1), e("ADDI", 6, 0, imm=2), e("SLT", 14, 5, 6), e("BEQ", rs1=0, rs2=0, imm=8), e("ADDI", 7, 0, imm=3),
        e("AND", 5, 5, 10), e("SW", rs1=2, rs2=5, imm=0), e("LW", 5, 2, imm=0), e("SRLI", 15, 5, imm=3), e("BNE", rs1=0, rs2=0, imm=-8), e("OR", 5, 15, 5),
        e("SW", rs1=2, rs2=5, imm=12), e("SW", rs1=2, rs2=0, imm=12), e("JAL", 0, imm=-124)]


def spin(ram=0x40):
    """a loop that changes a register and a memory word in every round"""
    e = enc
    return [e("LUI", 2, imm=ram), e("LW", 5, 2, imm=4), e("XORI", 5, 5, imm=1), e("SW", rs1=2, rs2=5, imm=4), e("JAL", 1, imm=-12)]
