"""P21: the guest allocator (runtime crate, compiled for riscv32i). P19: the memory map."""
import re
import bdd as B
import dump as D
import stdmodels as S
from interp import Interp, Agg, Ref, Top, Unsupported, UNIT, isint, Union
from prog import Prog
from core import where, Anchor


class Layout:
    pass


def rtprog():
    p = Prog()
    p.load(D.runtime())
    return p


RTM = dict(S.M)
for _k, _v in list(S.M.items()):
    if _k.startswith("std::"):
        RTM.setdefault("core::" + _k[5:], _v)
for base in ("core::alloc::Layout::", "core::alloc::layout::Layout::", "std::alloc::Layout::"):
    RTM[base + "size"] = lambda I, c: lay(I, c.args[0])[0]
    RTM[base + "align"] = lambda I, c: lay(I, c.args[0])[1]


def lay(I, v):
    while isinstance(v, Ref):
        v = I.read(v)
    return v.f


def word(tag, k):
    """32-bit variable; bits of all words interleaved"""
    return B.bv([B.var("%s.%d" % (tag, i), 100 + (31 - i) * 16 + k) for i in range(32)])


def rt_interp(ctx, prog, sps):
    I = ctx._I = Interp(prog, RTM)
    I.mode["extern_statics"] = True
    end = word("_end", 0)

    def addr(I, cell):
        for k, c in I.constcache.items():
            if k[0] == "static" and c == cell:
                nm = k[1].split("::")[-1]
                if nm == "_end":
                    return end
        return None
    I.mode["addr"] = addr
    sps = list(sps)

    def asm(I, t, ops):
        m = re.match(r"^\s*(?:mv|addi)\s+\{0?\}\s*,\s*(?:sp|x2)\s*(?:,\s*0\s*)?$", t)
        if not m or [o[0] for o in ops] != ["out"]:
            raise Unsupported("assembly %r" % t)
        return [I.mode["sp"]]
    I.mode["asm"] = asm
    I.mode["end"] = end
    return I


for _n in ("AtomicUsize", "AtomicU32", "Atomic"):
    for _b in ("core::sync::atomic::", "std::sync::atomic::"):
        RTM[_b + _n + "::new"] = lambda I, c: Agg("adt", [c.args[0]], "Atomic", 0)
        RTM[_b + _n + "::load"] = lambda I, c: I.read(c.args[0]).f[0]
        RTM[_b + _n + "::store"] = lambda I, c: (I.write(c.args[0], Agg("adt", [c.args[1]], "Atomic", 0)), UNIT)[1]


def statics(prog):
    """the statics that hold the allocator's state: an integer, or one integer in a wrapper"""
    return [f for f in prog.fns.values() if f.k == "static" and f.crate == "runtime"
            and (f.locals[0].k == "int" or f.locals[0].k == "adt" and "Atomic" in (f.locals[0].p or ""))]


def wrap(init, v):
    return v if isint(init) else Agg(init.k, [v], init.id, init.var, init.env)


def unwrap(v):
    return v if isint(v) else v.f[0]


def start(I, prog):
    """every static at its initial value"""
    for f in prog.fns.values():
        if f.k == "static" and f.crate == "runtime":
            c = I.staticcell(f.key)
            I.st[c] = I.glob[c]


def run_alloc(I, fn, bytes_, align):
    lt = Agg("adt", [bytes_, align], "Layout", 0)
    self_ = Ref(I.newcell(Agg("adt", [], "Heap", 0)))
    I.pc = 1
    I.panics = []
    r = I.call_body(fn, [self_, lt], {})
    return r, I.pc


def ule(a, b, w):
    return B.not_(B.bult(b, a, w))


def block_obs(ctx, k, I, fn, r, g, low, bytes_, align, sp, names):
    """g: condition under which the request is served"""
    g = B.and_(g, B.not_(B.beq(r, 0, 32)))
    W = 34
    top = B.badd(r, bytes_, W)
    a = align.bit_length() - 1
    mis = 0
    for i in range(a):
        mis = B.or_(mis, B.bits(r, 32)[i])
    ctx.never(k + ":aligned", B.and_(g, mis), where(fn), names, "misaligned block returned (alignment %d)" % align)
    ctx.never(k + ":inside", B.and_(g, B.not_(ule(top, sp, W))), where(fn), names, "block reaches beyond the stack pointer")
    for nm, lo in low:
        ctx.never(k + ":" + nm, B.and_(g, B.bult(r, lo, W)), where(fn), names, "block overlaps %s" % nm)
    return top


def p21(ctx):
    ctx.rule = ("abstract interpretation of the guest runtime's MIR for its own target (riscv32i, release overflow rules) with the end of static data, the "
                "stack pointer, the request size and the break symbolic: each block served is aligned, starts at or above static data and the break, ends at or "
                "below the stack pointer, and the break moves to or past its end (so later blocks cannot overlap it); freeing never lowers the break below a "
                "block in use; two requests from the initial state are disjoint")
    prog = ctx._prog = rtprog()
    ctx.dumpdir = "runtime"
    al = [f for f in prog.fns.values() if f.n == "alloc" and f.self is not None and f.k == "fn"]
    if not al:
        raise Anchor("runtime GlobalAlloc::alloc")
    al = al[0]
    st = statics(prog)
    # any reachable state: the break is the one integer static (0 before first use)
    for lg in range(0, 32):
        def one():
            B.reset()
            I = rt_interp(ctx, prog, ())
            hp, by, sp = word("brk", 1), word("bytes", 2), word("sp", 3)
            I.mode["sp"] = sp
            end = I.mode["end"]
            if len(st) != 1:
                raise Unsupported("allocator state is not one integer")
            cell = I.staticcell(st[0].key)
            init = I.glob[cell]
            names = {"_end": end, "break": hp, "bytes": by, "sp": sp}
            pre = B.and_(B.not_(B.beq(end, 0, 32)), ule(end, hp, 32))
            # later calls
            I.st[cell] = wrap(I.glob[cell], hp)
            r, g = run_alloc(I, al, by, 1 << lg)
            g = B.and_(g, pre)
            top = block_obs(ctx, "later:align%d" % (1 << lg), I, al, r, g, (("earlier blocks", hp), ("static data", end)), by, 1 << lg, sp, names)
            new = unwrap(I.read(Ref(cell)))
            ctx.never("later:align%d:break" % (1 << lg), B.and_(g, B.and_(B.not_(B.beq(r, 0, 32)), B.bult(new, top, 34))), where(al), names,
                      "the next request may return part of this block")
            # first call
            I.st = {}
            I.st[cell] = init
            r, g = run_alloc(I, al, by, 1 << lg)
            g = B.and_(g, pre)
            top = block_obs(ctx, "first:align%d" % (1 << lg), I, al, r, g, (("static data", end),), by, 1 << lg, sp, names)
            new = unwrap(I.read(Ref(cell)))
            ctx.never("first:align%d:break" % (1 << lg), B.and_(g, B.and_(B.not_(B.beq(r, 0, 32)), B.bult(new, top, 34))), where(al), names,
                      "the next request may return part of this block")
            # a small request is served when there is plenty of room
            room = B.and_(pre, ule(B.badd(B.badd(end, by, 36), (1 << lg) + 4096, 36), sp, 36))
            ctx.never("first:align%d:served" % (1 << lg), B.and_(room, B.not_(B.and_(g, B.not_(B.beq(r, 0, 32))))), where(al), names,
                      "request refused although more than 4 KiB would remain")
        ctx.tryob("align%d" % (1 << lg), one)
    # deallocation does not hand live memory out again
    for de in [f for f in prog.fns.values() if f.n == "dealloc" and f.self is not None and f.k == "fn"]:
        def one():
            B.reset()
            I = rt_interp(ctx, prog, ())
            hp, by, ptr = word("brk", 1), word("bytes", 2), word("ptr", 4)
            I.mode["sp"] = word("sp", 3)
            if len(st) != 1:
                raise Unsupported("allocator state is not one integer")
            cell = I.staticcell(st[0].key)
            I.st[cell] = wrap(I.glob[cell], hp)
            I.pc = 1
            pre = B.and_(ule(B.badd(ptr, by, 34), hp, 34), B.not_(B.beq(ptr, 0, 32)))
            I.call_body(de, [Ref(I.newcell(Agg("adt", [], "Heap", 0))), ptr, Agg("adt", [by, 4], "Layout", 0)], {})
            new = unwrap(I.read(Ref(cell)))
            ok = B.or_(ule(hp, new, 32), B.and_(ule(ptr, new, 32), B.beq(B.badd(ptr, by, 34), hp, 34)))
            ctx.never("dealloc", B.and_(B.and_(I.pc, pre), B.not_(ok)), where(de), {"break": hp, "ptr": ptr, "bytes": by},
                      "deallocation makes blocks still in use available again")
        ctx.tryob("dealloc", one)
    # other entry points of the allocator interface use alloc
    for n in ("realloc", "alloc_zeroed"):
        for f in [f for f in prog.fns.values() if f.n == n and f.self is not None and f.k == "fn"]:
            ctx.und(n, "overridden " + n)
    # sequences of two requests from the initial state, whatever the state representation
    for a1, a2 in ((4, 4), (1, 4), (4, 16), (16, 1), (8, 2), (1, 1), (4, 64)):
        def one():
            B.reset()
            I = rt_interp(ctx, prog, ())
            b1, b2, sp1, sp2 = word("bytes1", 1), word("bytes2", 2), word("sp1", 3), word("sp2", 4)
            end = I.mode["end"]
            names = {"_end": end, "bytes1": b1, "bytes2": b2, "sp1": sp1, "sp2": sp2}
            pre = B.not_(B.beq(end, 0, 32))
            I.mode["sp"] = sp1
            start(I, prog)
            r1, g1 = run_alloc(I, al, b1, a1)
            g1 = B.and_(B.and_(g1, pre), B.not_(B.beq(r1, 0, 32)))
            I.mode["sp"] = sp2
            r2, g2 = run_alloc(I, al, b2, a2)
            g = B.and_(g1, B.and_(g2, B.not_(B.beq(r2, 0, 32))))
            t1, t2 = B.badd(r1, b1, 34), B.badd(r2, b2, 34)
            ov = B.and_(B.bult(r1, t2, 34), B.bult(r2, t1, 34))
            ov = B.and_(ov, B.and_(B.not_(B.beq(b1, 0, 32)), B.not_(B.beq(b2, 0, 32))))
            ctx.never("two:%d,%d:disjoint" % (a1, a2), B.and_(g, ov), where(al), names, "two blocks overlap")
            block_obs(ctx, "two:%d,%d" % (a1, a2), I, al, r2, g, (("static data", end),), b2, a2, sp2, names)
        ctx.tryob("two:%d,%d" % (a1, a2), one)


# ------------------------------------------------------------------------------------------------ P19
import os
import checks_vm as V
import checks_enc as E
import checks_cycle as CY
import poulpy as PP
from poulpy import MODULE, SCRATCH, W, WP
from checks_enc import find_fn


class Lds:
    """the parts of a GNU ld script that define the memory map"""

    def __init__(self, path):
        self.path = path
        t = open(path).read()
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
        self.text = t
        self.regions = {}
        self.symbols = {}
        self.sections = []
        m = re.search(r"\bMEMORY\s*\{", t)
        if not m:
            raise Unsupported("no MEMORY block in " + path)
        body, self.rest = self.block(t, m.end())
        for m in re.finditer(r"(\w+)\s*(?:\([^)]*\))?\s*:\s*(?:ORIGIN|org|o)\s*=\s*([^,]+),\s*(?:LENGTH|len|l)\s*=\s*(\S+)", body):
            self.regions[m.group(1)] = (self.num(m.group(2)), self.num(m.group(3)))
        m = re.search(r"\bENTRY\s*\(\s*(\w+)\s*\)", t)
        self.entry = m.group(1) if m else None
        m = re.search(r"\bSECTIONS\s*\{", t)
        if not m:
            raise Unsupported("no SECTIONS block in " + path)
        body, _ = self.block(t, m.end())
        self.outer = body
        i = 0
        outside = ""
        pend = None
        while i < len(body):
            m = re.compile(r"(/DISCARD/|\.[\w.]+)\s*([^:{};]*):\s*([^{};]*)\{").search(body, i)
            if not m:
                outside += body[i:]
                break
            outside += body[i:m.start()]
            b, j = self.block(body, m.end())
            tail = re.match(r"\s*((?:AT\s*)?>\s*\w+)?\s*(AT\s*>\s*\w+)?", body[j:])
            reg = None
            tl = tail.group(0)
            mm = re.search(r"(?<!T)(?<!T )>\s*(\w+)", re.sub(r"AT\s*>\s*\w+", "", tl))
            if mm:
                reg = mm.group(1)
            self.sections.append(dict(name=m.group(1), head=m.group(2) + " " + m.group(3), body=b, region=reg))
            i = j + tail.end()
        for src in (t[:t.index("SECTIONS")], outside):
            for m in re.finditer(r"([A-Za-z_$.][\w$.]*)\s*=\s*([^;{}]+);", src):
                try:
                    self.symbols[m.group(1)] = self.num(m.group(2))
                except Unsupported:
                    pass

    @staticmethod
    def block(t, i):
        d, j = 1, i
        while d:
            if j >= len(t):
                raise Unsupported("unbalanced linker script")
            d += {"{": 1, "}": -1}.get(t[j], 0)
            j += 1
        return t[i:j - 1], j

    def num(self, e):
        s = e.strip()
        s = re.sub(r"\bORIGIN\s*\(\s*(\w+)\s*\)", lambda m: str(self.regions[m.group(1)][0]) if m.group(1) in self.regions else "@", s)
        s = re.sub(r"\bLENGTH\s*\(\s*(\w+)\s*\)", lambda m: str(self.regions[m.group(1)][1]) if m.group(1) in self.regions else "@", s)
        s = re.sub(r"\b(0[xX][0-9a-fA-F]+|\d+)([KM])\b", lambda m: str(int(m.group(1), 0) << (10 if m.group(2) == "K" else 20)), s)
        s = re.sub(r"[A-Za-z_][\w$.]*", lambda m: str(self.symbols[m.group(0)]) if m.group(0) in self.symbols else m.group(0)
                   if re.match(r"x[0-9a-fA-F]*$", m.group(0)) else "@", s)
        if not re.match(r"^[\s0-9xXa-fA-F()+\-*/<>&|~]+$", s):
            raise Unsupported("linker expression " + e.strip())
        try:
            return int(eval(s.replace("/", "//"), {"__builtins__": {}}, {}))
        except Exception:
            raise Unsupported("linker expression " + e.strip())


def strings_of(fns):
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "str":
                out.append(x["v"])
            for y in x.values():
                if isinstance(y, (dict, list, tuple)):
                    walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    for f in fns:
        walk(f.blocks)
    return out


CODE = (".init", ".text")
DATA = (".inpdata", ".outdata", ".rodata", ".srodata", ".data", ".sdata", ".bss", ".sbss")


def startup(ctx, prog, L):
    """the start-up code: which symbol is in sp when the Rust entry is called"""
    for crate, (t, file, line) in prog.gasm:
        wh = "%s:%s global_asm" % (file, line)
        lines = [re.sub(r"(#|//).*", "", x).strip() for x in t.replace(";", "\n").split("\n")]
        sect, first, regs, on, called = None, None, {}, False, False
        for l in lines:
            m = re.match(r"^\.section\s+([\w.]+)", l)
            if m:
                sect = m.group(1)
            m = re.match(r"^([\w.$]+):\s*(.*)$", l)
            if m:
                if m.group(1) == L.entry:
                    ctx.check("entry:section", sect == ".init", wh, "the entry code lies in section %s" % sect)
                    ctx.check("entry:first", first is None, wh, "code precedes the entry symbol")
                    on = True
                l = m.group(2)
            if not l or l.startswith("."):
                continue
            first = first or l
            if not on:
                continue
            p = l.replace(",", " ").split()
            reg = {"x2": "sp", "s0": "fp", "x8": "fp"}
            if p[0] in ("la", "lla") and len(p) == 3:
                regs[reg.get(p[1], p[1])] = p[2]
            elif p[0] == "mv" and len(p) == 3:
                regs[reg.get(p[1], p[1])] = regs.get(reg.get(p[2], p[2]))
            elif p[0] in ("jal", "call", "j", "tail") and p[-1] not in ("run",) and not called:
                called = True
                s = regs.get("sp")
                ctx.check("stack:register", s is not None and s in L.symbols, wh, "sp holds %s when %s is entered" % (s, p[-1]))
                if s in L.symbols:
                    o, n = L.regions["RAM"]
                    a = L.symbols[s]
                    ctx.check("stack:inside", o < a <= o + n, wh, "the stack starts at %#x, RAM is %#x..%#x" % (a, o, o + n))
                    ctx.check("stack:aligned", a % 16 == 0, wh, "the stack starts at %#x" % a)
            elif len(p) > 1 and reg.get(p[1], p[1]) == "sp":
                regs["sp"] = None
                ctx.und("stack", "start-up instruction %r" % l)
                return
        if not called:
            ctx.und("stack", "no call of the Rust entry")


def p19(ctx):
    ctx.rule = ("the linker script that the compiler passes to the linker is parsed; its regions, section placement and stack symbol are compared with the "
                "constants that abstract interpretation derives from the loader, both machines, the address circuit and the debug mirror, and with the "
                "start-up code")
    ctx.trusted = ["the linker honours its script"]
    bf = ctx.method("compiler", "CompileOpts", "build")
    ss = strings_of([bf] + [f for k, f in ctx.prog.fns.items() if k.startswith(bf.key)])
    paths = [s for s in ss if s.endswith((".x", ".ld", ".lds"))]
    if not paths:
        ctx.und("linker script", "not named in CompileOpts::build")
        paths = ["linker-script/default.x"]
    path = os.path.join(D.REPO, "compiler", paths[0])
    if not os.path.exists(path):
        ctx.bad("linker script", where(bf), "the linker script %s does not exist" % paths[0])
        return
    try:
        L = Lds(path)
        if "RAM" not in L.regions or len(L.regions) != 2:
            raise Unsupported("memory regions %s" % sorted(L.regions))
    except Unsupported as e:
        ctx.und("linker script", str(e))
        return
    wl = path
    ram, rlen = L.regions["RAM"]
    fl = [k for k in L.regions if k != "RAM"][0]
    rom, romlen = L.regions[fl]
    ctx.counts["map"] = {k: [hex(a), n] for k, (a, n) in L.regions.items()}
    ctx.check("regions:disjoint", rom + romlen <= ram or ram + rlen <= rom, wl, "instruction memory %#x..%#x and RAM %#x..%#x overlap" % (rom, rom + romlen, ram, ram + rlen))
    tg = [s for s in ss if s.startswith("riscv32")]
    ctx.check("target", len(set(tg)) == 1 and re.match(r"^riscv32i-", tg[0]) is not None, where(bf), "guest programs are compiled for %s; the encrypted machine "
              "executes RV32I" % tg) if tg else ctx.und("target", "no target")
    # section placement
    for s in L.sections:
        if s["name"] == "/DISCARD/" or "INFO" in s["head"]:
            continue
        pats = re.findall(r"\.\w+", re.sub(r"\bALIGN\b", "", s["body"]))
        has = set(p for p in pats)
        if any(c in has for c in CODE):
            ctx.check("section:%s" % s["name"], s["region"] == fl, wl, "code is placed in %s" % s["region"])
        if any(c in has for c in DATA):
            ctx.check("section:%s" % s["name"], s["region"] == "RAM", wl, "data is placed in %s" % s["region"])
        h = re.sub(r"\(NOLOAD\)|ALIGN\s*\(\s*\d+\s*\)", "", s["head"]).strip()
        if h:
            ctx.und("section:%s:address" % s["name"], "explicit placement %r" % h)
    code = [s for s in L.sections if s["region"] == fl]
    if code:
        first = re.search(r"\*?\s*\(\s*(\.[\w.]+)", code[0]["body"])
        ctx.check("entry:placed first", first is not None and first.group(1) == ".init", wl, "instruction memory starts with %s, not with the entry code"
                  % (first.group(1) if first else None))
    for need in DATA:
        n = [s["name"] for s in L.sections if s["name"] != "/DISCARD/" and re.search(re.escape(need) + r"\b", s["body"])]
        ctx.check("section:%s placed" % need, bool(n), wl, "%s is not placed by the linker script" % need)
    for s in L.sections:
        if s["name"] == ".bss":
            ctx.check("heap:above static data", "_end" in s["body"] and s is [x for x in L.sections if x["region"] == "RAM"][-1], wl,
                      "_end is not the end of the static data") if "_end" in L.text else ctx.und("heap", "no _end")
    # the start-up code
    try:
        rp = rtprog()
        ctx.tryob("stack", lambda: startup(ctx, rp, L))
    except D.BuildError as e:
        ctx.und("stack", str(e))
    # loader
    text = (V.LOAD, V.R_ | V.X, rom, 100, 8, 8)

    def loads():
        I, fn, v, data = V.load(ctx, [text, (V.LOAD, V.R_, ram, 120, 20, 20), (V.LOAD, V.R_ | V.W_, ram + 24, 144, 8, rlen - 24)])
        if not ctx.check("loader:full RAM", I.pc == 1, where(fn), "a program that fills the RAM of the linker script is refused: %s" % (I.panics[:1],)):
            return
        m = V.field_of(ctx, v, "Phantom", "boot_ram")
        ctx.check("loader:RAM start", V.field_of(ctx, m, "BootMemory", "offset") == ram, where(fn), "RAM is loaded at %r, linked at %#x"
                  % (V.field_of(ctx, m, "BootMemory", "offset"), ram))
        for w, x in (("size", V.field_of(ctx, m, "BootMemory", "size")), ("data", len(V.field_of(ctx, m, "BootMemory", "data").f))):
            ctx.check("loader:RAM " + w, x == rlen, where(fn), "RAM has %r bytes, the linker script reserves %d" % (x, rlen))
        m = V.field_of(ctx, v, "Phantom", "boot_rom")
        ctx.check("loader:ROM start", V.field_of(ctx, m, "BootMemory", "offset") == rom, where(fn), "instruction memory starts at %r"
                  % V.field_of(ctx, m, "BootMemory", "offset"))
    ctx.tryob("loader", loads)

    def refuse():
        I, fn, v, data = V.load(ctx, [text, (V.LOAD, V.R_, ram, 120, 20, 20), (V.LOAD, V.R_ | V.W_, ram + 24, 144, 8, rlen - 24 + 4)])
        ctx.check("loader:beyond RAM", I.pc == 0, where(fn), "a segment that ends beyond RAM is accepted")
    ctx.tryob("loader beyond", refuse)
    # cleartext machine

    def testvm():
        I = V.world(ctx)
        ph = V.phantom(ctx, V.NOPS * 2, [0] * rlen, ram, (ram, 4), (ram + 4, 4))
        fn = ctx.method("compiler", "Phantom", "test_vm")
        v = I.call_body(fn, ctx.byname(fn, ("self", "max_cycles"), [Ref(I.newcell(ph)), 5]), {})
        if not ctx.check("cleartext:built", I.pc == 1, where(fn), "construction panics"):
            return
        f = lambda m, x: V.getf(ctx, V.getf(ctx, v, "TestVM", "compiler", m), "Memory", "compiler", x)
        ctx.check("cleartext:RAM", f("ram", "offset") == ram and f("ram", "size") == rlen and len(f("ram", "data").f) == rlen, where(fn),
                  "RAM at %r, %r bytes" % (f("ram", "offset"), f("ram", "size")))
        ctx.check("cleartext:ROM", f("rom", "offset") == rom and f("rom", "size") == 8, where(fn), "instruction memory at %r, %r bytes"
                  % (f("rom", "offset"), f("rom", "size")))
        ctx.check("cleartext:reset", V.getf(ctx, v, "TestVM", "compiler", "pc") == rom, where(fn), "execution starts at %r"
                  % (V.getf(ctx, v, "TestVM", "compiler", "pc"),))
    ctx.tryob("cleartext", testvm)
    # encrypted machine
    for env in ({}, {"PHANTOM_DEBUG": "1"}):
        def enc():
            I = V.world(ctx, env)
            ph = V.phantom(ctx, V.NOPS * 3, [0] * rlen, ram, (ram, 4), (ram + 4, 4))
            fn, v = V.start_vm(ctx, I, ph, [1, 2, 3, 4])
            nw = [e for e in I.mode["events"] if e[0].startswith("Interpreter.new")]
            a = V.byargs(ctx, "Interpreter", "new", nw[0][1]) if len(nw) == 1 else {}
            ctx.check("encrypted%s:sizes" % (":debug" if env else ""), a.get("rom_size") == 3 and a.get("ram_size") == rlen // 4, where(fn),
                      "the machine is built with %r instruction and %r memory words for %d and %d" % (a.get("rom_size"), a.get("ram_size"), 3, rlen // 4))
            ctx.check("encrypted%s:RAM start" % (":debug" if env else ""), V.field_of(ctx, v, "EncryptedVM", "ram_offset") == ram, where(fn),
                      "output is read relative to %r" % (V.field_of(ctx, v, "EncryptedVM", "ram_offset"),))
        ctx.tryob("encrypted", enc)

    def reset():
        m = CY.Machine(ctx, n=8, rom=2, ram=4)
        m.I.pc = 1
        m.anystate(pcidx=0, leftovers=False)
        p = m.get("pc_fhe_uint")
        fn = ctx.method("fhevm", "Interpreter", "new")
        ctx.check("encrypted:reset", isinstance(p, W) and p.v == rom, where(fn), "execution starts at %r" % (p.v if isinstance(p, W) else p,))
    ctx.tryob("reset", reset)
    # the address circuit
    off = find_fn(ctx, "ram_offset")
    for a in (ram, ram + 4, ram + rlen - 4):
        def circ():
            I = E.fresh(ctx)
            res = E.cell(I, W(PP.junkbits(I, 32)))
            E.call(ctx, I, off, E.OFF, [1, MODULE, res, E.cell(I, WP(a)), E.cell(I, WP(0)), E.KEYS, SCRATCH])
            v = I.read(res)
            ctx.check("circuit:%#x" % (a - ram), isinstance(v, W) and v.v == a - ram, where(off), "the address circuit maps %#x to %s, not to %#x"
                      % (a, v.v if isinstance(v, W) else v, a - ram))
        ctx.tryob("circuit:%#x" % (a - ram), circ)
    # the debug mirror
    for j in (0, 1, 3):
        def mirror():
            m = CY.Debug(ctx, n=8, rom=4, ram=4)
            m.anystate()
            m.expect()
            m.mirror()
            I = m.I
            fn = ctx.method("fhevm", "InterpreterDebug", "read_ram")
            data = [0x11, 0x22, 0x33, 0x44]
            for n, v in (("imm", 0), ("rs1_val", ram + 4 * j), ("ram", Agg("vec", data))):
                I.write(m.mref(n), v)
            I.pc, I.panics = 1, []
            self_ = m.I.sub(m.field("vm_debug"), ("f", 0))
            I.call_body(fn, [self_], {})
            ctx.check("mirror:%#x" % (4 * j), I.pc == 1 and I.read(m.mref("ram_val")) == data[j] and I.read(m.mref("ram_addr")) == 4 * j, where(fn),
                      "the mirror reads word %s for address %#x" % (I.read(m.mref("ram_val")), ram + 4 * j))
        ctx.tryob("mirror:%#x" % (4 * j), mirror)
