"""P17, P18, P19, P22, P23, P24: program loading, tapes, memory map, keys, entropy and the run loop."""
import bdd as B
import spec as S
import poulpy as PP
from poulpy import MODULE, SCRATCH, Opaque, val
from core import *
from checks_enc import fresh, cell
from checks_testvm import fields, mk, getf
from checks_cycle import params_overrides, parser_of, SK, XA, XE
import stdmodels as SM
from stdmodels import some, NONE, ok as okv, err as errv

COMP = "compiler"


def consts_of(ctx, fns):
    """integer constants that occur in the bodies"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "int" or "v" in x and isinstance(x.get("v"), (int, str)):
                try:
                    out.add(int(x["v"]))
                except (ValueError, TypeError):
                    pass
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    for f in fns:
        walk(f.blocks)
    return out


def closure_of(ctx, fn):
    return [fn] + [f for k, f in ctx.prog.fns.items() if k.startswith(fn.key + "::")]


def counts(ctx, fns, top):
    l = set(range(0, 70)) | {99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300}
    for c in consts_of(ctx, fns):
        for d in (c - 1, c, c + 1, c + 2):
            if 0 <= d <= top:
                l.add(d)
    return sorted(l)


# ------------------------------------------------------------------------------------------------ P24
def machine_parts(ctx):
    k, fs = fields(ctx, "EncryptedVM", COMP)
    return fs


def setup_exec(ctx, n, debug):
    I = ctx.fresh(VMM)
    I.mode["n"] = 4
    params_overrides(ctx, I)
    log = []
    for name in ("cycle", "cycle_debug"):
        f = ctx.method("fhevm", "Interpreter", name)

        def rec(I, key, args, env, name=name):
            log.append((name, I.pc, list(args)))
            return UNIT
        I.overrides[f.key] = rec
    for f in ctx.prog.methods("fhevm", "Interpreter"):
        if f.n == "threads":
            I.overrides[f.key] = lambda I, k, a, e: 1
    fs = machine_parts(ctx)
    v = {}
    for f in fs:
        v[f] = Opaque("vm." + f)
    v["max_cycles"] = n
    v["phantom_debug"] = 1 if debug else 0
    for f in ("output_info", "ram_offset"):
        if f in v:
            v[f] = Top("vm." + f)
    for f in ("params", "sk_prepared", "key_prepared", "interpreter", "max_cycles", "phantom_debug"):
        if f not in fs:
            raise Unsupported("field %s of EncryptedVM" % f)
    r = cell(I, mk(ctx, "EncryptedVM", COMP, **v))
    return I, r, log, v


def name_of(I, v):
    while isinstance(v, Ref):
        v = I.read(v)
    return v.name if isinstance(v, Opaque) else repr(v)[:60]


def world_dependent(guards, n):
    """guards of the steps that were taken; if they depend on the clock or the file system alone, a case with another number of steps than n"""
    sup = sorted(B.support([g for g in guards if g not in (0, 1)]))
    if not sup or not all(B.VARNAME.get(l, "").startswith("outside world") for l in sup):
        return None
    for a in [{}, {l: 1 for l in sup}] + [{l: 1} for l in sup]:
        m = sum(B.eval_(g, a) for g in guards)
        if m != n:
            return "the clock or the file system", m
    return None


def execs(ctx, blind=False):
    """run loop of the encrypted machine"""
    fn = ctx.method(COMP, "EncryptedVM", "execute")
    ns = counts(ctx, closure_of(ctx, fn), 70000)
    if blind:
        ns = [0, 1, 2, 5]
    for debug in (False,) if blind else (False, True):
        for n in ns:
            k = "execute:%s%d" % ("debug:" if debug else "", n)

            def one():
                I, r, log, v = setup_exec(ctx, n, debug)
                I.call_body(fn, [r], {})
                if I.pc != 1:
                    ctx.bad(k, where(fn), "a run of %d cycles panics: %s" % (n, I.panics[:1]))
                    return
                want = "cycle_debug" if debug else "cycle"
                if blind:
                    bad = [(a[0], [name_of(I, x) for x in a[2]]) for a in log
                           if a[0] != "cycle" or any("sk_prepared" in name_of(I, x) for x in a[2])]
                    ctx.check(k + ":blind", not bad, where(fn), "non-debug run reaches the secret key: %s" % (bad[:1],))
                    return
                if any(g not in (0, 1) for _, g, _ in log):
                    d = world_dependent([g for _, g, _ in log], n)
                    if d:
                        ctx.bad(k, where(fn), "%d cycles requested, but depending on %s %d are performed" % ((n,) + d))
                    else:
                        ctx.und(k, "conditional cycles")
                    return
                got = [a for a, g, _ in log]
                ctx.check(k, got == [want] * n, where(fn), "%d cycles requested, machine steps performed: %d (%s)"
                          % (n, len(got), sorted(set(got))))
                if n in (1, 3):
                    # the machine that steps is the vm's, with the vm's keys
                    for name, _, a in log:
                        nm = [name_of(I, x) for x in a]
                        w = ["vm.interpreter", "vm.key_prepared"] + (["vm.sk_prepared"] if debug else [])
                        ctx.check(k + ":parts", nm[0] == w[0] and all(x in nm for x in w), where(fn), "cycle called with %s" % nm)
                    I.call_body(fn, [r], {})
                    ctx.check(k + ":again", len(log) == 2 * n and I.pc == 1, where(fn), "a second run of %d cycles performs %d" % (n, len(log) - n))
                    o = I.read(r)
                    fs = machine_parts(ctx)
                    ctx.check(k + ":limit", o.f[fs.index("max_cycles")] == n and o.f[fs.index("phantom_debug")] == int(debug), where(fn),
                              "the run changes its own limit or mode")
            ctx.tryob(k, one)
        for n in () if blind else HUGE:
            k = "execute:%s%d" % ("debug:" if debug else "", n)

            def huge():
                I, r, log, v = setup_exec(ctx, n, debug)
                enough(ctx, I, k, fn, n, log, [ctx.method("fhevm", "Interpreter", x).key for x in ("cycle", "cycle_debug")], lambda: I.call_body(fn, [r], {}))
            ctx.tryob(k, huge)


HUGE = ((1 << 32) - 1, (1 << 32) + 3, (1 << 33) + 1, (1 << 63) + 5)


class Enough(Exception):
    pass


def enough(ctx, I, k, fn, n, log, keys, run):
    """a run of n cycles, too many to follow, at least goes on for 300 cycles"""
    for key in keys:
        old = I.overrides[key]

        def g(I, kk, a, e, old=old):
            if len(log) >= 300 and I.pc == 1:
                raise Enough()
            return old(I, kk, a, e)
        I.overrides[key] = g
    try:
        run()
    except Enough:
        ctx.ok(k)
        return
    ctx.bad(k, where(fn), "%d cycles requested, %d performed%s" % (n, len(log), "" if I.pc == 1 else ", then a panic: %s" % (I.panics[:1],)))


def vm_modes(ctx, debug):
    """which machine and which mode the environment selects"""
    for env in ({"PHANTOM_DEBUG": "1"}, {"PHANTOM_DEBUG": "true"}, {"PHANTOM_DEBUG": "TRUE"}) if debug else \
            ({}, {"PHANTOM_DEBUG": "0"}, {"PHANTOM_DEBUG": "false"}, {"PHANTOM_THREADS": "3", "PHANTOM_VERBOSE_TIMINGS": "1"}):
        k = "vm:%s" % (",".join("%s=%s" % x for x in env.items()) or "default")

        def one():
            I, fn, v, _ = vmrun(ctx, env)
            made = [e[0] for e in I.mode["events"] if e[0].startswith("Interpreter.new")]
            ctx.check(k + ":machine", made == ["Interpreter.new_with_debug" if debug else "Interpreter.new"], where(fn), "the machine is made by %s" % made)
            ctx.check(k + ":mode", field_of(ctx, v, "EncryptedVM", "phantom_debug") == int(debug), where(fn),
                      "debug mode is %r" % (field_of(ctx, v, "EncryptedVM", "phantom_debug"),))
        ctx.tryob(k, one)


def p24(ctx):
    ctx.rule = ("abstract interpretation of both run loops with the machine step as a recorded effect: the sequence of steps must be "
                "exactly max_cycles steps, for each listed count and every count next to a constant of the loop code; the requested "
                "count reaches the machine unchanged from the constructors")
    ctx.assumptions = ["counts listed in the obligations; the loop code has no other constants to compare the count with"]
    execs(ctx)
    fns = closure_of(ctx, ctx.method(COMP, "Phantom", "encrypted_vm")) + closure_of(ctx, ctx.method(COMP, "Phantom", "test_vm")) + \
        closure_of(ctx, ctx.method(COMP, "TestVM", "init"))
    for n in sorted({0, 1, 7, 1000, (1 << 32) + 5} | {x + d for x in consts_of(ctx, fns) for d in (-1, 0, 1) if x + d >= 0 and x < 1 << 62}):
        def lim():
            I, f2, v, _ = vmrun(ctx, cycles=n)
            ctx.check("limit:encrypted:%d" % n, field_of(ctx, v, "EncryptedVM", "max_cycles") == n, where(f2),
                      "a request for %d cycles becomes %r" % (n, field_of(ctx, v, "EncryptedVM", "max_cycles")))
            I = fresh(ctx)
            fp = ctx.method(COMP, "Phantom", "test_vm")
            ph = phantom(ctx, NOPS, symbytes("r", 64, 0), R0, (R0 + 4, 4), (R0 + 20, 12))
            v = I.call_body(fp, ctx.byname(fp, ("self", "max_cycles"), [cell(I, ph), n]), {})
            ctx.check("limit:cleartext:%d" % n, I.pc == 1 and field_of(ctx, v, "TestVM", "max_cycles") == n, where(fp), "a request for %d cycles is changed" % n)
        ctx.tryob("limit:%d" % n, lim)
    for env in environments(ctx):
        def lime():
            I, f2, v, _ = vmrun(ctx, env, cycles=11)
            ctx.check("limit:encrypted:" + envname(env), field_of(ctx, v, "EncryptedVM", "max_cycles") == 11, where(f2),
                      "a request for 11 cycles becomes %r" % (field_of(ctx, v, "EncryptedVM", "max_cycles"),))
        ctx.tryob("limit:encrypted:" + envname(env), lime)
    fn = ctx.method(COMP, "TestVM", "execute")
    run = ctx.method(COMP, "TestVM", "run")
    k0, fs = fields(ctx, "TestVM", COMP)
    for n in list(counts(ctx, closure_of(ctx, fn), 70000)) + list(HUGE):
        k = "testvm:%d" % n

        def one():
            I = fresh(ctx)
            log = []
            I.overrides[run.key] = lambda I, k, a, e: (log.append((I.pc, a)), UNIT)[1]
            v = {f: Opaque("vm." + f) for f in fs}
            v["max_cycles"] = n
            if "pc" in fs:
                v["pc"] = B.vec("pc", 32, 0)
            if "registers" in fs:
                v["registers"] = Agg("array", [B.vec("x%d" % j, 32, 100 + 32 * j) for j in range(32)])
            for i, f in enumerate(("rom", "ram")):
                v[f] = mk(ctx, "Memory", COMP, data=Agg("vec", [B.vec("%s%d" % (f, j), 8, 2000 + 1000 * i + 8 * j) for j in range(16)]),
                          offset=i << 18, _is_write=i, size=16)
            for f, t in (("input_info", "InputInfo"), ("output_info", "OutputInfo")):
                v[f] = mk(ctx, t, COMP, start_addr=(1 << 18) + 4, size=4)
            r = cell(I, mk(ctx, "TestVM", COMP, **v))
            before = I.read(r)
            if n in HUGE:
                enough(ctx, I, k, fn, n, log, [run.key], lambda: I.call_body(fn, [r], {}))
                return
            I.call_body(fn, [r], {})
            if I.pc != 1:
                if any(g != 1 for g, _ in log) or I.pc:
                    ctx.bad(k, where(fn), "whether a cycle runs depends on more than the requested number")
                else:
                    ctx.bad(k, where(fn), "a run of %d cycles panics: %s" % (n, I.panics[:1]))
                return
            if any(g != 1 for g, _ in log):
                ctx.bad(k, where(fn), "whether a cycle runs depends on more than the requested number")
                return
            ctx.check(k, len(log) == n, where(fn), "%d cycles requested, %d performed" % (n, len(log)))
            if n in (1, 3):
                I.call_body(fn, [r], {})
                ctx.check(k + ":again", len(log) == 2 * n and I.pc == 1, where(fn), "a second run of %d cycles performs %d" % (n, len(log) - n))
            ctx.check(k + ":state", [repr(x) for x in I.read(r).f] == [repr(x) for x in before.f], where(fn),
                      "the run loop itself changes the machine")
        ctx.tryob(k, one)


# ------------------------------------------------------------------- the world around encrypted_vm, with effects recorded
VMM = dict(PP.M)


def vmodel(*names):
    def deco(f):
        for n in names:
            VMM[n] = f
            if n.startswith("std::"):
                VMM["core::" + n[5:]] = f
                VMM["alloc::" + n[5:]] = f
        return f
    return deco


def strof(I, v):
    while isinstance(v, Ref):
        v = I.read(v)
    if isinstance(v, StrV):
        return v.s if isinstance(v.s, str) else v.s.decode("latin1")
    raise Unsupported("string %r" % (v,))


@vmodel("std::env::var")
def _(I, c):
    s = strof(I, c.args[0])
    e = I.mode.get("environ", {})
    I.mode.setdefault("envread", set()).add(s)
    return okv(StrV(e[s])) if s in e else errv(Top("VarError"))


@vmodel("std::env::var_os")
def _(I, c):
    s = strof(I, c.args[0])
    e = I.mode.get("environ", {})
    I.mode.setdefault("envread", set()).add(s)
    return some(StrV(e[s])) if s in e else NONE


@vmodel("num_cpus::get_physical", "num_cpus::get")
def _(I, c):
    return I.mode.get("cpus", 4)


@vmodel("std::thread::available_parallelism")
def _(I, c):
    raise Unsupported("available_parallelism")


@vmodel("core::str::<impl str>::eq_ignore_ascii_case", "std::str::<impl str>::eq_ignore_ascii_case", "str::eq_ignore_ascii_case", "<str>::eq_ignore_ascii_case")
def _(I, c):
    return 1 if strof(I, c.args[0]).lower() == strof(I, c.args[1]).lower() else 0


@vmodel("core::str::<impl str>::trim", "std::str::<impl str>::trim", "str::trim", "<str>::trim")
def _(I, c):
    return StrV(strof(I, c.args[0]).strip())


@vmodel("core::str::<impl str>::parse", "std::str::<impl str>::parse", "str::parse", "<str>::parse")
def _(I, c):
    s = strof(I, c.args[0])
    return okv(int(s)) if s.isascii() and s.isdigit() else errv(Top("ParseIntError"))


@vmodel("std::string::String::as_str", "std::ops::Deref::deref")
def _(I, c):
    v = c.args[0]
    x = v
    while isinstance(x, Ref):
        x = I.read(x)
    if isinstance(x, StrV):
        return x
    m = PP.M.get(c.key)
    if m is None:
        raise Unsupported(c.key)
    return m(I, c)


class FileV(Opaque):
    __slots__ = ()


@vmodel("std::fs::File::open")
def _(I, c):
    return okv(FileV("file:" + strof(I, c.args[0])))


ENTROPY = ("file:/dev/urandom", "file:/dev/random")


def fresh_bytes(I, n, tag):
    k = I.mode.setdefault("drawn", [0])
    k[0] += 1
    return [B.vec("%s%d.%d" % (tag, k[0], i), 8, 100000 + 10000 * k[0] + 8 * i) for i in range(n)]


@vmodel("std::io::Read::read_exact", "std::io::Read::read", "<std::fs::File as std::io::Read>::read_exact")
def _(I, c):
    f = c.args[0]
    while isinstance(f, Ref):
        f = I.read(f)
    if not isinstance(f, FileV):
        raise Unsupported("read from %r" % (f,))
    buf = c.args[1]
    n = I.length(buf)
    if not isinstance(n, int):
        raise Unsupported("buffer length")
    tag = "entropy" if f.name in ENTROPY else "file"
    for i, b in enumerate(fresh_bytes(I, n, tag)):
        I.write(I.sub(buf, i), b)
    return okv(n if c.key.endswith("::read") else UNIT)


@vmodel("getrandom::fill", "getrandom::getrandom", "rand_core::RngCore::fill_bytes", "rand_core::TryRngCore::try_fill_bytes")
def _(I, c):
    buf = c.args[-1]
    for i, b in enumerate(fresh_bytes(I, I.length(buf), "entropy")):
        I.write(I.sub(buf, i), b)
    return okv(UNIT)


class SourceV(Opaque):
    """a generator; seed: its abstract value"""
    __slots__ = ("seed", "n")


def is_fresh(seed):
    sup = {B.VARNAME.get(l, "?") for l in B.support([x for b in seed for x in B.bits(b, 8)])}
    return bool(sup) and all(s.startswith("entropy") for s in sup)


@vmodel("poulpy_hal::source::Source::new")
def _(I, c):
    l = I.mode.setdefault("sources", [])
    s = SourceV("source%d" % len(l))
    v = c.args[0]
    while isinstance(v, Ref):
        v = I.read(v)
    if not isinstance(v, Agg) or not all(isint(x) for x in v.f):
        raise Unsupported("seed %r" % (v,))
    s.seed, s.n = list(v.f), 0
    l.append((s, I.stack[-1] if I.stack else "?", I.loc))
    return s


@vmodel("poulpy_hal::source::Source::new_seed")
def _(I, c):
    """independent stream expanded from the source"""
    s = c.args[0]
    while isinstance(s, Ref):
        s = I.read(s)
    if not isinstance(s, SourceV):
        raise Unsupported("seed of %r" % (s,))
    return Agg("array", fresh_bytes(I, 32, "entropy" if is_fresh(s.seed) else "expanded"))


@vmodel("poulpy_hal::source::Source::branch")
def _(I, c):
    seed = VMM["poulpy_hal::source::Source::new_seed"](I, c)
    return Agg("tuple", [seed, VMM["poulpy_hal::source::Source::new"](I, Call(c.f, c.env, [seed], c.key))])


def foreign(I, c):
    if not c.key.startswith(("poulpy_", "<poulpy")):
        raise Unsupported("call to %s" % c.key)
    l = I.mode["events"]
    l.append((c.key.split("::")[-1], [snapshot(I, a) for a in c.args], I.pc, c.key))
    return Opaque("%s#%d" % (c.key.split("::")[-1], len(l)))


RECORD = {"Interpreter": ("instructions_encrypt_sk", "ram_encrypt_sk", "new", "new_with_debug", "set_threads", "set_verbose_timings"),
          "VMKeys": ("encrypt_sk",), "VMKeysPrepared": ("alloc", "prepare")}


def world(ctx, environ=(), cpus=4):
    I = ctx.fresh(VMM)
    I.mode["n"] = 1
    params_overrides(ctx, I)
    I.mode.update(events=[], environ=dict(environ), cpus=cpus, sources=[])
    I.foreign = foreign
    for ty, names in RECORD.items():
        for n in names:
            f = ctx.method("fhevm", ty, n)

            def rec(I, key, args, env, n=n, ty=ty):
                l = I.mode["events"]
                l.append((ty + "." + n, [snapshot(I, a) for a in args], I.pc, key))
                return UNIT if n in ("instructions_encrypt_sk", "ram_encrypt_sk", "prepare", "set_threads", "set_verbose_timings") \
                    else Opaque("%s.%s#%d" % (ty, n, len(l)))
            I.overrides[f.key] = rec
    return I


KNOWN_ENV = {"PHANTOM_DEBUG", "PHANTOM_THREADS", "PHANTOM_VERBOSE_TIMINGS"}


def environments(ctx):
    """settings of the environment to analyse: the documented variables, and every other variable the code reads"""
    out = [{}, {"PHANTOM_DEBUG": "1"}, {"PHANTOM_THREADS": "3", "PHANTOM_VERBOSE_TIMINGS": "1"}, {"PHANTOM_THREADS": "64", "PHANTOM_DEBUG": "TRUE"}]
    seen = set()
    todo = [{}, {"PHANTOM_DEBUG": "1"}]
    while todo and len(out) < 40:
        env = todo.pop()
        try:
            I = world(ctx, env)
            ph = phantom(ctx, NOPS * 2, symbytes("r", 64, 0), R0, (R0 + 4, 4), (R0 + 20, 12))
            start_vm(ctx, I, ph, symbytes("i", 4, 50000))
        except (Unsupported, Anchor):
            continue
        for v in sorted(I.mode.get("envread", set()) - KNOWN_ENV - seen):
            seen.add(v)
            for x in ("1", "true", "42", "0", ""):
                out.append({v: x})
                if x:
                    todo.append({v: x})
    return out


def envname(env):
    return ",".join("%s=%s" % x for x in env.items()) or "plain"


def snapshot(I, v):
    """what the argument holds at the time of the call: slice contents, object values"""
    try:
        while isinstance(v, Ref):
            if v.win is not None:
                return Agg("vec", [I.read(I.sub(v, i)) for i in range(I.length(v))])
            v = I.read(v)
    except (Unsupported, IN._NoField, TypeError):
        return v
    return v


def bootmem(ctx, data, off, size=None):
    return mk(ctx, "BootMemory", COMP, data=Agg("vec", list(data)), offset=off, size=len(data) if size is None else size)


def phantom(ctx, rom, ram, roff, inp, out):
    return mk(ctx, "Phantom", COMP, boot_rom=bootmem(ctx, rom, 0), boot_ram=bootmem(ctx, ram, roff),
              input_info=mk(ctx, "InputInfo", COMP, start_addr=inp[0], size=inp[1]),
              output_info=mk(ctx, "OutputInfo", COMP, start_addr=out[0], size=out[1]), _elf_bytes=NONE)


def slice_of(I, l):
    return Ref(I.newcell(Agg("array", list(l))), (), (0, len(l)))


def words_of(b):
    return [B.bv([x for j in range(4) for x in B.bits(b[4 * i + j], 8)]) for i in range(len(b) // 4)]


def byargs(ctx, ty, name, args):
    """argument values by parameter name"""
    fn = ctx.method("fhevm" if ty in RECORD else COMP, ty, name)
    d = {}
    for n, pl in fn.names:
        if not pl[1] and 1 <= pl[0] <= fn.argc:
            d[n.lstrip("_")] = args[pl[0] - 1]
    return d


def symbytes(tag, n, base):
    return [B.vec("%s%d" % (tag, i), 8, base + 8 * i) for i in range(n)]


NOPS = [0x13, 0, 0, 0]
R0 = 1 << 18


def bytes_equal(ctx, key, got, want, fn, what):
    """one obligation: two byte (or word) sequences are the same functions"""
    if not isinstance(got, Agg):
        ctx.und(key, "value %r" % (got,))
        return False
    if len(got.f) != len(want):
        return ctx.check(key, False, where(fn), "%s: %d elements instead of %d" % (what, len(got.f), len(want)))
    for i, (x, y) in enumerate(zip(got.f, want)):
        if not isint(x):
            ctx.und(key, "element %d: %r" % (i, x))
            return False
        if x != y:
            w = 64
            bx, by = B.bits(x, w), B.bits(y, w)
            d = [j for j in range(w) if bx[j] != by[j]]
            if d:
                a = B.somesats(B.xor_(bx[d[0]], by[d[0]]), 1)[0]
                return ctx.check(key, False, where(fn), "%s: element %d is %s where %s is right (e.g. for %s)" % (
                    what, i, hex(B.ceval(x, a)), hex(B.ceval(y, a)), {B.VARNAME.get(l, l): v for l, v in list(a.items())[:12]}))
    ctx.ok(key)
    return True


def field_of(ctx, v, ty, f):
    return getf(ctx, v, ty, COMP, f)


def start_vm(ctx, I, ph, tape, cycles=7):
    fn = ctx.method(COMP, "Phantom", "encrypted_vm")
    v = I.call_body(fn, ctx.byname(fn, ("self", "input_tape", "max_cycles"), [cell(I, ph), slice_of(I, tape), cycles]), {})
    return fn, v


TAPES = ((0, 0), (0, 4), (4, 4), (8, 16), (12, 1), (1, 2), (3, 7), (60, 4), (63, 1), (0, 64), (64, 0))


def p18(ctx):
    ctx.rule = ("abstract interpretation of encrypted_vm, output_tape (both machines), TestVM::init and read_input_tape with symbolic "
                "memory and tape bytes: the words handed to RAM encryption must be the boot image with exactly the input buffer "
                "replaced; the output must be the bytes of the output buffer, as functions of the symbolic bytes; a tape of another "
                "length must stop; the buffers recorded in the program are the ones the machine uses")
    ctx.trusted = ["sa/poulpy.py (poulpy objects are opaque here; only the data handed to them is checked)"]
    ctx.assumptions = ["buffer positions and sizes are those listed in the obligations; contents are symbolic"]
    fe = ctx.method(COMP, "Phantom", "encrypted_vm")
    nbig = ram_size(ctx)

    def enc(st, n, size, roff=R0, dl=0, env=(), twice=False):
        k = "encrypted:input:%d+%d of %d@%x%s%s%s" % (st, n, size, roff, ":wrong%+d" % dl if dl else "", ":" + envname(env) if env else "", ":second" if twice else "")

        def one():
            I = world(ctx, env)
            if twice:
                # another machine was made before, from another program and from this one
                start_vm(ctx, I, phantom(ctx, NOPS, symbytes("q", 48, 80000), roff, (roff + 4, 5), (roff, 4)), symbytes("h", 5, 90000))
                start_vm(ctx, I, phantom(ctx, NOPS, symbytes("r", size, 0), roff, (roff + st, n), (roff, 4)), symbytes("g", n, 95000))
                del I.mode["events"][:]
            ram = symbytes("r", size, 0)
            tape = symbytes("i", n + dl, 50000)
            ph = phantom(ctx, NOPS, ram, roff, (roff + st, n), (roff, 4))
            fn, v = start_vm(ctx, I, ph, tape)
            if dl:
                ctx.check(k, I.pc == 0, where(fn), "an input tape of %d bytes is accepted for a buffer of %d" % (n + dl, n))
                return
            if I.pc != 1:
                ctx.bad(k, where(fn), "a valid input panics: %s" % (I.panics[:1],))
                return
            ev = [e for e in I.mode["events"] if e[0] == "Interpreter.ram_encrypt_sk"]
            if len(ev) != 1:
                ctx.check(k + ":once", False, where(fn), "RAM is encrypted %d times" % len(ev))
                return
            d = byargs(ctx, "Interpreter", "ram_encrypt_sk", ev[0][1])
            want = list(ram)
            want[st:st + n] = tape
            bytes_equal(ctx, k, d.get("data"), words_of(want), fn, "RAM image")
            ctx.check(k + ":machine", name_of(I, d["self"]) == name_of(I, field_of(ctx, v, "EncryptedVM", "interpreter")), where(fn),
                      "the RAM image is not encrypted into the machine that is returned")
            bytes_equal(ctx, k + ":image kept", field_of(ctx, field_of(ctx, ph, "Phantom", "boot_ram"), "BootMemory", "data"), ram, fn, "boot image")
        ctx.tryob(k, one)
    for st, n in TAPES:
        enc(st, n, 64)
        for dl in (-1, 1, 4):
            if n + dl >= 0 and st + n + dl <= 64 or dl == 1:
                if n + dl >= 0:
                    enc(st, n, 64, R0, dl)
    enc(8, 12, 64, roff=0x1000)
    enc(16, 32, nbig)
    enc(8, 12, 64, twice=True)
    for env in environments(ctx):
        if env:
            enc(8, 12, 64, env=env)
            enc(8, 12, 64, R0, -1, env)
    fns = [f for n in ("encrypted_vm", "test_vm") for f in closure_of(ctx, ctx.method(COMP, "Phantom", n))] + \
        [f for n in ("init", "read_input_tape", "output_tape") for f in closure_of(ctx, ctx.method(COMP, "TestVM", n))] + \
        closure_of(ctx, ctx.method(COMP, "EncryptedVM", "output_tape"))
    near = sorted({x + d for x in consts_of(ctx, fns) for d in (-1, 0, 1) if 0 <= x + d <= nbig})
    ctx.counts["buffer sizes next to constants"] = len(near)
    for n in near + [100, 500, nbig]:
        size = max(64, (n + 3) // 4 * 4)
        enc(0, n, size)
        enc(size - n, n, size)
        if n < nbig:
            enc(n, min(nbig - n, 8), nbig)
    # a buffer outside of RAM
    for st, n in ((60, 8), (64, 4), (4096, 4), (-4, 4), (-2, 8), (1 << 31, 4)):
        def outside(st=st, n=n):
            k = "encrypted:input outside:%d+%d" % (st, n)
            I = world(ctx)
            fn, v = start_vm(ctx, I, phantom(ctx, NOPS, symbytes("r", 64, 0), R0, (R0 + st, n), (R0, 4)), symbytes("i", n, 50000))
            ctx.check(k, I.pc == 0, where(fn), "an input buffer outside of RAM is accepted")
        ctx.tryob("encrypted:input outside:%d+%d" % (st, n), outside)
    enc(nbig - 16, 16, nbig)

    def infos():
        I = world(ctx)
        ph = phantom(ctx, NOPS, symbytes("r", 64, 0), R0, (R0 + 4, 8), (R0 + 20, 12))
        fn, v = start_vm(ctx, I, ph, symbytes("i", 8, 50000), 9)
        o = field_of(ctx, v, "EncryptedVM", "output_info")
        ctx.check("encrypted:output info", (field_of(ctx, o, "OutputInfo", "start_addr"), field_of(ctx, o, "OutputInfo", "size")) == (R0 + 20, 12),
                  where(fn), "the machine has another output buffer than the program")
        ctx.check("encrypted:ram offset", field_of(ctx, v, "EncryptedVM", "ram_offset") == R0, where(fn), "the machine has another RAM start than the program")
    ctx.tryob("encrypted:infos", infos)

    fo = ctx.method(COMP, "EncryptedVM", "output_tape")
    rd = ctx.method("fhevm", "Interpreter", "ram_decrypt")

    def out(st, n, roff=R0):
        k = "encrypted:output:%d+%d@%x" % (st, n, roff)

        def one():
            I = world(ctx)
            words = [B.vec("m%d" % i, 32, 32 * i) for i in range(nbig // 4)]

            def dec(I, key, args, env):
                d = {}
                for nm, pl in rd.names:
                    if not pl[1] and 1 <= pl[0] <= rd.argc:
                        d[nm.lstrip("_")] = args[pl[0] - 1]
                buf = d.get("data_decrypted", d.get("data", args[2]))
                m = I.length(buf)
                if m != len(words):
                    I.panic(1, "buffer of %s words for a RAM of %d" % (m, len(words)))
                    return None
                for i, w in enumerate(words):
                    I.write(I.sub(buf, i), w)
                return UNIT
            I.overrides[rd.key] = dec
            fs = machine_parts(ctx)
            v = {f: Opaque("vm." + f) for f in fs}
            v.update(max_cycles=1, phantom_debug=0, ram_offset=roff, output_info=mk(ctx, "OutputInfo", COMP, start_addr=roff + st, size=n))
            vm = cell(I, mk(ctx, "EncryptedVM", COMP, **v))
            r = I.call_body(fo, [vm], {})
            if I.pc != 1:
                ctx.bad(k, where(fo), "reading the output panics: %s" % (I.panics[:1],))
                return
            mem = [B.bv(B.bits(w, 32)[8 * j:8 * j + 8]) for w in words for j in range(4)]
            bytes_equal(ctx, k, r, mem[st:st + n], fo, "output tape")
            # the machine ran on: a second reading shows the new contents
            words[:] = [B.bnot(w, 32) for w in words]
            r = I.call_body(fo, [vm], {})
            if I.pc != 1:
                ctx.bad(k + ":again", where(fo), "reading the output again panics: %s" % (I.panics[:1],))
                return
            mem = [B.bv(B.bits(w, 32)[8 * j:8 * j + 8]) for w in words for j in range(4)]
            bytes_equal(ctx, k + ":again", r, mem[st:st + n], fo, "output tape read again")
        ctx.tryob(k, one)
    for st, n in ((0, 0), (0, 4), (4, 16), (5, 3), (0, 64), (nbig - 4, 4), (nbig - 1, 1), (100, 256), (0, nbig), (1023, 2)):
        out(st, n)
    out(12, 20, 0x1000)
    for n in near:
        out(0, n)
        out(nbig - n, n)

    # what output_tape asks the machine for: the contents of RAM, in order
    import checks_cycle as CC

    def glue(n, ram, debug, th):
        k = "machine:ram n%d:%d%s:t%d" % (n, ram, ":debug" if debug else "", th)

        def one():
            m = CC.Machine(ctx, n=n, rom=2, ram=ram, debug=debug, threads=th)
            I = m.I
            fe2 = ctx.method("fhevm", "Interpreter", "ram_encrypt_sk")
            words = [B.vec("m%d" % i, 32, 32 * i) for i in range(ram)]
            src = I.newcell(Agg("array", list(words)))
            I.call_body(fe2, ctx.byname(fe2, ("self", "module", "data", "sk_prepared", "source_xa", "source_xe", "scratch"),
                                        [m.r, CC.MODULE, Ref(src, (), (0, ram)), CC.SK, CC.XA, CC.XE, CC.SCRATCH]), {})
            if I.pc != 1:
                ctx.bad(k + ":encrypt", where(fe2), "encrypting a full RAM panics: %s" % (I.panics[:1],))
                return
            for i, x in enumerate(m.dump("ram", ram)):
                ctx.equal("%s:encrypt:%d" % (k, i), x, words[i], 32, 1, where(fe2), {}, "RAM word %d after encryption" % i)
            dst = I.newcell(Agg("array", [B.vec("d%d" % i, 32, 500000 + 32 * i) for i in range(ram)]))
            I.call_body(rd, ctx.byname(rd, ("self", "module", "data_decrypted", "sk_prepared", "scratch"),
                                       [m.r, CC.MODULE, Ref(dst, (), (0, ram)), CC.SK, CC.SCRATCH]), {})
            if I.pc != 1:
                ctx.bad(k + ":decrypt", where(rd), "decrypting RAM panics: %s" % (I.panics[:1],))
                return
            for i, x in enumerate(I.read(Ref(dst)).f):
                ctx.equal("%s:decrypt:%d" % (k, i), x, words[i], 32, 1, where(rd), {}, "decrypted RAM word %d" % i)
            for i, x in enumerate(m.dump("ram", ram)):
                ctx.equal("%s:kept:%d" % (k, i), x, words[i], 32, 1, where(rd), {}, "RAM word %d after decryption" % i)
        ctx.tryob(k, one)
    for n, ram, debug, th in ((8, 5, False, 1), (8, 8, True, 2), (4, 17, False, 3), (2, 6, True, 1), (16, 16, False, 5)):
        glue(n, ram, debug, th)

    fi = ctx.method(COMP, "TestVM", "init")
    fr = ctx.method(COMP, "TestVM", "read_input_tape")
    ft = ctx.method(COMP, "TestVM", "output_tape")
    fp = ctx.method(COMP, "Phantom", "test_vm")

    def tvm(st, n, ost, on, dl=0, roff=R0, size=64):
        k = "cleartext:%d+%d:%d+%d@%x%s" % (st, n, ost, on, roff, ":wrong%+d" % dl if dl else "")

        def one():
            I = fresh(ctx)
            ram, rom = symbytes("r", size, 0), symbytes("t", 12, 40000)
            tape = symbytes("i", n + dl, 50000)
            ph = phantom(ctx, rom, ram, roff, (roff + st, n), (roff + ost, on))
            v = I.call_body(fp, ctx.byname(fp, ("self", "max_cycles"), [cell(I, ph), 5]), {})
            if I.pc != 1:
                ctx.bad(k, where(fp), "construction panics: %s" % (I.panics[:1],))
                return
            vm = cell(I, v)
            if not dl:
                for f, want, off in (("rom", rom, 0), ("ram", ram, roff)):
                    m = field_of(ctx, v, "TestVM", f)
                    bytes_equal(ctx, "%s:%s" % (k, f), field_of(ctx, m, "Memory", "data"), want, fi, "initial %s" % f)
                    ctx.check("%s:%s:at" % (k, f), field_of(ctx, m, "Memory", "offset") == off and field_of(ctx, m, "Memory", "size") == len(want),
                              where(fi), "%s placed at another address or with another size" % f)
                ctx.check(k + ":start", field_of(ctx, v, "TestVM", "pc") == 0 and list(field_of(ctx, v, "TestVM", "registers").f) == [0] * 32
                          and field_of(ctx, v, "TestVM", "max_cycles") == 5, where(fi), "a new machine does not start at pc 0 with zero registers and the requested limit")
            # output before any input: the boot image
            o = I.call_body(ft, [vm], {})
            if I.pc == 1:
                bytes_equal(ctx, k + ":output", o, ram[ost:ost + on], ft, "output tape")
            else:
                ctx.bad(k + ":output", where(ft), "reading the output panics: %s" % (I.panics[:1],))
                return
            I.call_body(fr, [vm, slice_of(I, tape)], {})
            if dl:
                ctx.check(k, I.pc == 0, where(fr), "an input tape of %d bytes is accepted for a buffer of %d" % (n + dl, n))
                return
            if I.pc != 1:
                ctx.bad(k, where(fr), "a valid input panics: %s" % (I.panics[:1],))
                return
            want = list(ram)
            want[st:st + n] = tape
            v = I.read(vm)
            bytes_equal(ctx, k + ":ram", field_of(ctx, field_of(ctx, v, "TestVM", "ram"), "Memory", "data"), want, fr, "RAM after reading the input")
            bytes_equal(ctx, k + ":rom kept", field_of(ctx, field_of(ctx, v, "TestVM", "rom"), "Memory", "data"), rom, fr, "ROM after reading the input")
            o = I.call_body(ft, [vm], {})
            if I.pc == 1:
                bytes_equal(ctx, k + ":output after", o, want[ost:ost + on], ft, "output tape")
            else:
                ctx.bad(k + ":output after", where(ft), "reading the output panics: %s" % (I.panics[:1],))
                return
            # another input replaces the first
            tape = symbytes("j", n, 60000)
            I.call_body(fr, [vm, slice_of(I, tape)], {})
            if I.pc != 1:
                ctx.bad(k + ":input again", where(fr), "a second input panics: %s" % (I.panics[:1],))
                return
            want[st:st + n] = tape
            v = I.read(vm)
            bytes_equal(ctx, k + ":ram again", field_of(ctx, field_of(ctx, v, "TestVM", "ram"), "Memory", "data"), want, fr, "RAM after reading a second input")
            o = I.call_body(ft, [vm], {})
            if I.pc == 1:
                bytes_equal(ctx, k + ":output again", o, want[ost:ost + on], ft, "output tape")
        ctx.tryob(k, one)
    for st, n in TAPES:
        tvm(st, n, 16, 8)
        for dl in (-1, 1, 4):
            if n + dl >= 0:
                tvm(st, n, 0, 4, dl)
    for st, n in TAPES:
        tvm(4, 8, st, n)
    tvm(4, 8, 8, 16, roff=0x1000)
    for n in [x for x in near if x <= 600 or ctx.tier != "quick"] + [100, 500]:
        size = max(64, (n + 3) // 4 * 4)
        tvm(0, n, size - n, n, size=size)
        tvm(size - n, n, 0, n, size=size)
        if n < nbig:
            tvm(n, min(nbig - n, 8), n, min(nbig - n, 8), size=nbig)
    tvm(0, 8, nbig - 8, 8, size=nbig)


def ram_size(ctx):
    for k, f in ctx.prog.fns.items():
        if f.crate == COMP and f.k == "const" and f.n == "RAM_SIZE":
            I = fresh(ctx)
            v = I.runconst(f, {})
            if isinstance(v, int):
                return v
    return 4096


# ------------------------------------------------------------------------------------------------ P17
PH = "elf::segment::ProgramHeader"
SH = "elf::section::SectionHeader"
LOAD, NOTE, STACK = 1, 4, 0x6474E551
X, W_, R_ = 1, 2, 4


class ElfV(Opaque):
    __slots__ = ()


def struct_of(I, id, **kw):
    ad = I.prog.adts.get(id)
    if ad is None:
        raise Unsupported("layout of " + id)
    return Agg("adt", [kw.get(f[0], 0) for f in ad["v"][0][2]], id, 0)


@vmodel("elf::ElfBytes::minimal_parse")
def _(I, c):
    return okv(ElfV("elf"))


@vmodel("elf::ElfBytes::segments")
def _(I, c):
    return some(ElfV("segments"))


@vmodel("elf::ElfBytes::section_headers")
def _(I, c):
    return some(ElfV("sections"))


def tableof(I, v):
    while isinstance(v, Ref):
        v = I.read(v)
    if not isinstance(v, ElfV):
        raise Unsupported("table %r" % (v,))
    if v.name == "segments":
        return [struct_of(I, PH, p_type=t, p_flags=fl, p_vaddr=va, p_paddr=va + 0x10000000 + 0x2400 * i, p_offset=off, p_filesz=fs, p_memsz=ms, p_align=0x1000)
                for i, (t, fl, va, off, fs, ms) in enumerate(I.mode["segments"])]
    return [struct_of(I, SH, sh_addr=a, sh_size=s, sh_type=1) for _, a, s in I.mode["sections"]]


@vmodel("elf::parse::ParsingTable::iter")
def _(I, c):
    t = tuple(tableof(I, c.args[0]))
    return SM.ItSeq(t, 0, len(t), "val")


VMM["elf::parse::ParsingTable::len"] = lambda I, c: len(tableof(I, c.args[0]))


@vmodel("elf::parse::ParsingTable::get")
def _(I, c):
    t = tableof(I, c.args[0])
    if not isinstance(c.args[1], int):
        raise Unsupported("table index")
    return okv(t[c.args[1]]) if c.args[1] < len(t) else errv(Top("ParseError"))


@vmodel("elf::ElfBytes::segment_data")
def _(I, c):
    v = snapshot(I, c.args[1])
    fs = [f[0] for f in I.prog.adts[PH]["v"][0][2]]
    o, n = v.f[fs.index("p_offset")], v.f[fs.index("p_filesz")]
    b = I.mode["bytes"]
    if o + n > len(b):
        return errv(Top("ParseError"))
    return okv(slice_of(I, b[o:o + n]))


@vmodel("elf::ElfBytes::section_header_by_name")
def _(I, c):
    s = strof(I, c.args[1])
    for n, a, z in I.mode["sections"]:
        if n == s:
            return okv(some(struct_of(I, SH, sh_addr=a, sh_size=z, sh_type=1)))
    return okv(NONE)


SECTIONS = ((".text", 0, 8), (".inpdata", R0, 8), (".outdata", R0 + 8, 12), (".rodata", R0 + 20, 4), (".data", R0 + 24, 8))


def load(ctx, segs, sections=SECTIONS, nbytes=256):
    I = world(ctx)
    data = symbytes("f", nbytes, 0) if nbytes <= 20000 else [(i * 7 + (i >> 8) * 13 + (i >> 16)) & 255 for i in range(nbytes)]
    I.mode.update(segments=list(segs), sections=list(sections), bytes=data)
    fn = ctx.method(COMP, "Phantom", "from_elf")
    v = I.call_body(fn, [Agg("vec", list(data))], {})
    return I, fn, v, data


def image(segs, data, base, size):
    ram = [0] * size
    for t, fl, va, off, fs, ms in segs:
        if t == LOAD and fl in (R_, R_ | W_):
            for i in range(fs):
                ram[va - base + i] = data[off + i]
    return ram


def viewers(ctx):
    """the public accessors of a loaded program show its own parts"""
    I = ctx.fresh(VMM)
    ph = phantom(ctx, NOPS, symbytes("r", 16, 0), R0, (R0 + 4, 5), (R0 + 20, 12))
    r = cell(I, ph)

    def see(ty, ref, f):
        ms = [m for m in ctx.prog.methods(COMP, ty) if m.n == f and m.argc == 1]
        if not ms:
            return None, None
        v = I.call_body(ms[0], [ref], {})
        return ms[0], v
    for part, ty, fs in (("boot_rom", "BootMemory", ("data", "offset", "size")), ("boot_ram", "BootMemory", ("data", "offset", "size")),
                         ("input_info", "InputInfo", ("start_addr", "size")), ("output_info", "OutputInfo", ("start_addr", "size"))):
        m, v = see("Phantom", r, part)
        if m is None:
            continue
        want = getf(ctx, ph, "Phantom", COMP, part)
        got = v
        while isinstance(got, Ref):
            got = I.read(got)
        ctx.check("viewer:%s" % part, repr(got) == repr(want), where(m), "another part is shown")
        for f in fs:
            m, x = see(ty, v if isinstance(v, Ref) else cell(I, v), f)
            if m is None:
                continue
            while isinstance(x, Ref):
                x = I.read(x)
            if isinstance(x, Agg):
                x = Agg("vec", x.f)
            ctx.check("viewer:%s.%s" % (part, f), repr(x) == repr(getf(ctx, want, ty, COMP, f)), where(m), "another value is shown")


def p17(ctx):
    ctx.rule = ("abstract interpretation of from_elf on symbolic file bytes for the listed segment tables: instruction memory and RAM "
                "must be exactly the image the segment table defines (as functions of the file bytes), everything else zero, the "
                "buffers those of the sections; tables that do not fit must stop; every word of the instruction memory must reach the "
                "program of the encrypted machine in order")
    ctx.trusted = ["the elf crate's parsing of the tables (modelled as its documented result)"]
    ctx.assumptions = ["segment tables listed in the obligations; contents symbolic"]
    ctx.tryob("viewers", viewers, ctx)
    N = ram_size(ctx)
    text = (LOAD, R_ | X, 0, 100, 8, 8)
    ro = (LOAD, R_, R0, 120, 20, 20)
    rw = (LOAD, R_ | W_, R0 + 24, 144, 8, 8)
    good = {
        "plain": [text, ro, rw],
        "text only with data": [text, ro],
        "rw first": [text, (LOAD, R_ | W_, R0, 120, 16, 16), (LOAD, R_, R0 + 32, 140, 4, 4)],
        "one rw": [text, (LOAD, R_ | W_, R0, 120, 33, 33)],
        "two ro": [text, ro, (LOAD, R_, R0 + 40, 150, 7, 7), (LOAD, R_ | W_, R0 + 64, 160, 1, 1)],
        "bss behind data": [text, ro, (LOAD, R_ | W_, R0 + 24, 144, 8, 40)],
        "bss only": [text, ro, (LOAD, R_ | W_, R0 + 24, 144, 0, 64)],
        "bss to the end": [text, ro, (LOAD, R_ | W_, R0 + 24, 144, 5, N - 24)],
        "ro with bss": [text, (LOAD, R_, R0, 120, 3, 9), rw],
        "empty segment": [text, ro, (LOAD, R_ | W_, R0 + 24, 144, 0, 0), (LOAD, R_ | W_, R0 + 28, 200, 2, 2)],
        "stack and note": [(STACK, R_ | W_, 0, 0, 0, 0), text, (NOTE, R_, R0 + 4, 10, 8, 8), ro, rw, (STACK, R_ | W_ | X, 0, 0, 0, 0x1000)],
        "notes look like data": [(NOTE, R_, 0x100, 10, 8, 8), (NOTE, R_ | X, 0, 40, 8, 8), text, ro, (NOTE, R_ | W_, R0 + 60, 16, 4, 4)],
        "text last": [ro, rw, text],
        "text between": [ro, text, rw],
        "gaps": [text, (LOAD, R_, R0, 120, 1, 1), (LOAD, R_, R0 + 100, 130, 2, 2), (LOAD, R_ | W_, R0 + 1000, 140, 3, 3), (LOAD, R_ | W_, R0 + N - 4, 150, 4, 4)],
        "last byte": [text, ro, (LOAD, R_ | W_, R0 + N - 1, 255, 1, 1)],
        "same file bytes": [text, ro, (LOAD, R_ | W_, R0 + 24, 120, 20, 20)],
        "file order reversed": [(LOAD, R_ | X, 0, 200, 12, 12), (LOAD, R_, R0, 150, 10, 10), (LOAD, R_ | W_, R0 + 16, 60, 30, 30)],
        "physical address differs": [text, ro, rw],
        "many": [text] + [(LOAD, R_ if i % 3 else R_ | W_, R0 + 40 * i, 8 + 5 * i, 3 + i, 3 + i + (i % 4) * 3) for i in range(12)],
        "adjacent": [text] + [(LOAD, R_ if i < 8 else R_ | W_, R0 + 4 * i, 100 + 4 * i, 4, 4) for i in range(30)],
    }
    fns = closure_of(ctx, ctx.method(COMP, "Phantom", "from_elf"))
    big = {}
    near = {x + d for x in consts_of(ctx, fns) for d in (-1, 0, 1) if 4 <= x + d <= 300000}
    ctx.counts["sizes next to constants"] = len(near)
    for n in sorted({4, 16, 64, 1024, 4096, 4100, 5000, 65536, 65540, 70000, 262140} | {n // 4 * 4 for n in near}):
        nm = "text of %d bytes" % n
        good[nm] = [(LOAD, R_ | X, 0, 64, n, n), (LOAD, R_, R0, 20, 20, 20), (LOAD, R_ | W_, R0 + 24, 40, 8, 8)]
        big[nm] = max(256, n + 64)
    for n in sorted({1, 2, 3, 5, 1000, 2047, 2048, 2049, N - 1, N} | {n for n in near if n <= N}):
        nm = "data of %d bytes" % n
        good[nm] = [text, (LOAD, R_ | W_, R0, 108, n, n)]
        big[nm] = 108 + max(n, 150)
        if n < N - 8:
            nm = "data at %d" % n
            good[nm] = [text, (LOAD, R_, R0, 108, 1, 1), (LOAD, R_ | W_, R0 + n, 116, 7, 8)]
            nm = "data in file at %d" % n
            good[nm] = [text, (LOAD, R_, R0, 108, 20, 20), (LOAD, R_ | W_, R0 + 24, n, 100, 100)]
            big[nm] = max(256, n + 100)
    for name, segs in good.items():
        def one():
            k = "load:" + name
            I, fn, v, data = load(ctx, segs, nbytes=big.get(name, 256))
            if I.pc != 1:
                ctx.bad(k, where(fn), "a loadable program is refused: %s" % (I.panics[:1],))
                return
            t = [s for s in segs if s[0] == LOAD and s[1] == R_ | X][0]
            base = [s for s in segs if s[0] == LOAD and s[1] in (R_, R_ | W_)][0][2]
            for f, want, off in (("boot_rom", data[t[3]:t[3] + t[4]], 0), ("boot_ram", image(segs, data, base, N), base)):
                m = field_of(ctx, v, "Phantom", f)
                bytes_equal(ctx, "%s:%s" % (k, f), field_of(ctx, m, "BootMemory", "data"), want, fn, f)
                ctx.check("%s:%s:place" % (k, f), field_of(ctx, m, "BootMemory", "offset") == off and field_of(ctx, m, "BootMemory", "size") == len(want),
                          where(fn), "%s has offset %r and size %r" % (f, field_of(ctx, m, "BootMemory", "offset"), field_of(ctx, m, "BootMemory", "size")))
            for f, ty, (a, s) in (("input_info", "InputInfo", (R0, 8)), ("output_info", "OutputInfo", (R0 + 8, 12))):
                o = field_of(ctx, v, "Phantom", f)
                ctx.check("%s:%s" % (k, f), (field_of(ctx, o, ty, "start_addr"), field_of(ctx, o, ty, "size")) == (a, s), where(fn),
                          "%s is not the section's" % f)
        ctx.tryob("load:" + name, one)
    # must stop, or (either) load correctly
    bad = {
        "rwx segment": [text, ro, (LOAD, R_ | W_ | X, R0 + 24, 144, 8, 8)],
        "second text": [text, (LOAD, R_ | X, 0x100, 144, 8, 8), ro],
        "x-only segment": [text, ro, (LOAD, X, 0x100, 144, 8, 8)],
        "w-only segment": [text, ro, (LOAD, W_, R0 + 24, 144, 8, 8)],
        "no-access segment": [text, ro, (LOAD, 0, R0 + 24, 144, 8, 8)],
        "no text": [ro, rw],
        "text not at 0": [(LOAD, R_ | X, 4, 100, 8, 8), ro],
        "text with bss": [(LOAD, R_ | X, 0, 100, 8, 16), ro],
        "beyond ram": [text, ro, (LOAD, R_ | W_, R0 + N - 4, 144, 8, 8)],
        "far beyond ram": [text, ro, (LOAD, R_ | W_, R0 + N, 144, 4, 4)],
        "far away": [text, ro, (LOAD, R_ | W_, 0x80000000, 144, 4, 4)],
        "wrapped": [text, ro, (LOAD, R_ | W_, R0 + N + 24, 144, 4, 4)],
        "bss beyond ram": [text, ro, (LOAD, R_ | W_, R0 + 24, 144, 8, N)],
        "bss-only beyond ram": [text, ro, (LOAD, R_ | W_, R0 + N - 8, 144, 0, 16)],
        "too large": [text, (LOAD, R_ | W_, R0, 0, N + 4, N + 4)],
        "below ram": [text, ro, (LOAD, R_ | W_, R0 - 8, 144, 4, 4)],
        "file too short": [text, ro, (LOAD, R_ | W_, R0 + 24, 252, 8, 8)],
        "text past the file": [(LOAD, R_ | X, 0, 252, 8, 8), ro],
        "file size above memory size": [text, ro, (LOAD, R_ | W_, R0 + 24, 144, 8, 4)],
    }
    for name, segs in bad.items():
        def one():
            I, fn, v, data = load(ctx, segs, nbytes=256 if name != "too large" else N + 8)
            ctx.check("refuse:" + name, I.pc == 0, where(fn), "a program with a segment that cannot be loaded (%s) is accepted" % name)
        ctx.tryob("refuse:" + name, one)
    for miss in (".inpdata", ".outdata"):
        def one():
            I, fn, v, data = load(ctx, good["plain"], [s for s in SECTIONS if s[0] != miss])
            ctx.check("refuse:no " + miss, I.pc == 0, where(fn), "a program without %s is accepted" % miss)
        ctx.tryob("refuse:no " + miss, one)
    handover(ctx)


def handover(ctx):
    """the words of the instruction memory are the program of the encrypted machine"""
    valid = [0x00C58533, 0xFEA42E23, 0x00B51463, 0x000402B7, 0x0000006F, 0x00812083] * 2000
    fns = closure_of(ctx, ctx.method(COMP, "Phantom", "encrypted_vm"))
    near = {x + d for x in consts_of(ctx, fns) for d in (-1, 0, 1, 2) if 1 <= x + d <= 5000}
    cfgs = [(1, 0, {}), (2, 1, {}), (3, 1, {}), (6, 5, {}), (6, 0, {}), (300, 255, {}), (1100, 1023, {})] + \
        [(n, n - 1, {}) for n in sorted(near)] + [(3, 1, e) for e in environments(ctx) if e]
    for n, pos, env in cfgs:
        k = "program:%d:%d%s" % (n, pos, ":" + envname(env) if env else "")

        def one():
            I = world(ctx, env)
            w = B.vec("w", 32, 0)
            words = list(valid[:n])
            words[pos] = w
            rom = [B.bv(B.bits(x, 32)[8 * j:8 * j + 8]) if not isinstance(x, int) else x >> 8 * j & 255 for x in words for j in range(4)]
            ph = phantom(ctx, rom, [0] * 64, R0, (R0, 4), (R0, 4))
            fn, v = start_vm(ctx, I, ph, [1, 2, 3, 4])
            g = I.pc
            ev = [e for e in I.mode["events"] if e[0] == "Interpreter.instructions_encrypt_sk"]
            if len(ev) != 1:
                ctx.check(k + ":once", False, where(fn), "the program is encrypted %d times" % len(ev))
                return
            got = byargs(ctx, "Interpreter", "instructions_encrypt_sk", ev[0][1]).get("instructions")
            I.pc = 1
            want = I.read(parser_of(ctx, I, words))
            g2 = I.pc
            nm = dict(word=w)
            # a program that decodes is handed over
            ctx.never(k + ":refused", B.and_(g2, B.not_(g)), where(fn), nm, "a decodable word is refused: %s" % (I.panics[:1],))
            same(ctx, k, got, want, B.and_(g, g2), fn, nm)
            nw = [e for e in I.mode["events"] if e[0].startswith("Interpreter.new")]
            ctx.check(k + ":size", len(nw) == 1 and byargs(ctx, "Interpreter", "new", nw[0][1]).get("rom_size") == n
                      and byargs(ctx, "Interpreter", "new", nw[0][1]).get("ram_size") == 16, where(fn),
                      "the machine is built with %s" % ([name_of(I, x) for x in nw[0][1]] if nw else None))
        ctx.tryob(k, one)
    for extra in (1, 2, 3):
        def one():
            I = world(ctx)
            ph = phantom(ctx, [0x13, 0, 0, 0] + [0x13, 0, 0][:extra], [0] * 64, R0, (R0, 4), (R0, 4))
            fn, v = start_vm(ctx, I, ph, [1, 2, 3, 4])
            ctx.check("refuse:text of %d bytes" % (4 + extra), I.pc == 0, where(fn), "an instruction memory that is not a whole number of words is accepted")
        ctx.tryob("refuse:text+%d" % extra, one)


def same(ctx, k, a, b, g, fn, nm):
    """structural equality of two values under g"""
    if isint(a) and isint(b):
        ctx.equal(k, a, b, 64, g, where(fn), nm, "program handed to the encrypted machine")
    elif isinstance(a, Agg) and isinstance(b, Agg):
        if len(a.f) != len(b.f) or a.id != b.id:
            ctx.check(k, False, where(fn), "%d elements instead of %d" % (len(a.f), len(b.f)))
            return
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            same(ctx, "%s.%d" % (k, i), x, y, g, fn, nm)
    else:
        ctx.check(k, repr(a) == repr(b), where(fn), "differs") if type(a) is type(b) else ctx.und(k, "values %r %r" % (a, b))


# ------------------------------------------------------------------------------------------------ P22
def galois(n):
    ln = n.bit_length() - 1
    return [-1 if i == 0 else pow(5, 1 << (i - 1), 2 * n) for i in range(ln)]


@vmodel("poulpy_core::glwe_trace::<impl poulpy_core::layouts::GLWE>::trace_galois_elements", "poulpy_core::GLWETrace::glwe_trace_galois_elements",
        "poulpy_core::GLWEPacking::glwe_pack_galois_elements", "poulpy_core::GLWEPacker::galois_elements")
def _(I, c):
    return Agg("vec", [g & ((1 << 64) - 1) for g in galois(I.mode["n"])])


@vmodel("poulpy_core::layouts::GLWEAutomorphismKeyHelper::get_automorphism_key")
def _(I, c):
    m = PP.M.get("std::collections::HashMap::get") or PP.M.get("std::collections::hash::map::HashMap::get")
    return m(I, Call(c.f, c.env, [c.args[0], Ref(I.newcell(c.args[1]))], c.key))


def mapping(I, v):
    v = snapshot(I, v)
    if not isinstance(v, MapV):
        raise Unsupported("map %r" % (v,))
    out = {}
    for k, x in v.items:
        if not isinstance(k, int):
            raise Unsupported("map key")
        out[k - (1 << 64) if k >> 63 else k] = name_of(I, x)
    return out


def keyworld(ctx, n, order=None):
    I = world(ctx)
    I.mode["n"] = n
    if order:
        I.mode["maporder"] = order
    for ty in ("VMKeys", "VMKeysPrepared"):
        for f in RECORD[ty]:
            I.overrides.pop(ctx.method("fhevm", ty, f).key)
    from checks_par import realparams
    return I, realparams(ctx, I)


def fget(ctx, v, ty, f):
    return getf(ctx, v, ty, "fhevm", f)


def p22(ctx):
    ctx.rule = ("abstract interpretation of key generation and preparation with every cryptographic object as an identity and every "
                "poulpy call as a recorded effect: the automorphism keys generated are exactly one per index that trace, packing and "
                "retrieval use, each under the given secret key, each prepared key is prepared once "
                "from the generated key of the same index; look-ups return the key of the index asked for; encrypted_vm uses one "
                "secret key, filled before its first use, for the program, RAM, evaluation keys and decryption")
    ctx.trusted = ["poulpy: trace_galois_elements lists the indices its trace, packing and retrieval operations ask for"]
    fe = ctx.method("fhevm", "VMKeys", "encrypt_sk")
    fa = ctx.method("fhevm", "VMKeysPrepared", "alloc")
    fp = ctx.method("fhevm", "VMKeysPrepared", "prepare")
    for n in (2, 8, 16, 1024, 2048) if ctx.tier == "quick" else [1 << i for i in range(1, 17)]:
        for order in (None, "reverse"):
            k = "keys:n%d%s" % (n, ":reverse" if order else "")

            def one():
                I, params = keyworld(ctx, n, order)
                pr = cell(I, params)
                ev = I.mode["events"]
                want = set(galois(n))
                v = I.call_body(fe, ctx.byname(fe, ("params", "sk_lwe", "sk_glwe", "source_xa", "source_xe"),
                                               [pr, Opaque("sk_lwe"), Opaque("sk_glwe"), Opaque("xa"), Opaque("xe")]), {})
                ctx.check(k + ":runs", I.pc == 1, where(fe), "key generation panics: %s" % (I.panics[:1],))
                if I.pc != 1:
                    return
                mp = mapping(I, fget(ctx, v, "VMKeys", "evk_ram"))
                ctx.check(k + ":complete", set(mp) == want, where(fe), "automorphism keys generated for %s, used: %s" % (sorted(mp), sorted(want)))
                ctx.check(k + ":distinct", len(set(mp.values())) == len(mp), where(fe), "one key object under several indices")
                enc = {}
                for e in ev:
                    if e[0] == "encrypt_sk" and "GLWEAutomorphismKey" in e[3]:
                        nm = [name_of(I, x) for x in e[1]]
                        g = e[1][2]
                        enc.setdefault(nm[0], []).append(((g - (1 << 64) if g >> 63 else g) if isinstance(g, int) else g, nm[3], nm[4], nm[5]))
                for g, o in sorted(mp.items()):
                    kk = "%s:%d" % (k, g)
                    l = enc.get(o, [])
                    ctx.check(kk, [x[:2] for x in l] == [(g, "sk_glwe")], where(fe),
                              "the key stored for index %d was generated as %s" % (g, [x[:2] for x in l]))
                    ctx.check(kk + ":streams", all(x[2:] == ("xa", "xe") for x in l), where(fe), "generated with streams %s" % [x[2:] for x in l])
                bk = name_of(I, fget(ctx, v, "VMKeys", "bdd_key"))
                l = [[name_of(I, x) for x in e[1]] for e in ev if e[0] in ("encrypt_sk", "bdd_key_encrypt_sk") and "GLWEAutomorphismKey" not in e[3]]
                l = [x for x in l if bk in x]
                ctx.check(k + ":bootstrapping", len(l) == 1 and "sk_lwe" in l[0] and "sk_glwe" in l[0] and l[0].index("sk_lwe") < l[0].index("sk_glwe")
                          and l[0].index("xa") < l[0].index("xe") if len(l) == 1 and {"sk_lwe", "sk_glwe", "xa", "xe"} <= set(l[0]) else False,
                          where(fe), "bootstrapping key generated as %s" % l)
                m0 = len(ev)
                p = I.call_body(fa, [pr], {})
                pm = mapping(I, fget(ctx, p, "VMKeysPrepared", "atk_glwe"))
                ctx.check(k + ":prepared:complete", set(pm) == want and len(set(pm.values())) == len(pm), where(fa),
                          "prepared keys for %s, used: %s" % (sorted(pm), sorted(want)))
                m1 = len(ev)
                r = cell(I, p)
                I.call_body(fp, ctx.byname(fp, ("self", "module", "other", "scratch"), [r, MODULE, cell(I, v), SCRATCH]), {})
                ctx.check(k + ":prepare runs", I.pc == 1, where(fp), "preparation panics: %s" % (I.panics[:1],))
                if I.pc != 1:
                    return
                p2 = I.read(r)
                pm2 = mapping(I, fget(ctx, p2, "VMKeysPrepared", "atk_glwe"))
                ctx.check(k + ":prepared:kept", pm2 == pm, where(fp), "preparation changes the set of prepared keys")
                prep = {}
                for e in ev[m1:]:
                    if e[0] == "prepare":
                        nm = [name_of(I, x) for x in e[1]]
                        prep.setdefault(nm[0], []).append(nm[2])
                for g, o in sorted(pm.items()):
                    ctx.check("%s:prepared:%d" % (k, g), prep.get(o) == [mp.get(g)], where(fp), "the prepared key for index %d is prepared from %s instead of %s"
                              % (g, prep.get(o), mp.get(g)))
                pb = name_of(I, fget(ctx, p2, "VMKeysPrepared", "bdd_key"))
                ctx.check(k + ":prepared:bootstrapping", prep.get(pb) == [bk], where(fp), "the prepared bootstrapping key is prepared from %s" % prep.get(pb))
                # look-ups
                im = [f for f in ctx.prog.fns.values() if f.crate == "fhevm" and f.n == "get_automorphism_key" and f.blocks]
                for f in im:
                    for g in sorted(want | {3, 7}):
                        x = I.call_body(f, [r, g & ((1 << 64) - 1)], {})
                        if I.pc != 1:
                            ctx.check("%s:lookup:%d" % (k, g), False, where(f), "look-up panics")
                            return
                        got = name_of(I, x.f[0]) if isinstance(x, Agg) and x.f else None
                        ctx.check("%s:lookup:%d" % (k, g), got == pm.get(g), where(f), "look-up of index %d returns %s" % (g, got))
                for f in ctx.prog.fns.values():
                    if f.crate == "fhevm" and f.blocks and f.n in ("get_cbt_key", "cbt_infos", "ks_glwe_infos", "ks_lwe_infos") and f.argc == 1:
                        m2 = len(ev)
                        I.models = {a: b for a, b in I.models.items() if not a.endswith("BDDKeyHelper::get_cbt_key")}
                        I.call_body(f, [r], {})
                        nm = [(e[0], name_of(I, e[1][0])) for e in ev[m2:]]
                        ctx.check("%s:%s" % (k, f.n), nm == [(f.n, pb)], where(f), "%s is answered by %s" % (f.n, nm))
            ctx.tryob(k, one)
    def accessors():
        """the key container holds what it is given"""
        I, _ = keyworld(ctx, 8)
        a, b, c = (MapV(((1, Opaque(x)),), "map") for x in ("a", "b", "c"))
        ms = {f.n: f for f in ctx.prog.methods("fhevm", "VMKeys")}
        if "new" not in ms:
            return
        v = cell(I, I.call_body(ms["new"], ctx.byname(ms["new"], ("evk_ram", "bdd_key"), [a, Opaque("bdd")]), {}))

        def holds(k, f, want):
            m = mapping(I, fget(ctx, I.read(v), "VMKeys", "evk_ram"))
            ctx.check("accessors:" + k, m == {1: want} and name_of(I, fget(ctx, I.read(v), "VMKeys", "bdd_key")) == "bdd", where(f),
                      "the container holds %s" % m)
        holds("new", ms["new"], "a")
        if "evk_ram" in ms:
            ctx.check("accessors:evk_ram", mapping(I, I.call_body(ms["evk_ram"], [v], {})) == {1: "a"}, where(ms["evk_ram"]), "another map is returned")
        if "set_evk_ram" in ms:
            I.call_body(ms["set_evk_ram"], ctx.byname(ms["set_evk_ram"], ("self", "evk_ram"), [v, b]), {})
            holds("set_evk_ram", ms["set_evk_ram"], "b")
        if "evk_ram_mut" in ms:
            r = I.call_body(ms["evk_ram_mut"], [v], {})
            I.write(r, c)
            holds("evk_ram_mut", ms["evk_ram_mut"], "c")
    ctx.tryob("accessors", accessors)
    for env, tape, cycles, words in [(e, 4, 7, 2) for e in environments(ctx)] + [({}, 0, 0, 1), ({}, 16, 1, 3), ({}, 33, 1000, 70)]:
        k = "vm:%s:%d:%d:%d" % (envname(env), tape, cycles, words)

        def one():
            I, fn, v, nm = vmrun(ctx, env, tape, cycles, words)
            names = [(e[0], [name_of(I, x) for x in e[1]], e[3]) for e in I.mode["events"]]

            def idx(pred):
                return [i for i, e in enumerate(names) if pred(e)]
            skp = name_of(I, field_of(ctx, v, "EncryptedVM", "sk_prepared"))
            kp = name_of(I, field_of(ctx, v, "EncryptedVM", "key_prepared"))
            prep = idx(lambda e: e[0] == "prepare" and e[1][0] == skp)
            ctx.check(k + ":sk prepared", len(prep) == 1, where(fn), "the decryption key is prepared %d times" % len(prep))
            if len(prep) != 1:
                return
            sk = names[prep[0]][1][2]
            fills = idx(lambda e: e[0].startswith("fill_") and e[1][0] == sk)
            ctx.check(k + ":sk filled", len(fills) == 1 and fills[0] < prep[0], where(fn), "the secret key is not filled exactly once before it is prepared")
            gen = idx(lambda e: e[0] == "VMKeys.encrypt_sk")
            ctx.check(k + ":keys once", len(gen) == 1, where(fn), "evaluation keys are generated %d times" % len(gen))
            if len(gen) != 1:
                return
            a = byargs(ctx, "VMKeys", "encrypt_sk", I.mode["events"][gen[0]][1])
            ctx.check(k + ":same secret", name_of(I, a["sk_glwe"]) == sk, where(fn), "evaluation keys are generated under %s, data is encrypted under %s"
                      % (name_of(I, a["sk_glwe"]), sk))
            lwe = name_of(I, a["sk_lwe"])
            fl = idx(lambda e: e[0].startswith("fill_") and e[1][0] == lwe)
            ctx.check(k + ":lwe filled", len(fl) == 1 and fl[0] < gen[0] and lwe != sk, where(fn), "the LWE secret is not filled exactly once before use")
            ctx.check(k + ":filled before keys", bool(fills) and fills[0] < gen[0], where(fn), "evaluation keys are generated before the secret key is filled")
            pk = idx(lambda e: e[0] == "VMKeysPrepared.prepare" and e[1][0] == kp)
            ctx.check(k + ":keys prepared", len(pk) == 1 and pk[0] > gen[0] and "VMKeys.encrypt_sk#%d" % (gen[0] + 1) in names[pk[0]][1], where(fn),
                      "the machine's evaluation keys are not prepared from the generated ones")
            for what in ("instructions_encrypt_sk", "ram_encrypt_sk"):
                i = idx(lambda e: e[0] == "Interpreter." + what)
                d = [byargs(ctx, "Interpreter", what, I.mode["events"][j][1]) for j in i]
                ctx.check("%s:%s" % (k, what), len(i) == 1 and name_of(I, d[0]["sk_prepared"]) == skp and i[0] > prep[0]
                          and name_of(I, d[0]["self"]) == name_of(I, field_of(ctx, v, "EncryptedVM", "interpreter")), where(fn),
                          "%s: not exactly once, into the returned machine, under its own prepared secret key" % what)
        ctx.tryob(k, one)


def vmrun(ctx, env=(), tape=4, cycles=7, words=2):
    I = world(ctx, env)
    ph = phantom(ctx, NOPS * words, symbytes("r", 64, 0), R0, (R0 + 4, tape), (R0 + 20, 12))
    fn, v = start_vm(ctx, I, ph, symbytes("i", tape, 50000), cycles)
    if I.pc != 1:
        raise Unsupported("construction panics: %s" % (I.panics[:1],))
    return I, fn, v, None


# ------------------------------------------------------------------------------------------------ P23
def p23(ctx):
    ctx.rule = ("value-origin analysis: the abstract interpretation of encrypted_vm follows every seed to its origin; each bit of each "
                "seed must come from the operating system's entropy source, all bits of all seeds must be different entropy bits; "
                "secret keys, masks and noise must use different streams, in their own roles, at every encryption; no other generator "
                "is created in library code")
    ctx.trusted = ["poulpy's Source expands its seed pseudo-randomly", "/dev/urandom is an entropy source"]
    for env, tape, cycles, words in [(e, 4, 7, 2) for e in environments(ctx)] + [({}, 0, 0, 1), ({}, 16, 1, 3), ({}, 33, 1000, 70), ({}, -1, 7, 2)]:
        k = "vm:%s:%d:%d:%d" % (envname(env), tape, cycles, words) if tape >= 0 else "vm:two machines"

        def one():
            if tape < 0:
                # two machines of one process
                I, fn, v, _ = vmrun(ctx, env, 4, cycles, words)
                del I.mode["events"][:]
                start_vm(ctx, I, phantom(ctx, NOPS * 2, symbytes("r", 64, 0), R0, (R0 + 4, 4), (R0 + 20, 12)), symbytes("i", 4, 50000), cycles)
            else:
                I, fn, v, _ = vmrun(ctx, env, tape, cycles, words)
            src = I.mode["sources"]
            ctx.check(k + ":some", len(src) > 0, where(fn), "no generator is created")
            seen = {}
            for s, f, loc in src:
                kk = "%s:%s" % (k, s.name)
                wh = "%s:%s in %s" % (fn.file, loc, f)
                bits = [x for b in s.seed for x in B.bits(b, 8)]
                sup = {B.VARNAME.get(l, "?") for l in B.support(bits)}
                const = sum(1 for b in bits if b in (0, 1))
                ctx.check(kk + ":constant", const == 0, wh, "%d of %d bits of the seed of %s are constants" % (const, len(bits), s.name))
                other = sorted(x for x in sup if not x.startswith("entropy"))
                ctx.check(kk + ":origin", not other, wh, "the seed of %s depends on %s, which is not entropy" % (s.name, other[:3]))
                ctx.check(kk + ":width", const or len(sup) >= len(bits) and len({min(b, B.not_(b)) for b in bits}) == len(bits), wh,
                          "the seed of %s holds %d entropy bits in %d" % (s.name, len(sup), len(bits)))
                # streams of the same run do not share entropy
                for o, osup in seen.items():
                    ctx.check("%s:apart from %s" % (kk, o), not (sup & osup), wh, "%s and %s share their seed" % (s.name, o))
                seen[s.name] = sup
            same = {s.name for s, _, _ in src}
            role = {"secret": set(), "mask": set(), "noise": set()}
            n = 0
            for e in I.mode["events"]:
                nm = [name_of(I, x) for x in e[1]]
                used = [x for x in nm if x in same]
                if e[0].startswith("fill_"):
                    ctx.check("%s:%s:%s source" % (k, nm[0], e[0]), len(used) == 1, where(fn), "%s does not draw from a generator" % e[0])
                    role["secret"] |= set(used)
                elif used or "encrypt_sk" in e[0]:
                    n += 1
                    ctx.check("%s:%s:two streams" % (k, e[0]), len(used) == 2 and used[0] != used[1], where(fn),
                              "%s gets the streams %s for masks and noise" % (e[0], used))
                    if e[0].split(".")[0] in RECORD:
                        d = byargs(ctx, *e[0].split("."), e[1])
                        if "source_xa" in d and "source_xe" in d:
                            used = [name_of(I, d["source_xa"]), name_of(I, d["source_xe"])]
                    role["mask"] |= set(used[:1])
                    role["noise"] |= set(used[1:2])
            ctx.check(k + ":encryptions", n >= 3, where(fn), "program, RAM and evaluation keys are not all encrypted")
            for a, b in (("secret", "mask"), ("secret", "noise"), ("mask", "noise")):
                ctx.check("%s:%s and %s" % (k, a, b), not (role[a] & role[b]), where(fn), "%s and %s use the same stream %s" % (a, b, sorted(role[a] & role[b])))
        ctx.tryob(k, one)
    # every encryption inside the library passes the two streams on in their roles
    import checks_cycle as CC

    def inside(k, what):
        m = CC.Machine(ctx, n=8, rom=3, ram=4)
        I = m.I
        I.models = VMM
        I.mode["srclog"] = []
        fn = ctx.method("fhevm", "Interpreter", what)
        if what == "ram_encrypt_sk":
            I.call_body(fn, ctx.byname(fn, ("self", "module", "data", "sk_prepared", "source_xa", "source_xe", "scratch"),
                                       [m.r, MODULE, slice_of(I, [1, 2, 3, 4]), SK, XA, XE, SCRATCH]), {})
        else:
            p = parser_of(ctx, I, [0x00C58533, 0xFEA42E23, 0x00B51463])
            I.call_body(fn, ctx.byname(fn, ("self", "module", "instructions", "sk_prepared", "source_xa", "source_xe", "scratch"),
                                       [m.r, MODULE, p, SK, XA, XE, SCRATCH]), {})
        l = I.mode["srclog"]
        ctx.check(k + ":some", bool(l) and I.pc == 1, where(fn), "nothing is encrypted")
        bad = [x for x in l if x[:3] != ("sk", "xa", "xe")]
        ctx.check(k, not bad, where(fn), "an encryption gets key %s, mask stream %s, noise stream %s (%s)" % (bad[0] if bad else ("",) * 4))
    for what in ("ram_encrypt_sk", "instructions_encrypt_sk"):
        ctx.tryob("inside:" + what, lambda: inside("inside:" + what, what))

    def keys():
        I, params = keyworld(ctx, 16)
        fe = ctx.method("fhevm", "VMKeys", "encrypt_sk")
        I.call_body(fe, ctx.byname(fe, ("params", "sk_lwe", "sk_glwe", "source_xa", "source_xe"),
                                   [cell(I, params), Opaque("sk_lwe"), Opaque("sk_glwe"), Opaque("xa"), Opaque("xe")]), {})
        for i, e in enumerate(I.mode["events"]):
            if "encrypt_sk" in e[0] and "tmp_bytes" not in e[0]:
                nm = [name_of(I, x) for x in e[1]]
                ok = "xa" in nm and "xe" in nm and nm.index("xa") < nm.index("xe") and nm.count("xa") == nm.count("xe") == 1
                ctx.check("keys:%d" % i, ok, where(fe), "%s is called with %s" % (e[3], nm))
    ctx.tryob("keys", keys)
    # generators created anywhere else in library code
    sites = 0
    seen = entry_points(ctx)
    for f in ctx.prog.fns.values():
        if f.crate not in ("fhevm", COMP) or any(x in f.file for x in ("/tests", "/benches", "/examples")):
            continue
        if any(c.endswith("source::Source::new") for c in callees(f)):
            sites += 1
            if f.key in seen:
                ctx.ok("site:%s" % f.key)
            else:
                ctx.und("site:%s" % f.key, "a generator is created outside the analysed entry points")
    ctx.counts["generator creation sites"] = sites


def callees(f):
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if "id" in x and "p" in x and "n" in x:
                out.add(normpath(x["p"]))
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    walk(f.blocks)
    return out


def entry_points(ctx):
    I = getattr(ctx, "_I", None)
    if I is not None:
        ctx.done(I)
    return ctx.fns
