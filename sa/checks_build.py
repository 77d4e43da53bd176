"""P31: building a guest program (CompileOpts) — abstract interpretation with concrete strings and symbolic outcomes."""
import os
import bdd as B
import dump as D
from interp import *
from stdmodels import M, some, NONE, ok as okv, err as errv, drain, deep, boolv
from checks_vm import VMM, strof, vmodel
from core import where

BM = dict(VMM)


def bm(*names):
    def deco(f):
        for n in names:
            BM[n] = f
            if n.startswith("std::"):
                BM["core::" + n[5:]] = f
                BM["alloc::" + n[5:]] = f
        return f
    return deco


def text(I, v):
    v = deep(I, v)
    if isinstance(v, Agg) and v.id == "FmtArg":
        v = deep(I, v.f[0])
    if isinstance(v, StrV):
        return v.s if isinstance(v.s, str) else v.s.decode("latin1")
    if type(v) is int:
        return str(v)
    raise Unsupported("text of %r" % (v,))


def strs(I, v):
    v = deep(I, v)
    if isinstance(v, Agg) and v.k in ("array", "vec", "tuple"):
        return [text(I, x) for x in v.f]
    return [text(I, x) for x in drain(I, v)]


# ------------------------------------------------------------------ formatting
@bm("core::fmt::rt::Argument::new_display")
def _(I, c):
    return Agg("adt", [c.args[0]], "FmtArg", 0)


@bm("std::fmt::Arguments::from_str")
def _(I, c):
    return StrV(text(I, c.args[0]))


@bm("std::fmt::Arguments::new")
def _(I, c):
    t, a = deep(I, c.args[0]), deep(I, c.args[1])
    if isinstance(t, StrV):
        t = list(t.s.encode("latin1") if isinstance(t.s, str) else t.s)
    elif isinstance(t, Agg):
        t = list(t.f)
    else:
        raise Unsupported("format template %r" % (t,))
    out, i, n = "", 0, 0
    while True:
        b = t[i]
        i += 1
        if b == 0:
            return StrV(out)
        if b < 0x80:
            out += bytes(t[i:i + b]).decode("utf-8")
            i += b
        elif b == 0x80:
            l = t[i] + 256 * t[i + 1]
            out += bytes(t[i + 2:i + 2 + l]).decode("utf-8")
            i += 2 + l
        elif b & 0xC0 == 0xC0 and not b & 0b110111:
            if b & 8:
                n = t[i] + 256 * t[i + 1]
                i += 2
            x = deep(I, a.f[n])
            if not (isinstance(x, Agg) and x.id == "FmtArg"):
                return Top("formatted text")
            try:
                out += text(I, x)
            except Unsupported:
                return Top("formatted text")
            n += 1
        else:
            return Top("formatted text")


@bm("std::fmt::format", "std::string::ToString::to_string", "std::path::Path::to_path_buf", "std::path::Path::new", "std::path::PathBuf::from",
    "std::string::String::as_str", "std::path::PathBuf::as_path", "std::path::Path::as_os_str", "std::ffi::OsString::from", "std::ffi::OsStr::new",
    "std::path::Path::display", "std::path::Path::to_string_lossy", "std::string::String::into_boxed_str", "std::path::Path::to_owned",
    "std::borrow::Cow::into_owned", "std::convert::AsRef::as_ref", "std::path::PathBuf::into_os_string", "std::ffi::OsStr::to_os_string")
def _(I, c):
    v = deep(I, c.args[0])
    return v if isinstance(v, Top) else StrV(text(I, v))


@bm("std::path::Path::to_str", "std::ffi::OsStr::to_str")
def _(I, c):
    return some(StrV(text(I, c.args[0])))


@bm("std::ffi::OsString::into_string")
def _(I, c):
    return okv(StrV(text(I, c.args[0])))


def pjoin(a, b):
    return b if b.startswith("/") else a.rstrip("/") + "/" + b


@bm("std::path::Path::join", "std::path::PathBuf::join")
def _(I, c):
    return StrV(pjoin(text(I, c.args[0]), text(I, c.args[1])))


@bm("std::path::PathBuf::push")
def _(I, c):
    I.write(c.args[0], StrV(pjoin(text(I, c.args[0]), text(I, c.args[1]))))
    return UNIT


@bm("std::string::String::push_str", "std::ops::AddAssign::add_assign")
def _(I, c):
    I.write(c.args[0], StrV(text(I, c.args[0]) + text(I, c.args[1])))
    return UNIT


@bm("std::slice::<impl [T]>::join", "std::slice::<impl [T]>::concat")
def _(I, c):
    return StrV((text(I, c.args[1]) if len(c.args) > 1 else "").join(strs(I, c.args[0])))


@bm("std::iter::FromIterator::from_iter")
def _(I, c):
    raise Unsupported("collect into text")


@bm("std::path::Path::exists", "std::path::Path::is_file")
def _(I, c):
    text(I, c.args[0])
    return boolv(outcome(I, "exists"))


@bm("std::fs::canonicalize", "std::path::Path::canonicalize")
def _(I, c):
    # of files of the repository only
    p = os.path.normpath(text(I, c.args[0]))
    return okv(StrV(p)) if os.path.exists(p) else errv(Top("no such file"))


# ------------------------------------------------------------------ the command
@bm("std::process::Command::new")
def _(I, c):
    return Agg("adt", [StrV(text(I, c.args[0])), Agg("vec", []), Agg("vec", []), StrV("")], "Command", 0)


def edit(I, r, i, f):
    while isinstance(I.read(r), Ref):
        r = I.read(r)
    v = I.read(r)
    l = list(v.f)
    l[i] = f(l[i])
    I.write(r, Agg("adt", l, "Command", 0))
    return r


@bm("std::process::Command::arg")
def _(I, c):
    s = StrV(text(I, c.args[1]))
    return edit(I, c.args[0], 1, lambda v: Agg("vec", list(v.f) + [s]))


@bm("std::process::Command::args")
def _(I, c):
    s = [StrV(x) for x in strs(I, c.args[1])]
    return edit(I, c.args[0], 1, lambda v: Agg("vec", list(v.f) + s))


@bm("std::process::Command::env")
def _(I, c):
    s = Agg("tuple", [StrV(text(I, c.args[1])), StrV(text(I, c.args[2]))])
    return edit(I, c.args[0], 2, lambda v: Agg("vec", list(v.f) + [s]))


@bm("std::process::Command::envs")
def _(I, c):
    v = deep(I, c.args[1])
    l = v.f if isinstance(v, Agg) and v.k in ("array", "vec") else drain(I, v)
    s = []
    for x in l:
        x = deep(I, x)
        s.append(Agg("tuple", [StrV(text(I, x.f[0])), StrV(text(I, x.f[1]))]))
    return edit(I, c.args[0], 2, lambda v: Agg("vec", list(v.f) + s))


@bm("std::process::Command::env_remove")
def _(I, c):
    s = Agg("tuple", [StrV(text(I, c.args[1])), NONE])
    return edit(I, c.args[0], 2, lambda v: Agg("vec", list(v.f) + [s]))


@bm("std::process::Command::current_dir")
def _(I, c):
    s = StrV(text(I, c.args[1]))
    return edit(I, c.args[0], 3, lambda v: s)


@bm("std::process::Command::stdout", "std::process::Command::stderr", "std::process::Command::stdin")
def _(I, c):
    return c.args[0]


@bm("std::process::Stdio::inherit", "std::process::Stdio::piped", "std::process::Stdio::null")
def _(I, c):
    return Top("stdio")


def outcome(I, name):
    n = len(I.mode["outcomes"])
    v = B.var("%s%d" % (name, n), n)
    I.mode["outcomes"].append((name, v))
    return v


def started(I, c):
    cmd = deep(I, c.args[0])
    s = outcome(I, "start")
    o = outcome(I, "success")
    I.mode["log"].append(("run", cmd, I.pc, o))
    return s, Agg("adt", [o], "ExitStatus", 0)


@bm("std::process::Command::output")
def _(I, c):
    s, st = started(I, c)
    names = [f[0] for f in adtfields(I)]
    out = Agg("adt", [st if n == "status" else Top(n) for n in names], OUTPUT(I), 0)
    return merge(s, okv(out), errv(Top("io error")))


@bm("std::process::Command::status")
def _(I, c):
    s, st = started(I, c)
    return merge(s, okv(st), errv(Top("io error")))


def OUTPUT(I):
    for k, a in I.prog.adts.items():
        if a["p"].endswith("process::Output"):
            return k
    raise Unsupported("no type Output")


def adtfields(I):
    return I.prog.adts[OUTPUT(I)]["v"][0][2]


@bm("std::process::ExitStatus::success")
def _(I, c):
    return boolv(deep(I, c.args[0]).f[0])


@bm("std::process::ExitStatus::code")
def _(I, c):
    o = deep(I, c.args[0]).f[0]
    # a failed process has a non-zero code or was ended by a signal
    return merge(o, some(0), merge(outcome(I, "signal"), NONE, some(101)))


@bm("std::process::ExitStatus::exit_ok")
def _(I, c):
    return merge(deep(I, c.args[0]).f[0], okv(UNIT), errv(Top("exit status")))


@bm("std::io::Write::write_all", "std::io::Write::write")
def _(I, c):
    return okv(UNIT)


@bm("std::fs::read")
def _(I, c):
    p = text(I, c.args[0])
    g = outcome(I, "read")
    I.mode["log"].append(("read", p, I.pc, g))
    return merge(g, okv(Agg("adt", [], "FileBytes:%d" % (len(I.mode["log"]) - 1), 0)), errv(Top("io error")))


@bm("std::fs::File::open")
def _(I, c):
    return merge(outcome(I, "open"), okv(Agg("adt", [StrV(text(I, c.args[0]))], "Handle", 0)), errv(Top("io error")))


@bm("std::io::Read::read_to_end")
def _(I, c):
    h = deep(I, c.args[0])
    if not (isinstance(h, Agg) and h.id == "Handle"):
        raise Unsupported("reader %r" % (h,))
    r = c.args[1]
    while isinstance(I.read(r), Ref):
        r = I.read(r)
    v = I.read(r)
    if not (isinstance(v, Agg) and v.k == "vec" and not v.f):
        raise Unsupported("reading behind %r" % (v,))
    g = outcome(I, "read")
    I.mode["log"].append(("read", h.f[0].s, I.pc, g))
    I.write(r, Agg("adt", [], "FileBytes:%d" % (len(I.mode["log"]) - 1), 0))
    return merge(g, okv(Top("length")), errv(Top("io error")))


@bm("std::string::String::from_utf8_lossy", "std::string::String::from_utf8_unchecked")
def _(I, c):
    return Top("text")


VALUED = {"--profile", "--target", "--package", "-p", "--bin", "--target-dir", "--manifest-path", "--jobs", "-j", "--features", "--color", "--message-format", "--config", "-Z"}


def options(args):
    """cargo's command line: (subcommand, {option: value})"""
    out, i, sub = {}, 0, None
    while i < len(args):
        a = args[i]
        i += 1
        if a.startswith("-") and "=" in a and a.split("=")[0] in VALUED:
            k, v = a.split("=", 1)
        elif a in VALUED:
            if i >= len(args):
                raise Unsupported("option %s without value" % a)
            k, v = a, args[i]
            i += 1
        elif a.startswith("-"):
            k, v = a, True
        elif sub is None:
            sub = a
            continue
        else:
            raise Unsupported("argument " + a)
        k = {"-p": "--package", "-r": "--release"}.get(k, k)
        out[k] = v
    return sub, out


PROGRAMS = [("guest", "guest"), ("guest", "again"), ("template", "t1"), ("string-matching", "out/second")]


def p31(ctx):
    ctx.rule = ("abstract interpretation of CompileOpts::new and build with concrete names and symbolic outcomes of starting, finishing and reading: on every "
                "path that returns, the bytes are those of the file that the command it just ran produces for the requested program, and the command "
                "succeeded; the command line compiles that program for the base instruction set with the repository's linker script")
    ctx.trusted = ["cargo's command line and output layout"]
    new = ctx.method("compiler", "CompileOpts", "new")
    build = ctx.method("compiler", "CompileOpts", "build")
    dirs = {}
    for prog, dest in PROGRAMS:
        ctx.tryob("build:%s:%s" % (prog, dest), one, ctx, new, build, prog, dest, dirs)
    for d, l in sorted(dirs.items()):
        ctx.check("apart:" + d, len(l) == 1, where(build), "builds for the destinations %s share the directory %s" % (sorted(l), d))


def one(ctx, new, build, prog, dest, dirs):
    tag = "build:%s:%s" % (prog, dest)
    w = where(build)
    I = ctx.fresh(BM)
    I.mode.update(environ={"CARGO": "cargo"}, outcomes=[], log=[])
    o = I.call_body(new, [StrV(prog)], {})
    r = Ref(I.newcell(o))
    v = I.call_body(build, ctx.byname(build, ("self", "destination_name"), [r, StrV(dest)]), {})
    log = I.mode["log"]
    runs = [x for x in log if x[0] == "run"]
    reads = [(i, x) for i, x in enumerate(log) if x[0] == "read"]
    if not runs:
        ctx.bad(tag + ":runs", w, "the build starts no compilation")
        return
    if I.pc == 0:
        ctx.bad(tag + ":returns", w, "the build never returns, even when everything succeeds")
        return
    everything = 1
    for n, x in I.mode["outcomes"]:
        if n != "signal":
            everything = B.and_(everything, x)
    ctx.check(tag + ":returns", B.and_(everything, B.not_(I.pc)) == 0, w, "the build can stop although the compilation succeeded")
    for i, x in enumerate(runs):
        ctx.check(tag + ":failure%d" % i, B.and_(B.and_(x[2], I.pc), B.not_(x[3])) == 0, w, "bytes are returned although the compilation failed")
    alts = v.alts if isinstance(v, Union) else [(1, v)]
    for k, (g, a) in enumerate(alts):
        if B.and_(g, I.pc) == 0:
            continue
        a = deep(I, a)
        if not (isinstance(a, Agg) and str(a.id).startswith("FileBytes:")):
            raise Unsupported("returned value %r" % (a,))
        at = int(a.id.split(":")[1])
        p = log[at][1]
        before = [x for x in log[:at] if x[0] == "run" and B.and_(B.and_(g, I.pc), B.not_(x[2])) == 0]
        if not before:
            ctx.bad(tag + ":order%d" % k, w, "the returned file %s is read before the compilation ran" % p)
            continue
        ctx.ok(tag + ":order%d" % k, w)
        dirs.setdefault(command(ctx, tag + ":%d" % k, w, I, before[-1][1], p, prog), set()).add(dest)


def command(ctx, tag, w, I, cmd, path, prog):
    args = [x.s for x in cmd.f[1].f]
    env = {}
    for t in cmd.f[2].f:
        env[t.f[0].s] = t.f[1].s if isinstance(t.f[1], StrV) else None
    sub, o = options(args)
    cwd = cmd.f[3].s
    if sub not in ("build", "b"):
        raise Unsupported("cargo " + str(sub))
    prof = o.get("--profile", "release" if "--release" in o else "dev")
    pdir = {"dev": "debug", "test": "debug", "bench": "release"}.get(prof, prof)
    tdir = o.get("--target-dir", env.get("CARGO_TARGET_DIR"))
    if tdir is None:
        raise Unsupported("target directory of the workspace")
    target = o.get("--target", env.get("CARGO_BUILD_TARGET"))
    parts = [tdir] + ([target] if target else []) + [pdir, o.get("--bin", o.get("--package", "?"))]
    want = os.path.normpath("/".join(parts))
    if not tdir.startswith("/"):
        want = os.path.normpath(pjoin(cwd or ".", want))
    ctx.check(tag + ":file", os.path.normpath(path) == want, w, "the build returns %s; the command writes %s" % (path, want))
    ctx.check(tag + ":program", o.get("--bin", prog) == prog and o.get("--package", prog) == prog and ("--bin" in o or "--package" in o), w,
              "program %s is requested; the command builds package %s, binary %s" % (prog, o.get("--package"), o.get("--bin")))
    ctx.check(tag + ":target", target is not None and target.startswith("riscv32i-"), w, "guest programs are compiled for %s" % target)
    fl = None
    if env.get("CARGO_ENCODED_RUSTFLAGS") is not None:
        fl = env["CARGO_ENCODED_RUSTFLAGS"].split("\x1f")
    elif env.get("RUSTFLAGS") is not None:
        fl = env["RUSTFLAGS"].split()
    elif env.get("CARGO_TARGET_RISCV32I_UNKNOWN_NONE_ELF_RUSTFLAGS") is not None:
        fl = env["CARGO_TARGET_RISCV32I_UNKNOWN_NONE_ELF_RUSTFLAGS"].split()
    if fl is None:
        if "--config" in o:
            raise Unsupported("flags by --config")
        ctx.bad(tag + ":script", w, "no linker script is handed to the compiler")
        return tdir
    cs, i = [], 0
    while i < len(fl):
        if fl[i] in ("-C", "--codegen"):
            cs.append(fl[i + 1] if i + 1 < len(fl) else "")
            i += 2
        else:
            cs.append(fl[i][2:] if fl[i].startswith("-C") else fl[i])
            i += 1
    scripts = [x.split("=", 1)[1][2:] for x in cs if x.startswith("link-arg=-T")]
    root = os.path.realpath(D.REPO)
    ctx.check(tag + ":script", len(scripts) == 1 and os.path.isfile(scripts[0]) and os.path.realpath(scripts[0]).startswith(root + "/"), w,
              "the linker scripts handed over are %s" % scripts)
    ctx.check(tag + ":panic", [x for x in cs if x.startswith("panic=")][-1:] == ["panic=abort"], w, "the guest is not compiled with panic=abort: %s" % cs)
    feat = [x for x in cs if x.startswith("target-feature=")]
    ctx.check(tag + ":features", not any(("+" + e) in x.split("=", 1)[1].split(",") for x in feat for e in ("m", "a", "c", "f", "d", "zmmul", "zicsr", "zba", "zbb", "zbs")),
              w, "extensions the encrypted machine does not execute are enabled: %s" % feat)
    return tdir
