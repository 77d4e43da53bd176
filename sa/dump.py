"""Builds the driver and dumps the MIR of /repo's current working tree (cached by content)."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PHANTOM_REPO", "/repo")
CACHE = os.environ.get("PHANTOM_SA_CACHE", os.path.join(VERIF, ".cache"))


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip().splitlines()[-1]


def sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".x")):
                out.append(os.path.join(root, f))
    return out


def content_key():
    h = hashlib.sha256()
    for p in sources() + [os.path.join(VERIF, "driver", "main.rs")]:
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def env_for(dump):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTFLAGS"] = "-C target-feature=+avx2,+fma"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "target")
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTC_WRAPPER"] = ""
    e["RUSTC_WORKSPACE_WRAPPER"] = os.path.join(CACHE, "driver")
    e["PHANTOM_SA_DUMP"] = dump
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib:" + e.get("LD_LIBRARY_PATH", "")
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTC", None)
    return e


def build_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(CACHE, "driver")
    stamp = out + ".sum"
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTFLAGS", None)
    r = sh(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", out], env=e)
    if r.returncode:
        sys.stderr.write(r.stdout)
        raise BuildError("driver does not build")
    open(stamp, "w").write(key)


WANT = ["fhevm.lib.json", "compiler.lib.json"]


def dump():
    """path of the directory with the dumps of the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = content_key()
        d = os.path.join(CACHE, "dump-" + key)
        if os.path.exists(os.path.join(d, "ok")):
            os.utime(d)
            return d
        build_driver()
        tmp = d + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for attempt in (0, 1):
            for p in glob.glob(os.path.join(CACHE, "target", "debug", ".fingerprint", "fhevm-*")) + \
                    glob.glob(os.path.join(CACHE, "target", "debug", ".fingerprint", "compiler-*")):
                shutil.rmtree(p, ignore_errors=True)
            r = sh(["cargo", "+nightly", "check", "--offline", "--workspace", "--lib"], cwd=REPO, env=env_for(tmp))
            if r.returncode == 0 and all(os.path.exists(os.path.join(tmp, w)) for w in WANT):
                break
            if attempt == 0:
                shutil.rmtree(os.path.join(CACHE, "target"), ignore_errors=True)
        else:
            sys.stderr.write(r.stdout[-4000:])
            raise BuildError("cannot dump the MIR of the current tree")
        open(os.path.join(tmp, "ok"), "w").write(time.ctime())
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        old = sorted((p for p in glob.glob(os.path.join(CACHE, "dump-*"))), key=os.path.getmtime)[:-4]
        for p in old:
            shutil.rmtree(p, ignore_errors=True)
        return d


def runtime():
    """dump of the guest runtime crate, compiled on its own for its real target (riscv32i) against a core library
    type-checked from rust-src; path of the dump, or None when it cannot be built"""
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(REPO, "runtime", "src", "lib.rs")
    target = "riscv32i-unknown-none-elf"
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(CACHE, "rt-" + content_key())
        res = os.path.join(out, "runtime.lib.json")
        if os.path.exists(res):
            return res
        build_driver()
        sr = sysroot()
        e = env_for(out)
        core = os.path.join(CACHE, "rv32")
        if not os.path.exists(os.path.join(core, "ok")):
            shutil.rmtree(core, ignore_errors=True)
            os.makedirs(core)
            lib = os.path.join(sr, "lib", "rustlib", "src", "rust", "library", "core", "src", "lib.rs")
            open(os.path.join(core, "cb.rs"), "w").write("#![feature(compiler_builtins)]\n#![compiler_builtins]\n#![no_std]\n")
            base = ["rustc", "+nightly", "--crate-type", "rlib", "--target", target, "-Zforce-unstable-if-unmarked", "--emit=metadata", "--cap-lints", "allow"]
            for cmd in (base + ["--crate-name", "core", "--edition", "2024", lib, "-o", os.path.join(core, "libcore.rmeta")],
                        base + ["--crate-name", "compiler_builtins", "--edition", "2021", os.path.join(core, "cb.rs"), "-o",
                                os.path.join(core, "libcompiler_builtins.rmeta"), "--extern", "core=" + os.path.join(core, "libcore.rmeta"), "-L", core]):
                r = sh(cmd, env=e)
                if r.returncode:
                    sys.stderr.write(r.stdout[-3000:])
                    raise BuildError("cannot type-check core for " + target)
            open(os.path.join(core, "ok"), "w").write("ok")
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e["PHANTOM_SA_DUMP"] = tmp
        r = sh([os.path.join(CACHE, "driver"), "rustc", "--sysroot", sr, "--crate-name", "runtime", "--crate-type", "rlib", "--edition", "2021", src,
                "--target", target, "--extern", "core=" + os.path.join(core, "libcore.rmeta"), "-L", core, "--emit=metadata", "-C", "overflow-checks=off",
                "-C", "debug-assertions=off", "-o", os.path.join(tmp, "libruntime.rmeta")], env=e, cwd=REPO)
        if r.returncode or not os.path.exists(os.path.join(tmp, "runtime.lib.json")):
            sys.stderr.write(r.stdout[-3000:])
            raise BuildError("the guest runtime does not build")
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        for p in sorted(glob.glob(os.path.join(CACHE, "rt-*")), key=os.path.getmtime)[:-4]:
            shutil.rmtree(p, ignore_errors=True)
        return res


if __name__ == "__main__":
    t = time.time()
    print(dump(), round(time.time() - t, 1))
    try:
        print(runtime(), round(time.time() - t, 1))
    except BuildError as e:
        print(e)
