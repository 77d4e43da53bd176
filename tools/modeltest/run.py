#!/usr/bin/env python3
"""Compares the standard-library models with the real library: every function of models.rs is evaluated by the interpreter with an
unknown byte (or, where that is refused, for single bytes) and natively for all bytes."""
import os, subprocess, sys, tempfile, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "..", "sa"))
import bdd as B
import dump, stdmodels
from interp import Interp, Unsupported
from prog import Prog


def main():
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(dump.CACHE, exist_ok=True)
        dump.build_driver()
        e = dump.env_for(d)
        src = os.path.join(HERE, "models.rs")
        subprocess.run([os.path.join(dump.CACHE, "driver"), "rustc", "--sysroot", dump.sysroot(), "--crate-name", "models", "--crate-type", "rlib", "--edition",
                        "2021", src, "--emit=metadata", "-o", os.path.join(d, "l.rmeta")], env=e, check=True, cwd=d)
        subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", os.path.join(d, "m")], env=e, check=True, cwd=d)
        out = subprocess.run([os.path.join(d, "m")], stdout=subprocess.PIPE, text=True, check=True).stdout
        p = Prog()
        p.load(os.path.join(d, "models.lib.json"))
    only = sys.argv[1:]
    bad = ref = conc = 0
    for line in out.splitlines():
        name, *vals = line.split()
        vals = [int(v) for v in vals]
        if only and name not in only:
            continue
        l = p.func("models", name)
        fn = l[0] if isinstance(l, list) else l
        B.reset()
        bits = [B.var("x%d" % i, i) for i in range(8)]

        def run(arg):
            I = Interp(p, stdmodels.M)
            v = I.call_body(fn, [arg], {})
            return v, I
        try:
            v, I = run(B.bv(bits))
            if v is None:
                print("panics always", name, [x[1:] for x in I.panics])
                bad += 1
                continue
            got = []
            for x in range(256):
                a = {B.LV[bits[i]]: (x >> i) & 1 for i in range(8)}
                w = v if isinstance(v, int) else sum((1 if B.evalfull(f, a) else 0) << k for k, f in enumerate(B.bits(v, 64)))
                pn = any(B.evalfull(g, a) for g, *_ in I.panics)
                got.append("panic" if pn else w)
            if got != vals:
                k = [i for i in range(256) if got[i] != vals[i]]
                print("DIFFERS", name, len(k), "at", k[0], got[k[0]], "should be", vals[k[0]])
                bad += 1
        except Unsupported as ex:
            why = ex
            try:
                for x in range(0, 256, 5):
                    B.reset()
                    v, I = run(x)
                    if v != vals[x] or any(g for g, *_ in I.panics):
                        print("DIFFERS", name, "at", x, v, "should be", vals[x], [w for _, w, *_ in I.panics])
                        bad += 1
                        break
                else:
                    print("concrete only", name, "(%s)" % why)
                    conc += 1
            except Unsupported as ex:
                print("refused", name, ex)
                ref += 1
        except Exception as ex:
            import traceback
            print("ERROR", name, repr(ex))
            if only:
                traceback.print_exc()
            bad += 1
    print("differs %d, refused %d, only with a known byte %d, of %d" % (bad, ref, conc, len(out.splitlines())))


sys.setrecursionlimit(100000)
threading.stack_size(256 << 20)
t = threading.Thread(target=main)
t.start()
t.join()
