"""P30: the layouts of ciphertexts, keys and secrets fit together"""
from interp import Agg, Ref, Unsupported, Union, UNIT, Call
from core import where
import bdd as B
import poulpy as PP
from poulpy import Opaque, MODULE
import checks_vm as CV
from checks_vm import world, phantom, symbytes, start_vm, NOPS, R0, VMM, environments, envname, name_of, RECORD, field_of

U32 = (1 << 32) - 1
NEW = ("Base2K", "Degree", "Dnum", "Rank", "Dsize", "TorusPrecision")


def num(I, v):
    while isinstance(v, Ref):
        v = I.read(v)
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if not isinstance(v, int):
        raise Unsupported("layout component %r" % (v,))
    return v


def newtypes(ctx):
    """foreign methods of the layout component types, on their u32"""
    M = {}
    for t in NEW:
        p = "poulpy_core::layouts::" + t
        M[p + "::div_ceil"] = lambda I, c: -(-num(I, c.args[0]) // num(I, c.args[1])) if num(I, c.args[1]) else I.panic(1, "division by zero")
        M[p + "::as_u32"] = M[p + "::as_usize"] = lambda I, c: num(I, c.args[0])
        M[p + "::log2"] = lambda I, c: (num(I, c.args[0]) - 1).bit_length()
    return M


def isnew(t):
    while t is not None and getattr(t, "k", "") == "ref":
        t = t.t
    return t if t is not None and getattr(t, "k", "") == "adt" and t.p.startswith("poulpy_core::layouts") and t.p.split("::")[-1] in NEW else None


def wrap(t, x):
    return Agg("adt", [x & U32], t.id, 0)


def conversions(M):
    """From/Into and saturating operators of the layout component types"""
    M = dict(M)
    into, frm = M["std::convert::Into::into"], M["std::convert::From::from"]

    def conv(I, c, src, dst, old):
        d = isnew(dst)
        if d is not None and not isnew(src):
            return wrap(d, num(I, c.args[0]))
        if isnew(src) is not None and getattr(dst, "k", "") == "int":
            return num(I, c.args[0])
        return old(I, c)
    M["std::convert::Into::into"] = lambda I, c: conv(I, c, c.env.get("Self"), c.env.get("T"), into)
    M["std::convert::From::from"] = lambda I, c: conv(I, c, c.env.get("T"), c.env.get("Self"), frm)
    for op, f in (("Add::add", lambda a, b: min(U32, a + b)), ("Sub::sub", lambda a, b: max(0, a - b)), ("Mul::mul", lambda a, b: min(U32, a * b))):
        def mk(old, f):
            def g(I, c):
                t = isnew(c.env.get("Self")) or isnew(c.env.get("Rhs"))
                return wrap(t, f(num(I, c.args[0]), num(I, c.args[1]))) if t is not None else old(I, c)
            return g
        M["std::ops::" + op] = mk(M["std::ops::" + op], f)
    for nm, f in (("std::cmp::Ord::max", max), ("std::cmp::Ord::min", min)):
        if nm in M:
            def mk2(old, f):
                return lambda I, c: wrap(isnew(c.env.get("Self")), f(num(I, c.args[0]), num(I, c.args[1]))) if isnew(c.env.get("Self")) else old(I, c)
            M[nm] = mk2(M[nm], f)
    return M


def layout(ctx, I, v):
    """{component: number or nested layout} of a layout value"""
    while isinstance(v, Ref):
        v = I.read(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Opaque):
        raise Unsupported("layout %s" % v.name)
    if not isinstance(v, Agg):
        raise Unsupported("layout %r" % (v,))
    a = ctx.prog.adts.get(v.id)
    if a and a["k"] == "enum":
        return layout(ctx, I, v.f[0]) if v.f else None
    if a and len(a["v"]) == 1 and len(v.f) == len(a["v"][0][2]):
        names = [x[0] for x in a["v"][0][2]]
        if names == ["0"]:
            return layout(ctx, I, v.f[0])
        return {n: layout(ctx, I, x) for n, x in zip(names, v.f)}
    raise Unsupported("layout %r" % (v,))


def realparams(ctx, I):
    """interpret the parameter object for real, with the ring degree of the analysis"""
    for f in ctx.prog.methods("fhevm", "CryptographicParameters"):
        I.overrides.pop(f.key, None)
    m = conversions(I.models)
    m.update(newtypes(ctx))
    for k in list(m):
        if k.startswith("poulpy") and (k.endswith("::alloc_from_infos") or k.endswith("::alloc")):
            del m[k]
    I.models = m
    return I.call_body(ctx.method("fhevm", "CryptographicParameters", "new"), [], {})


def parworld(ctx, env=()):
    """encrypted_vm with the real parameters, key allocation and machine construction"""
    I = world(ctx, env)
    for f in ctx.prog.methods("fhevm", "CryptographicParameters"):
        I.overrides.pop(f.key, None)
    for ty, fs in (("VMKeys", ("encrypt_sk",)), ("VMKeysPrepared", ("alloc", "prepare")), ("Interpreter", ("new", "new_with_debug"))):
        for f in fs:
            I.overrides.pop(ctx.method("fhevm", ty, f).key)
    m = conversions(I.models)
    m.update(newtypes(ctx))

    def module_new(I, c):
        I.mode["n"] = num(I, c.args[0])
        return MODULE
    m["poulpy_hal::api::ModuleNew::new"] = module_new
    for k in list(m):
        if k.endswith("::alloc_from_infos") or k.endswith("::alloc") and k.startswith("poulpy"):
            del m[k]
    I.models = m
    return I


class Site:
    """one allocation: what, at which call, with which layout"""

    def __init__(self, obj, what, lay, e):
        self.obj, self.what, self.lay, self.e = obj, what, lay, e


def sites(ctx, I):
    out, sec = [], {}
    for i, e in enumerate(I.mode["events"]):
        if e[0] not in ("alloc", "alloc_from_infos") or not e[3].startswith("poulpy") or "Scratch" in e[3]:
            continue
        what = e[3].split("::")[-2].rstrip(">").split("<")[0]
        obj = "%s#%d" % (e[0], i + 1)
        args = [x for x in e[1] if x is not MODULE and not (isinstance(x, Opaque) and x.name == "module")]
        if "Secret" in what:
            sec[obj] = (what, [num(I, x) for x in args], e)
            continue
        ls = []
        for x in args:
            if isinstance(x, Agg) and x.id and "Layout" in str(x.id):
                ls.append(layout(ctx, I, x))
        if len(ls) != 1:
            raise Unsupported("layout of %s" % e[3])
        out.append(Site(obj, what, ls[0], e))
    return out, sec


def p30(ctx):
    ctx.rule = ("abstract interpretation of encrypted_vm with the parameter object, key allocation, key preparation and machine "
                "construction interpreted for real: the layout handed to every allocation is a value, and the values must satisfy the "
                "relations the combining operations need (ring degree, rank, gadget precision, dimension of the LWE secret)")
    ctx.trusted = ["the relations listed in sa/checks_par.py are the ones poulpy's operations need"]
    ctx.assumptions = ["noise is not bounded here (P27)"]
    sizes = ((2, 64), (1, 8), (40, 256)) if ctx.tier == "quick" else ((2, 64), (1, 8), (40, 256), (1025, 4096), (2049, 16384))
    fn = ctx.method("compiler", "Phantom", "encrypted_vm")
    for env in environments(ctx):
        for words, ram in sizes:
            k = "%s:%d:%d" % (envname(env), words, ram)

            def one():
                I = parworld(ctx, env)
                ph = phantom(ctx, NOPS * words, symbytes("r", ram, 0), R0, (R0 + 4, 4), (R0 + 4, 4))
                _, v = start_vm(ctx, I, ph, symbytes("i", 4, 50000), 7)
                if I.pc != 1:
                    ctx.bad(k, where(fn), "construction panics: %s" % (I.panics[:1],))
                    return
                relations(ctx, k, I)
            ctx.tryob(k, one)


def relations(ctx, k, I):
    ss, sec = sites(ctx, I)
    n = I.mode["n"]
    loc = where(ctx.method("fhevm", "CryptographicParameters", "new"))
    cts = [s for s in ss if s.what in ("GLWE", "FheUint", "GLWEBlindRetriever")]
    preps = [s for s in ss if s.what == "FheUintPrepared"]
    evk = [s for s in ss if s.what in ("GLWEAutomorphismKey", "GLWEAutomorphismKeyPrepared")]
    bdd = [s for s in ss if s.what in ("BDDKey", "BDDKeyPrepared")]
    glwe = [s for s in sec.values() if s[0] == "GLWESecret"]
    lwe = [s for s in sec.values() if s[0] == "LWESecret"]
    psec = [s for s in sec.values() if s[0] == "GLWESecretPrepared"]
    if len(glwe) != 1 or len(lwe) != 1 or not cts or not preps or not evk or not bdd or not psec:
        raise Unsupported("allocations of the machine not recognised")
    ctx.check(k + ":degree", n >= 2 and n & (n - 1) == 0, loc, "ring degree %d" % n)
    sn, rank = glwe[0][1]
    ctx.check(k + ":secret degree", sn == n, loc, "the secret key has degree %d, the ring %d" % (sn, n))
    ctx.check(k + ":prepared secret rank", all(s[1][-1] == rank for s in psec), loc, "the prepared secret key has another rank than the secret key")
    nlwe = lwe[0][1][0]
    kmax = 0

    def at(s):
        return "%s, layout %s" % (s.e[3], s.lay)

    b2 = {s.lay["base2k"] for s in cts}
    ctx.check(k + ":radix", len(b2) == 1, loc, "ciphertexts of one machine in radices %s" % sorted(b2))
    for i, s in enumerate(cts):
        ctx.check("%s:ciphertext:%d" % (k, i), s.lay["n"] == n and s.lay["rank"] == rank, loc, "degree or rank differs from the secret key's (%d, %d): %s" % (n, rank, at(s)))
        ctx.check("%s:ciphertext:%d:precision" % (k, i), s.lay["k"] > s.lay["base2k"] > 0, loc, "no room for noise below the first digit: %s" % at(s))
        kmax = max(kmax, s.lay["k"])

    def gadget(key, l, need, s, room=True):
        ds = l.get("dsize", 1)
        cov = l["dnum"] * ds * l["base2k"]
        ctx.check(key + ":coverage", cov >= need, loc, "the gadget covers %d bits of %d: %s" % (cov, need, at(s)))
        ctx.check(key + ":room", l["k"] > cov if room else l["k"] >= cov, loc, "the gadget covers %d of the key's %d bits: %s" % (cov, l["k"], at(s)))

    for i, s in enumerate(preps):
        kk = "%s:prepared:%d" % (k, i)
        ctx.check(kk, s.lay["n"] == n and s.lay["rank"] == rank, loc, "degree or rank differs from the secret key's (%d, %d): %s" % (n, rank, at(s)))
        gadget(kk, s.lay, kmax, s)
    kprep = max(s.lay["k"] for s in preps)
    for i, s in enumerate(evk):
        kk = "%s:automorphism:%d" % (k, i)
        ctx.check(kk, s.lay["n"] == n and s.lay["rank_in"] == s.lay["rank_out"] == rank, loc,
                  "degree or rank differs from the secret key's (%d, %d): %s" % (n, rank, at(s)))
        gadget(kk, s.lay, kmax, s)
    for i, s in enumerate(bdd):
        kk = "%s:bootstrapping:%d" % (k, i)
        c = s.lay["cbt"]
        brk, atk, tsk, ksg, ksl = c["layout_brk"], c["layout_atk"], c["layout_tsk"], s.lay["ks_glwe"], s.lay["ks_lwe"]
        ctx.check(kk + ":dimension", brk["n_lwe"] == nlwe, loc, "blind rotation for dimension %d, LWE secret of dimension %d" % (brk["n_lwe"], nlwe))
        for nm, l in (("blind rotation", dict(brk, n=brk["n_glwe"])), ("automorphism", atk), ("tensor", tsk)):
            ctx.check("%s:%s" % (kk, nm), l["n"] == n and l["rank"] == rank, loc, "%s key of another degree or rank: %s" % (nm, l))
            gadget("%s:%s" % (kk, nm), l, kprep, s)
        low = (2 * n).bit_length() - 1
        mid = rank
        if ksg is not None:
            ctx.check(kk + ":key switch", ksg["n"] == n and ksg["rank_in"] == rank, loc, "first key switch from rank %s" % ksg["rank_in"])
            gadget(kk + ":key switch", ksg, low, s, False)
            mid = ksg["rank_out"]
        ctx.check(kk + ":extraction", ksl["n"] == n and ksl["rank_in"] == mid, loc, "key switch to LWE from rank %s, ciphertexts there have rank %s" % (ksl["rank_in"], mid))
        gadget(kk + ":extraction", ksl, low, s, False)
    by = {s.obj: s for s in ss}
    m = 0
    for e in I.mode["events"]:
        if e[0] == "prepare" and e[3].startswith("poulpy"):
            a, b = name_of(I, e[1][0]), name_of(I, e[1][2])
            if a in by and b in by:
                m += 1
                ctx.check("%s:pair:%d" % (k, m), by[a].lay == by[b].lay, loc, "prepared as %s, generated as %s" % (by[a].lay, by[b].lay))
        if e[0].startswith("fill_binary_block"):
            bs = [num(I, x) for x in e[1][1:2]][0]
            ctx.check(k + ":block", bs > 0 and nlwe % bs == 0, loc, "block size %d does not divide the LWE dimension %d" % (bs, nlwe))
    if not m:
        raise Unsupported("no key is prepared")
