"""Loading of the MIR dump: types, functions, impls."""
import json, os


class Ty:
    __slots__ = ("k", "s", "id", "p", "args", "t", "ts", "n", "sg", "b", "f", "m", "name", "_sub")

    def __init__(self, k):
        self.k = k
        self.s = ""
        self.id = self.p = None
        self.args = ()
        self.t = None
        self.ts = ()
        self.n = None
        self.sg = 0
        self.b = 0
        self.f = None
        self.m = 0
        self.name = None
        self._sub = None

    def __repr__(self):
        return "Ty(%s)" % self.s


def mkint(b, sg=0):
    t = Ty("int")
    t.b, t.sg, t.s = b, sg, ("i" if sg else "u") + str(b)
    return t


U8, U32, U64, USIZE, I32, I64 = mkint(8), mkint(32), mkint(64), mkint(64), mkint(32, 1), mkint(64, 1)
BOOL = Ty("bool")
BOOL.s = "bool"


class Fn:
    __slots__ = ("key", "crate", "k", "p", "n", "file", "line", "gen", "argc", "locals", "blocks", "names", "self",
                 "parent", "pub", "spread", "_ipdom", "_pty", "unsafe")


class Prog:
    def __init__(self):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.crates = []
        self._byname = {}

    def load(self, path):
        d = json.load(open(path))
        crate = d["crate"]
        self.crates.append((crate, d["kinds"]))
        raw = d["types"]
        self.gasm = getattr(self, "gasm", []) + [(crate, x) for x in d.get("gasm", [])]
        tys = [Ty(r["k"]) for r in raw]

        def garg(a):
            if isinstance(a, int):
                return tys[a]
            if "c" in a:
                return a["c"]
            if "cp" in a:
                return ("cp", a["cp"])
            return ("cs", a["cs"])

        def gargs(l):
            return tuple((n, garg(a)) for n, a in l)

        def fref(f):
            f = dict(f)
            f["a"] = gargs(f["a"])
            if "implty" in f:
                f["implty"] = tys[f["implty"]]
            if "r" in f:
                f["r"] = dict(f["r"])
                f["r"]["a"] = gargs(f["r"]["a"])
            return f
        for t, r in zip(tys, raw):
            t.s = r["s"]
            k = t.k
            if k == "int":
                t.sg, t.b = r["sg"], r["b"]
            elif k == "float":
                t.b = r["b"]
            elif k == "adt":
                t.id, t.p, t.args = r["id"], r["p"], gargs(r["a"])
            elif k in ("array",):
                t.t, t.n = tys[r["t"]], garg(r["n"])
            elif k == "slice":
                t.t = tys[r["t"]]
            elif k in ("ref", "ptr"):
                t.t, t.m = tys[r["t"]], r["m"]
            elif k == "tuple":
                t.ts = tuple(tys[x] for x in r["ts"])
            elif k == "fndef":
                t.f = fref(r["f"])
            elif k == "closure":
                t.id, t.ts = r["id"], tuple(tys[x] for x in r["up"])
            elif k == "param":
                t.name = r["n"]
        for k, a in d["adts"].items():
            if k not in self.adts or a["k"] == "enum":
                vs = []
                for v in a["v"]:
                    vs.append((v["n"], v["d"], [(n, tys[t] if t >= 0 else None) for n, t in v["f"]]))
                if k in self.adts and any(t is not None for v in self.adts[k]["v"] for _, t in v[2]):
                    continue
                self.adts[k] = dict(k=a["k"], p=a["p"], v=vs)
            elif any(t >= 0 for v in a["v"] for _, t in v["f"]):
                vs = [(v["n"], v["d"], [(n, tys[t] if t >= 0 else None) for n, t in v["f"]]) for v in a["v"]]
                self.adts[k] = dict(k=a["k"], p=a["p"], v=vs)

        def const(c):
            c["ty"] = tys[c["ty"]]
            if "f" in c:
                c["f"] = fref(c["f"])
            if "a" in c:
                c["a"] = gargs(c["a"])
            if c["k"] == "tyc":
                c["v"] = garg(c["v"]) if not isinstance(c["v"], int) else c["v"]

        def place(p):
            if p[1]:
                p[1] = tuple((e[0], e[1], tys[e[2]]) if e[0] == "f" else tuple(e) for e in p[1])
            else:
                p[1] = ()

        def opnd(o):
            if o[0] in "cm":
                place(o[1])
            elif o[0] == "k":
                const(o[1])

        def rv(r):
            k = r[0]
            if k == "use":
                opnd(r[1])
            elif k == "rep":
                opnd(r[1])
                r[2] = garg(r[2])
            elif k == "ref":
                place(r[2])
            elif k == "raw":
                place(r[1])
            elif k == "cast":
                opnd(r[2])
                r[3] = tys[r[3]]
            elif k == "bin":
                opnd(r[2])
                opnd(r[3])
            elif k == "un":
                opnd(r[2])
            elif k == "disc":
                place(r[1])
            elif k == "agg":
                if r[1][0] == "array":
                    r[1][1] = tys[r[1][1]]
                elif r[1][0] == "adt":
                    r[1][3] = gargs(r[1][3])
                for o in r[2]:
                    opnd(o)
        for k, f in d["fns"].items():
            F = Fn()
            F.key, F.crate, F.k, F.p, F.n, F.file, F.line = k, crate, f["k"], f["p"], f["n"], f["file"], f["line"]
            F.gen, F.argc, F.spread = f["gen"], f["argc"], f["spread"]
            F.locals = [tys[i] for i in f["locals"]]
            F.self = tys[f["self"]] if "self" in f else None
            F.parent = f.get("parent")
            F.pub = f.get("pub", 0)
            F.unsafe = f.get("unsafe", 0)
            F._ipdom = None
            F._pty = {}
            for b in f["blocks"]:
                for s in b["s"]:
                    if s[1] == "=":
                        place(s[2])
                        rv(s[3])
                    elif s[1] == "sd":
                        place(s[2])
                t = b["t"]
                if t[1] == "switch":
                    opnd(t[2])
                elif t[1] == "drop":
                    place(t[2])
                elif t[1] == "call":
                    opnd(t[2])
                    for a in t[3]:
                        opnd(a)
                    place(t[4])
                elif t[1] == "assert":
                    opnd(t[2])
                elif t[1] == "asm" and len(t) > 2:
                    for o in t[3]:
                        if o[0] == "in":
                            opnd(o[2])
                        elif o[0] == "out":
                            place(o[2])
            for n in f["names"]:
                place(n[1])
            F.names = f["names"]
            F.blocks = [(b["s"], b["t"], b["c"]) for b in f["blocks"]]
            self.fns[k] = F
        for i in d["impls"]:
            self.impls.append(dict(tr=i["tr"], trid=i["trid"], self=tys[i["self"]], a=gargs(i["a"]),
                                   items=dict(i["items"]), defaults=dict(i["defaults"]), id=i["id"]))

    # -- lookups -----------------------------------------------------------------
    def find(self, pred):
        return [f for f in self.fns.values() if pred(f)]

    def method(self, crate, tyname, name):
        """functions `name` of an inherent or trait impl on the type whose path ends in tyname"""
        out = []
        for f in self.fns.values():
            if f.crate == crate and f.n == name and f.k == "fn" and f.self is not None:
                t = f.self
                while t.k in ("ref",):
                    t = t.t
                if t.k == "adt" and t.p.split("::")[-1] == tyname:
                    out.append(f)
                elif t.k not in ("adt",) and t.s.split("<")[0] == tyname:
                    out.append(f)
        return out

    def methods(self, crate, tyname):
        """all functions of inherent impls of the type"""
        return [f for f in self.fns.values() if f.crate == crate and f.k == "fn" and f.self is not None
                and f.self.k == "adt" and f.self.p.split("::")[-1] == tyname]

    def func(self, crate, name, module=None):
        return [f for f in self.fns.values() if f.crate == crate and f.n == name and f.k == "fn" and f.self is None
                and (module is None or module in f.key)]


# ------------------------------------------------------------------ CFG helpers
def succs(fn, b):
    t = fn.blocks[b][1]
    k = t[1]
    if k == "goto":
        return [t[2]]
    if k == "switch":
        return [x[1] for x in t[3]] + [t[4]]
    if k == "drop":
        return [t[3]]
    if k == "call":
        return [t[5]] if t[5] >= 0 else []
    if k == "assert":
        return [t[5]]
    if k == "asm" and len(t) > 4 and t[4] >= 0:
        return [t[4]]
    return []


def ipdoms(fn):
    """Immediate post-dominators over the blocks that can reach a normal return."""
    if fn._ipdom is not None:
        return fn._ipdom
    n = len(fn.blocks)
    preds = [[] for _ in range(n + 1)]
    S = []
    for b in range(n):
        s = succs(fn, b)
        if fn.blocks[b][1][1] == "ret":
            s = [n]
        S.append(s)
        for x in s:
            preds[x].append(b)
    # blocks reaching exit
    reach = {n}
    st = [n]
    while st:
        x = st.pop()
        for p in preds[x]:
            if p not in reach:
                reach.add(p)
                st.append(p)
    # reverse postorder of the reverse graph
    order, seen = [], set()
    stack = [(n, iter(preds[n]))]
    seen.add(n)
    while stack:
        x, it = stack[-1]
        for p in it:
            if p not in seen:
                seen.add(p)
                stack.append((p, iter(preds[p])))
                break
        else:
            order.append(x)
            stack.pop()
    order.reverse()
    num = {x: i for i, x in enumerate(order)}
    idom = {n: n}
    changed = True
    while changed:
        changed = False
        for x in order[1:]:
            new = None
            for s in S[x]:
                if s in idom:
                    if new is None:
                        new = s
                    else:
                        a, b = s, new
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        new = a
            if new is not None and idom.get(x) != new:
                idom[x] = new
                changed = True
    fn._ipdom = (idom, reach)
    return fn._ipdom
