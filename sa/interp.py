"""Abstract interpreter over dumped MIR with gated merges (values: see bdd.py)."""
import re
import bdd as B
from bdd import BV
from prog import Ty, ipdoms, BOOL, USIZE, U8


class Unsupported(Exception):
    pass


class Agg:
    __slots__ = ("k", "id", "var", "f", "env")

    def __init__(self, k, f, id=None, var=0, env=None):
        self.k, self.f, self.id, self.var, self.env = k, f, id, var, env

    def with_f(self, i, v):
        f = list(self.f)
        f[i] = v
        return Agg(self.k, f, self.id, self.var, self.env)

    def __repr__(self):
        return "Agg(%s %s#%s %s)" % (self.k, (self.id or "").split("::")[-1], self.var, repr(self.f)[:200])


class Ref:
    __slots__ = ("cell", "path", "win")

    def __init__(self, cell, path=(), win=None):
        self.cell, self.path, self.win = cell, path, win

    def key(self):
        return (self.cell, self.path, self.win)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "Ref(%s,%s,%s)" % (self.cell, self.path, self.win)


class Union:
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Union(%s)" % (self.alts,)


class FnV:
    """function item or pointer"""
    __slots__ = ("f", "env")

    def __init__(self, f, env):
        self.f, self.env = f, env


class StrV:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, StrV) and o.s == self.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return "StrV(%r)" % (self.s,)


class Top:
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "Top(%s)" % self.why


class Tainted(Top):
    """A value read from the environment (time, thread id, ...)."""
    __slots__ = ()


UNINIT = Top("uninit")


class MapV:
    """a map (or a set: values are UNIT); `kind` is "map"/"set", or "bmap"/"bset" for the ordered containers"""
    __slots__ = ("items", "kind")

    def __init__(self, items, kind="map"):
        self.items, self.kind = items, kind

    def get(self, k):
        for a, b in self.items:
            if a == k:
                return b
        return None

    def set(self, k, v):
        out, done = [], False
        for a, b in self.items:
            if a == k:
                out.append((a, v))
                done = True
            else:
                out.append((a, b))
        if not done:
            out.append((k, v))
            if self.kind[0] == "b":
                if not all(isinstance(x, int) for x, _ in out):
                    if not all(isinstance(x, StrV) and isinstance(x.s, str) for x, _ in out):
                        raise Unsupported("order of keys")
                    out.sort(key=lambda e: e[0].s.encode())
                else:
                    out.sort(key=lambda e: e[0])
        return MapV(tuple(out), self.kind)

    def without(self, k):
        return MapV(tuple((a, b) for a, b in self.items if a != k), self.kind)


class Model:
    """Base of model objects (immutable). Subclasses define eqkey() for merging."""
    __slots__ = ()

    def eqkey(self):
        return id(self)

    def merge(self, g, o, I):
        return None


UNIT = Agg("tuple", [])


def isint(v):
    return isinstance(v, (int, BV))


def shape(v):
    if isint(v):
        return "int"
    if isinstance(v, Agg):
        return (v.k, v.id, v.var, len(v.f))
    if isinstance(v, Ref):
        return ("ref",) + v.key()
    if isinstance(v, StrV):
        return ("str", v.s)
    if isinstance(v, Top):
        return "top"
    if isinstance(v, FnV):
        return ("fn", v.f["id"])
    if isinstance(v, MapV):
        return ("map", v.kind, tuple(k for k, _ in v.items))
    if isinstance(v, Model):
        return (type(v).__name__,) + (v.mkey() if hasattr(v, "mkey") else (id(v),))
    return ("obj", id(v))


def merge(g, a, b):
    """a where g holds, b elsewhere"""
    if a is b or g == 1:
        return a
    if g == 0:
        return b
    ta, tb = type(a), type(b)
    if (ta is int or ta is BV) and (tb is int or tb is BV):
        return B.bite(g, a, b)
    if ta is Agg and tb is Agg and a.k == b.k and a.id == b.id and a.var == b.var and len(a.f) == len(b.f):
        f = [merge(g, x, y) for x, y in zip(a.f, b.f)]
        if all(x is y for x, y in zip(f, a.f)):
            return a
        return Agg(a.k, f, a.id, a.var, a.env)
    if isinstance(a, Top) and isinstance(b, Top):
        return a
    if a is UNINIT:
        return b
    if b is UNINIT:
        return a
    if ta is not Union and tb is not Union:
        sa, sb = shape(a), shape(b)
        if sa == sb:
            return merge_same(g, a, b)
    alts = {}
    for gg, v in ((g, a), (B.not_(g), b)):
        for g2, v2 in (v.alts if isinstance(v, Union) else [(1, v)]):
            h = B.and_(gg, g2)
            if h == 0:
                continue
            s = shape(v2)
            if s in alts:
                h0, w = alts[s]
                alts[s] = (B.or_(h0, h), merge_same(h, v2, w))
            else:
                alts[s] = (h, v2)
    l = list(alts.values())
    if len(l) == 1:
        return l[0][1]
    if len(l) > 300:
        raise Unsupported("union too wide")
    return Union(l)


def merge_same(g, a, b):
    if isint(a):
        return B.bite(g, a, b)
    if isinstance(a, Agg):
        return Agg(a.k, [merge(g, x, y) for x, y in zip(a.f, b.f)], a.id, a.var, a.env)
    if isinstance(a, MapV):
        return MapV(tuple((k, merge(g, x, y)) for (k, x), (_, y) in zip(a.items, b.items)), a.kind)
    if isinstance(a, Model) and hasattr(a, "merged"):
        return a.merged(g, b)
    return a


_G = re.compile(r"<[^<>]*>")


def normpath(p):
    """path without generic arguments: std::vec::Vec::<T, A>::push -> std::vec::Vec::push"""
    p = p.replace("->", "-")
    while True:
        q = re.sub(r"::<(?!impl )[^<>]*>", "", p)
        q = re.sub(r"(?<=[A-Za-z0-9_\]\)])<[^<>]*>", "", q)
        if q == p:
            return p
        p = q


class Frame:
    __slots__ = ("fn", "base", "env", "depth")

    def __init__(self, fn, base, env, depth):
        self.fn, self.base, self.env, self.depth = fn, base, env, depth


class Interp:
    def __init__(self, prog, models):
        self.prog = prog
        self.models = models          # dict normalised path -> function(I, call) -> value
        self.st = {}
        self.glob = {}
        self.counters, self.havoc = {}, {}
        self.nworld = 0
        self.pc = 1
        self.panics = []
        self.ncell = 1
        self.constcache = {}
        self.trace = None             # optional callback(I, fnref key, args)
        self.depth = 0
        self.steps = 0
        self.maxsteps = 40_000_000
        self.loc = ("?", 0)
        self.fnseen = set()
        self.callsites = 0
        self.modelsused = set()
        self.mode = {}                # options of the run (spawn order, ...)
        self.overrides = {}
        self.foreign = None      # handler of calls to foreign functions without a model           # fn key -> python function(I, fn, args, env)
        self.stack = []
        self.loopbound = 5000
        self.impl_index = {}
        for im in prog.impls:
            self.impl_index.setdefault(im["tr"], []).append(im)

    # ------------------------------------------------------------------ cells
    def newcell(self, v):
        c = self.ncell
        self.ncell += 1
        self.st[c] = v
        return c

    def cellval(self, c):
        v = self.st.get(c)
        if v is None:
            v = self.glob.get(c)
            if v is None:
                raise Unsupported("dangling cell %s" % c)
        return v

    # ------------------------------------------------------- reading / writing
    def getpath(self, v, path):
        for e in path:
            v = self.step(v, e)
        return v

    def step(self, v, e):
        if type(v) is Union:
            r = None
            for g, a in v.alts:
                try:
                    x = self.step(a, e)
                except _NoField:
                    continue
                r = x if r is None else merge(g, x, r)
            if r is None:
                raise Unsupported("no alternative for projection %r" % (e,))
            return r
        if type(e) is int:
            if type(v) is Agg and v.k in ("array", "vec"):
                if e >= len(v.f):
                    raise _NoField()
                return v.f[e]
            if hasattr(v, "aread"):
                return v.aread(self, e)
            raise Unsupported("index into %r" % (v,))
        k = e[0]
        if k == "f":
            if type(v) is Agg:
                if e[1] >= len(v.f):
                    raise _NoField()
                return v.f[e[1]]
            if isinstance(v, Top):
                if v is UNINIT:
                    return UNINIT
                return v
            if hasattr(v, "field"):
                return v.field(self, e[1])
            raise _NoField()
        if k == "v":
            if type(v) is Agg:
                if v.var != e[1]:
                    raise _NoField()
                return v
            if isinstance(v, Top):
                return v
            raise Unsupported("downcast of %r" % (v,))
        if k == "x":   # symbolic index
            return self.symread(v, e[1])
        if k == "k":   # map entry
            r = v.get(e[1])
            if r is None:
                raise _NoField()
            return r
        if k == "w":
            return self.window(v, e[1], e[2])
        if k == "some":  # payload view used by Option::as_ref style models
            return v.f[0]
        raise Unsupported("projection %r" % (e,))

    def window(self, v, s, n):
        if type(v) is Agg:
            return Agg("array", v.f[s:s + n])
        if hasattr(v, "awindow"):
            return v.awindow(self, s, n)
        raise Unsupported("window of %r" % (v,))

    def symread(self, v, idx):
        if hasattr(v, "aread"):
            return v.aread(self, idx)
        if type(v) is Agg and v.k in ("array", "vec"):
            n = len(v.f)
            if n == 0:
                raise _NoField()
            items = list(v.f)
            bits = idx.b
            w = max(1, (n - 1).bit_length())
            for k in range(w):
                s = bits[k] if k < len(bits) else 0
                nxt = []
                for i in range(0, len(items), 2):
                    if i + 1 < len(items):
                        nxt.append(merge(s, items[i + 1], items[i]))
                    else:
                        nxt.append(items[i])
                items = nxt
            return items[0]
        raise Unsupported("symbolic index into %r" % (v,))

    def setpath(self, v, path, i, new, g=1):
        """v with path[i:] replaced by new (where g holds)"""
        if i == len(path):
            return new if g == 1 else merge(g, new, v)
        e = path[i]
        if type(v) is Union:
            out, hit = [], False
            for gg, a in v.alts:
                try:
                    a2 = self.setpath(a, path, i, new, g)
                    hit = True
                except _NoField:
                    a2 = a
                out.append((gg, a2))
            if not hit:
                raise Unsupported("write to no alternative")
            return Union(out)
        if type(e) is int:
            if type(v) is Agg and v.k in ("array", "vec"):
                if e >= len(v.f):
                    raise _NoField()
                return v.with_f(e, self.setpath(v.f[e], path, i + 1, new, g))
            if hasattr(v, "awrite"):
                if i + 1 != len(path):
                    raise Unsupported("nested write into symbolic array")
                return v.awrite(self, e, new, g)
            raise Unsupported("index write into %r" % (v,))
        k = e[0]
        if k == "f":
            if isinstance(v, Top):
                # building an aggregate field by field
                f = [UNINIT] * (e[1] + 1)
                v = Agg("part", f)
            if type(v) is Agg:
                if e[1] >= len(v.f):
                    if v.k == "part":
                        f = list(v.f) + [UNINIT] * (e[1] + 1 - len(v.f))
                        v = Agg("part", f)
                    else:
                        raise _NoField()
                return v.with_f(e[1], self.setpath(v.f[e[1]], path, i + 1, new, g))
            if hasattr(v, "setfield"):
                return v.setfield(self, e[1], self.setpath(v.field(self, e[1]), path, i + 1, new, g))
            raise _NoField()
        if k == "v":
            if type(v) is Agg and v.var != e[1]:
                raise _NoField()
            return self.setpath(v, path, i + 1, new, g)
        if k == "x":
            if hasattr(v, "awrite"):
                return v.awrite(self, e[1], new, g)
            if type(v) is Agg and v.k in ("array", "vec"):
                f = list(v.f)
                w = max(1, len(f).bit_length(), len(e[1].b))
                for j in range(len(f)):
                    c = B.and_(g, B.beq(e[1], j, w))
                    if c:
                        f[j] = self.setpath(f[j], path, i + 1, new, c)
                return Agg(v.k, f, v.id, v.var, v.env)
            raise Unsupported("symbolic write into %r" % (v,))
        if k == "k":
            return v.set(e[1], self.setpath(v.get(e[1]), path, i + 1, new, g))
        if k == "w":
            s, n = e[1], e[2]
            sub = self.setpath(self.window(v, s, n), path, i + 1, new, g)
            f = list(v.f)
            f[s:s + n] = sub.f
            return Agg(v.k, f, v.id, v.var, v.env)
        raise Unsupported("write projection %r" % (e,))

    def read(self, r):
        """value behind a reference"""
        if type(r) is Union:
            out = None
            for g, a in r.alts:
                x = self.read(a)
                out = x if out is None else merge(g, x, out)
            return out
        if not isinstance(r, Ref):
            if isinstance(r, (StrV, Top)) or isinstance(r, Model):
                return r
            raise Unsupported("deref of %r" % (r,))
        v = self.getpath(self.cellval(r.cell), r.path)
        if r.win is not None:
            v = self.window(v, r.win[0], r.win[1])
        return v

    def write(self, r, new, g=1):
        if type(r) is Union:
            for gg, a in r.alts:
                self.write(a, new, B.and_(g, gg))
            return
        if not isinstance(r, Ref):
            raise Unsupported("write through %r" % (r,))
        path = r.path
        if r.win is not None:
            path = path + (("w",) + r.win,)
        if r.cell in self.st:
            self.st[r.cell] = self.setpath(self.st[r.cell], path, 0, new, g)
        elif r.cell in self.glob:
            # statics with interior mutability: the branch state gets its own copy (mergestates falls back to the initial value)
            self.st[r.cell] = self.setpath(self.glob[r.cell], path, 0, new, g)
        else:
            raise Unsupported("write to dangling cell %s" % r.cell)

    def sub(self, r, e):
        """reference to a sub-place of what r points to (e: path element)"""
        if type(r) is Union:
            out = None
            for g, a in r.alts:
                x = self.sub(a, e)
                out = x if out is None else merge(g, x, out)
            return out
        if not isinstance(r, Ref):
            raise Unsupported("sub-reference of %r" % (r,))
        if type(e) is BV:
            e = ("x", e)
        if r.win is not None:
            if type(e) is int:
                e = add_idx(r.win[0], e)
            elif e[0] == "x":
                e = add_idx(r.win[0], e[1])
            elif e[0] == "w":
                return Ref(r.cell, r.path, (r.win[0] + e[1], e[2]))
            else:
                raise Unsupported("projection %r of slice" % (e,))
        if type(e) is tuple and e[0] == "w":
            return Ref(r.cell, r.path, (e[1], e[2]))
        return Ref(r.cell, r.path + (e,))

    def length(self, r):
        """length of the sequence behind a reference to array/slice/vec"""
        if type(r) is Union:
            out = None
            for g, a in r.alts:
                x = self.length(a)
                out = x if out is None else merge(g, x, out)
            return out
        if isinstance(r, StrV):
            return len(r.s)
        if isinstance(r, Ref) and r.win is not None:
            return r.win[1]
        v = self.read(r)
        return self.vlen(v)

    def vlen(self, v):
        if type(v) is Union:
            out = None
            for g, a in v.alts:
                x = self.vlen(a)
                out = x if out is None else merge(g, x, out)
            return out
        if type(v) is Agg and v.k in ("array", "vec"):
            return len(v.f)
        if hasattr(v, "alen"):
            return v.alen()
        if isinstance(v, StrV):
            return len(v.s)
        raise Unsupported("length of %r" % (v,))

    # ------------------------------------------------------------------ types
    def subst(self, t, env):
        if type(t) is not Ty:
            if type(t) is tuple and t[0] == "cp":
                return env.get(t[1], t)
            return t
        if t.k == "param":
            return env.get(t.name, t)
        return t

    def tyof(self, fr, place):
        l, proj = place
        t = fr.fn.locals[l]
        if not proj:
            return self.subst(t, fr.env)
        for e in proj:
            k = e[0]
            if k == "f":
                t = e[2]
            elif k == "d":
                t = self.subst(t, fr.env)
                t = t.t if t.k in ("ref", "ptr") else (t.args[0][1] if t.k == "adt" and t.args else t)
            elif k in ("i", "ci"):
                t = self.subst(t, fr.env)
                t = t.t
            elif k == "ss":
                pass
        return self.subst(t, fr.env)

    def opty(self, fr, o):
        if o[0] == "k":
            return self.subst(o[1]["ty"], fr.env)
        if o[0] == "rc":
            return BOOL
        return self.tyof(fr, o[1])

    @staticmethod
    def width(t):
        if t.k == "int":
            return t.b, t.sg
        if t.k == "bool":
            return 1, 0
        if t.k == "char":
            return 32, 0
        if t.k in ("ref", "ptr", "fnptr"):
            return 64, 0
        raise Unsupported("integer type expected, got %s" % t.s)

    # ----------------------------------------------------------------- places
    def place(self, fr, p):
        """(cell, path, win) of a place, or a list of guarded ones"""
        l, proj = p
        cell, path, win = fr.base + l, (), None
        if not proj:
            return Ref(cell)
        r = Ref(cell)
        for e in proj:
            k = e[0]
            if k == "d":
                v = self.read(r)
                if type(v) is Union:
                    v = Union([(g, self.derefv(a)) for g, a in v.alts])
                else:
                    v = self.derefv(v)
                r = v
            elif k == "f":
                r = self.subf(r, ("f", e[1]))
            elif k == "v":
                r = self.subf(r, ("v", e[1]))
            elif k == "i":
                idx = self.cellval(fr.base + e[1])
                if type(idx) is not int:
                    if isinstance(idx, BV):
                        idx = ("x", idx)
                    else:
                        raise Unsupported("index by %r" % (idx,))
                r = self.sub(r, idx)
            elif k == "ci":
                i = e[1]
                if e[3]:
                    i = self.length(r) - i
                r = self.sub(r, i)
            elif k == "ss":
                n = self.length(r)
                to = n - e[2] if e[3] else e[2]
                r = self.sub(r, ("w", e[1], to - e[1]))
            else:
                raise Unsupported("place projection %r" % (e,))
        return r

    def subf(self, r, e):
        if type(r) is Union:
            return Union([(g, self.subf(a, e)) for g, a in r.alts])
        if isinstance(r, Ref):
            if e[0] == "f":
                # fields of Box / pointer wrappers are transparent
                v = self.getpath(self.cellval(r.cell), r.path)
                if isinstance(v, Ref) and e[1] == 0:
                    return r
            return Ref(r.cell, r.path + (e,), r.win)
        if isinstance(r, (Top,)):
            return r
        if isinstance(r, Model):
            raise Unsupported("field of model %r" % (r,))
        raise Unsupported("field of %r" % (r,))

    def derefv(self, v):
        if isinstance(v, (Ref, StrV)):
            return v
        if isinstance(v, Model) and hasattr(v, "deref"):
            return v.deref(self)
        if isinstance(v, Top):
            return v
        raise Unsupported("deref of %r" % (v,))

    # --------------------------------------------------------------- operands
    def operand(self, fr, o):
        k = o[0]
        if k == "k":
            return self.const(fr, o[1])
        if k == "rc":
            return 0
        p = o[1]
        if not p[1]:
            c = fr.base + p[0]
            v = self.st.get(c)
            if v is None:
                v = self.cellval(c)
            return v
        return self.read(self.place(fr, p))

    def const(self, fr, c):
        k = c["k"]
        if k == "int":
            return c["v"]
        if k == "zst":
            t = c["ty"]
            if "f" in c:
                return FnV(c["f"], self.fenv(c["f"], fr.env))
            if t.k == "tuple":
                return UNIT
            if t.k == "adt":
                return Agg("adt", [], t.id, 0)
            if t.k == "closure":
                return Agg("closure", [], t.id, 0, fr.env)
            if t.k == "array":
                return Agg("array", [])
            return UNIT
        if k == "uneval":
            return self.uneval(fr, c)
        if k == "str":
            return StrV(c["v"])
        if k == "static":
            return Ref(self.staticcell(c["id"]))
        if k == "tyc":
            v = self.subst(c["v"], fr.env)
            if isinstance(v, int):
                return v
            raise Unsupported("const parameter %r" % (v,))
        if k == "bytes":
            cell = self.ncell
            self.ncell += 1
            self.glob[cell] = Agg("array", list(c["v"]))
            return Ref(cell)
        if k == "mem":
            t = c["ty"]
            if t.k == "ref" and t.t.k == "array" and t.t.t.k == "int" and t.t.t.b == 8:
                cell = self.ncell
                self.ncell += 1
                self.glob[cell] = Agg("array", list(c["v"]))
                return Ref(cell)
            return Top("const memory")
        if k == "ind":
            t = c["ty"]
            v = self.decode(c["v"], t)
            return v if v is not None else Top("const aggregate")
        if k == "fnp":
            return FnV(c["f"], {})
        return Top("const " + k)

    def decode(self, by, t):
        if t.k == "int":
            return int.from_bytes(bytes(by[:t.b // 8]), "little")
        if t.k == "array" and t.t.k == "int" and isinstance(t.n, int):
            s = t.t.b // 8
            return Agg("array", [int.from_bytes(bytes(by[i * s:i * s + s]), "little") for i in range(t.n)])
        return None

    def staticcell(self, id):
        key = ("static", id)
        if key not in self.constcache:
            fn = self.prog.fns.get(id)
            if fn is None and not self.mode.get("extern_statics"):
                raise Unsupported("foreign static " + id)
            v = Top("extern static " + id) if fn is None else self.runconst(fn, {})
            cell = self.ncell
            self.ncell += 1
            w = self.havoc.get(key)
            if w and isinstance(v, Agg) and v.id == "Atomic":
                v = Agg("adt", [B.vec("static " + id, w, -100_000 + 64 * len(self.constcache))], "Atomic", 0)
            self.glob[cell] = v
            self.constcache[key] = cell
        return self.constcache[key]

    def runconst(self, fn, env):
        st, pc = self.st, self.pc
        self.st, self.pc = {}, 1
        v = self.call_body(fn, [], env, keep=True)
        self.glob.update(self.st)
        dead = self.pc == 0
        self.st, self.pc = st, pc
        if dead:
            raise Unsupported("constant panics")
        return v

    def uneval(self, fr, c):
        id = c["id"]
        if c["pr"] >= 0:
            id = "%s#%d" % (id, c["pr"])
            env = fr.env
        else:
            env = {n: self.subst(t, fr.env) for n, t in c["a"]}
        key = (id, tuple(sorted((n, t.s if type(t) is Ty else repr(t)) for n, t in env.items())))
        r = self.constcache.get(key)
        if r is None:
            fn = self.prog.fns.get(id)
            if fn is None and c.get("tr"):
                self_t = env.get("Self")
                im = self.find_impl(c["tr"], self_t, None)
                if im is not None:
                    nm = c["p"].split("::")[-1]
                    if nm in im["items"]:
                        fn = self.prog.fns.get(im["items"][nm])
            if fn is None:
                m = self.models.get("const " + normpath(c["p"]))
                if m is not None:
                    r = m(self, env)
                    self.constcache[key] = r
                    return r
                if re.match(r"(std|core)::f(32|64)::", normpath(c["p"])):
                    return Top("float")
                raise Unsupported("constant %s" % c["p"])
            r = self.runconst(fn, env)
            self.constcache[key] = r
        return r

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1])
        if k == "ref":
            return self.mkref(fr, r[2])
        if k == "tls":
            return Ref(self.staticcell(r[1]))
        if k == "raw":
            return self.mkref(fr, r[1])
        if k == "bin":
            return self.binop(fr, r[1], r[2], r[3])
        if k == "cast":
            return self.cast(fr, r[1], r[2], r[3])
        if k == "agg":
            ops = [self.operand(fr, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "tuple":
                return Agg("tuple", ops) if ops else UNIT
            if kk[0] == "array":
                return Agg("array", ops)
            if kk[0] == "adt":
                if kk[1].endswith("::Box"):
                    return ops[0]
                return Agg("adt", ops, kk[1], kk[2])
            if kk[0] == "closure":
                return Agg("closure", ops, kk[1], 0, fr.env)
            raise Unsupported("aggregate")
        if k == "disc":
            return self.discr(self.read(self.place(fr, r[1])), self.tyof(fr, r[1]))
        if k == "un":
            v = self.operand(fr, r[2])
            if r[1] == "PtrMetadata":
                return self.length(v)
            if isinstance(v, Top):
                return v
            t = self.opty(fr, r[2])
            if t.k == "float":
                return Top("float")
            w, sg = self.width(t)
            return self.lift1(v, lambda x: B.bnot(x, w) if r[1] == "Not" else B.bneg(x, w))
        if k == "rep":
            n = self.subst(r[2], fr.env)
            if not isinstance(n, int):
                raise Unsupported("repeat count %r" % (n,))
            return Agg("array", [self.operand(fr, r[1])] * n)
        raise Unsupported("rvalue " + str(r)[:80])

    def lift1(self, v, f):
        if type(v) is Union:
            out = None
            for g, a in v.alts:
                x = f(a)
                out = x if out is None else merge(g, x, out)
            return out
        return f(v)

    def mkref(self, fr, p):
        r = self.place(fr, p)
        return r

    def discr(self, v, t):
        if type(v) is Union:
            out = None
            for g, a in v.alts:
                x = self.discr(a, t)
                out = x if out is None else merge(g, x, out)
            return out
        if isinstance(v, Agg):
            ad = self.prog.adts.get(v.id)
            if ad is None:
                return v.var
            return ad["v"][v.var][1]
        if isinstance(v, Top):
            return v
        raise Unsupported("discriminant of %r" % (v,))

    def binop(self, fr, op, lo, ro):
        a, b = self.operand(fr, lo), self.operand(fr, ro)
        t = self.opty(fr, lo)
        if isinstance(a, Top) or isinstance(b, Top):
            tt = a if isinstance(a, Top) else b
            if op.endswith("WithOverflow"):
                return Agg("tuple", [tt, 0])
            return tt
        if t.k == "float":
            return Top("float")
        if isinstance(a, (Ref, StrV, FnV)) or isinstance(b, (Ref, StrV, FnV)):
            if op == "Eq":
                return 1 if a == b else 0
            if op == "Ne":
                return 0 if a == b else 1
            if op == "Offset":
                raise Unsupported("pointer arithmetic")
            raise Unsupported("pointer comparison")
        if t.k == "tuple":   # unit comparison
            return 1
        w, sg = self.width(t)
        rt = self.opty(fr, ro)
        return self.arith(op, a, b, w, sg, self.width(rt)[0] if op.startswith("Sh") else w)

    def arith(self, op, a, b, w, sg, rw):
        if type(a) is Union or type(b) is Union:
            raise Unsupported("arithmetic on union")
        if op == "Add" or op == "AddUnchecked":
            return B.badd(a, b, w)
        if op == "Sub" or op == "SubUnchecked":
            return B.bsub(a, b, w)
        if op == "Mul" or op == "MulUnchecked":
            return B.bmul(a, b, w)
        if op == "BitAnd":
            return B.band(a, b, w)
        if op == "BitOr":
            return B.bor(a, b, w)
        if op == "BitXor":
            return B.bxor(a, b, w)
        if op == "Eq":
            return B.bv([B.beq(a, b, w, self.pc if B.LINEAR[0] else 1)])
        if op == "Ne":
            return B.bv([B.not_(B.beq(a, b, w, self.pc if B.LINEAR[0] else 1))])
        if op in ("Lt", "Gt", "Le", "Ge"):
            if op in ("Gt", "Le"):
                x, y = b, a
            else:
                x, y = a, b
            r = B.bslt(x, y, w) if sg else B.bult(x, y, w)
            if op in ("Le", "Ge"):
                r = B.not_(r)
            return B.bv([r])
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            lw = w.bit_length() - 1
            s = B.trunc(b, lw)
            if op.startswith("Shl"):
                return B.bshl(a, s, w, lw)
            return B.bshr(a, s, w, lw, bool(sg))
        if op == "AddWithOverflow":
            if B.isc(a) and B.isc(b) and not sg:
                r = a + b
                return Agg("tuple", [r & ((1 << w) - 1), r >> w])
            s, c = B.badd_c(a, b, w)
            if sg:
                x, y, z = B.bits(a, w)[-1], B.bits(b, w)[-1], B.bits(s, w)[-1]
                c = B.and_(B.not_(B.xor_(x, y)), B.xor_(x, z))
            return Agg("tuple", [s, B.bv([c])])
        if op == "SubWithOverflow":
            if B.isc(a) and B.isc(b) and not sg:
                return Agg("tuple", [(a - b) & ((1 << w) - 1), 1 if a < b else 0])
            s = B.bsub(a, b, w)
            if sg:
                x, y, z = B.bits(a, w)[-1], B.bits(b, w)[-1], B.bits(s, w)[-1]
                c = B.and_(B.xor_(x, y), B.xor_(x, z))
            else:
                c = B.bult(a, b, w)
            return Agg("tuple", [s, B.bv([c])])
        if op == "MulWithOverflow":
            return Agg("tuple", [B.bmul(a, b, w), B.bv([self.mulovf(a, b, w, sg)])])
        if op in ("Div", "Rem"):
            q, r = B.sdivrem(a, b, w) if sg else B.udivrem(a, b, w)
            return q if op == "Div" else r
        if op == "Cmp":
            lt = B.bslt(a, b, w) if sg else B.bult(a, b, w)
            eq = B.beq(a, b, w)
            return merge(eq, Agg("adt", [], "core::cmp::Ordering", 1),
                         merge(lt, Agg("adt", [], "core::cmp::Ordering", 0), Agg("adt", [], "core::cmp::Ordering", 2)))
        raise Unsupported("binop " + op)

    def mulovf(self, a, b, w, sg):
        if B.isc(a) and B.isc(b):
            if sg:
                x = B._s(a, w) * B._s(b, w)
                return 0 if -(1 << (w - 1)) <= x < (1 << (w - 1)) else 1
            return 1 if a * b >> w else 0
        # operand ranges may exclude overflow
        def rng(v):
            x = B.bits(v, w)
            if sg:
                n = w
                while n > 1 and x[n - 1] == x[n - 2]:
                    n -= 1
                return n          # fits in n signed bits
            n = w
            while n > 0 and x[n - 1] == 0:
                n -= 1
            return n
        ra, rb = rng(a), rng(b)
        if ra + rb <= w or (not sg and min(ra, rb) <= 1):
            return 0
        if not sg and min(ra, rb) <= 6:
            return B.nonzero(B.bv(B.bits(B.bmul(a, b, w + 6), w + 6)[w:]), 6)
        return B.bits(B.term(("mulovf", a, b, w, sg), 1), 1)[0]

    def cast(self, fr, kind, o, t):
        v = self.operand(fr, o)
        t = self.subst(t, fr.env)
        if kind == "IntToInt":
            st = self.opty(fr, o)
            if isinstance(v, Top):
                return v
            if st.k == "adt":      # C-like enum
                v = self.discr(v, st)
                return B.trunc(v, self.width(t)[0]) if isint(v) else v
            w, sg = self.width(st)
            w2, _ = self.width(t)
            return self.intcast(v, w, sg, w2)
        if kind.startswith("Float") or kind.startswith("IntToFloat"):
            return Top("float")
        if kind.startswith("PointerCoercion"):
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                return v
            return v
        if kind in ("PtrToPtr", "FnPtrToPtr", "Subtype", "BoxDerefTransmute"):
            return v
        if kind == "Transmute":
            if isinstance(v, (Ref, StrV)):
                return v
            st = self.opty(fr, o)
            if st.k in ("int", "bool", "char") and t.k in ("int", "bool", "char"):
                return v
            if st.k == "adt" and t.k == "int":
                return self.discr(v, st)
            if st.k == "int" and t.k == "adt":
                raise Unsupported("transmute to enum")
            return v
        if kind in ("PointerExposeProvenance", "PointerWithExposedProvenance") and self.mode.get("addr") is not None:
            if isint(v):
                return v
            if isinstance(v, Ref) and not v.path:
                a = self.mode["addr"](self, v.cell)
                if a is not None:
                    return a
        raise Unsupported("cast " + kind)

    def intcast(self, v, w, sg, w2):
        if type(v) is Union:
            raise Unsupported("cast of union")
        if w2 <= w:
            return B.trunc(v, w2)
        return B.sext(v, w, w2) if sg else v

    # ---------------------------------------------------------------- control
    def panic(self, g, why, fr=None):
        g = B.and_(self.pc, g)
        if g == 0:
            return
        where = (fr.fn.key, fr.fn.file, self.loc[1]) if fr is not None else (self.stack[-1] if self.stack else "?", "", self.loc[1])
        self.panics.append((g, why, where))
        self.pc = B.and_(self.pc, B.not_(g))

    def exec(self, fr, b, stop):
        fn = fr.fn
        blocks = fn.blocks
        n = len(blocks)
        base = fr.base
        st = self.st
        visits = 0
        while True:
            if b == stop:
                return
            if self.pc == 0:
                return
            visits += 1
            if visits > self.loopbound * 40:
                raise Unsupported("loop bound in " + fn.key)
            stmts, t, _ = blocks[b]
            for s in stmts:
                self.steps += 1
                self.loc = (fn.key, s[0])
                if s[1] == "=":
                    p = s[2]
                    v = self.rvalue(fr, s[3], None)
                    if not p[1]:
                        self.st[base + p[0]] = v
                    else:
                        self.write(self.place(fr, p), v)
                elif s[1] == "x":
                    self.st[base + s[2]] = UNINIT
                elif s[1] == "sd":
                    r = self.place(fr, s[2])
                    ty = self.tyof(fr, s[2])
                    old = self.read(r)
                    f = list(old.f) if isinstance(old, Agg) else []
                    self.write(r, Agg("adt", f, ty.id, s[3]))
                else:
                    raise Unsupported("statement " + s[1])
            if self.steps > self.maxsteps:
                raise Unsupported("step budget")
            self.loc = (fn.key, t[0])
            k = t[1]
            if k == "goto":
                b = t[2]
            elif k == "ret":
                b = n
                if stop != n:
                    raise Unsupported("return inside region")
            elif k == "drop":
                b = t[3]
            elif k == "asm":
                h = self.mode.get("asm")
                if h is None or len(t) < 5 or t[4] < 0 or any(o[0] == "other" for o in t[3]):
                    raise Unsupported("inline assembly in " + fn.key)
                outs = h(self, t[2], [(o[0], o[1], self.operand(fr, o[2]) if o[0] == "in" else None) for o in t[3]])
                for o, v in zip([o for o in t[3] if o[0] == "out"], outs):
                    self.write(self.place(fr, o[2]), v)
                b = t[4]
            elif k == "assert":
                c = self.operand(fr, t[2])
                if type(c) is not int or c != t[3]:
                    if isinstance(c, Top):
                        raise Unsupported("assert on unknown value in " + fn.key)
                    bit = B.bits(c, 1)[0]
                    bad = bit if t[3] == 0 else B.not_(bit)
                    self.panic(bad, "assert: " + t[4].split("(")[0].split("{")[0].strip(), fr)
                b = t[5]
            elif k == "call":
                self.call(fr, t)
                if t[5] < 0:
                    if self.pc != 0:
                        raise Unsupported("diverging call returned in " + fn.key)
                    return
                b = t[5]
            elif k == "switch":
                v = self.operand(fr, t[2])
                if type(v) is int:
                    for val, tgt in t[3]:
                        if val == v:
                            b = tgt
                            break
                    else:
                        b = t[4]
                    continue
                if not isinstance(v, BV):
                    if isinstance(v, Top) and v.why.startswith(("std::time", "core::time", "world")) and self.opty(fr, t[2]).k == "bool":
                        # decided by the clock or the file system: either way
                        self.nworld += 1
                        v = B.bv([B.var("outside world %d" % self.nworld, -200_000 + self.nworld)])
                    elif isinstance(v, Top):
                        raise Unsupported("branch on unknown value (%s) in %s" % (v.why, fn.key))
                    else:
                        raise Unsupported("switch on %r" % (v,))
                w, _ = self.width(self.opty(fr, t[2])) if True else (0, 0)
                rest = self.pc
                outs, conds = {}, {}
                raw = 1
                for val, tgt in t[3]:
                    c = B.beq(v, val, w)
                    g = B.and_(rest, c)
                    if g:
                        outs[tgt] = B.or_(outs.get(tgt, 0), g)
                        conds[tgt] = B.or_(conds.get(tgt, 0), B.and_(raw, c))
                        rest = B.and_(rest, B.not_(c))
                        raw = B.and_(raw, B.not_(c))
                if rest:
                    outs[t[4]] = B.or_(outs.get(t[4], 0), rest)
                    conds[t[4]] = B.or_(conds.get(t[4], 0), raw)
                if len(outs) == 1:
                    b = next(iter(outs))
                    continue
                if "branchlog" in self.mode:
                    self.mode["branchlog"].append((v, fn.key, "%s:%s" % (fn.file, t[0])))
                b = self.fork(fr, b, outs, conds)
                if b is None:
                    return
            elif k == "unreach":
                self.panic(1, "unreachable", fr)
                return
            elif k == "resume":
                raise Unsupported("unwind")
            else:
                raise Unsupported("terminator " + k)

    def fork(self, fr, b, outs, conds={}):
        idom, reach = ipdoms(fr.fn)
        j = idom.get(b) if b in reach else None
        base = self.st
        res = []
        for tgt, g in outs.items():
            self.st = dict(base)
            self.pc = g
            self.fdepth = getattr(self, "fdepth", 0) + 1
            if self.fdepth > 3000:
                raise Unsupported("fork depth in " + fr.fn.key)
            self.exec(fr, tgt, j if j is not None else -1)
            self.fdepth -= 1
            if self.pc != 0:
                res.append((self.pc, self.st, conds.get(tgt)))
        if not res:
            self.pc = 0
            self.st = base
            return None
        if j is None:
            raise Unsupported("no join")
        self.pc, self.st = self.mergestates(res)
        return j

    def mergestates(self, res):
        """join; a state is chosen by its branch condition where that is known (values stay free of the path condition)"""
        if len(res) == 1:
            return res[0][:2]
        pc, st = res[-1][:2]
        glob = self.glob
        for r in reversed(res[:-1]):
            g, s = r[:2]
            sel = r[2] if len(r) > 2 and r[2] is not None else g
            out = {}
            for c, v in s.items():
                w = st.get(c)
                if w is None:
                    w = glob.get(c)
                if w is None or w is v:
                    out[c] = v
                else:
                    out[c] = merge(sel, v, w)
            for c, w in st.items():
                if c not in out:
                    v = glob.get(c)
                    out[c] = w if v is None else merge(sel, v, w)
            st = out
            pc = B.or_(pc, g)
        return pc, st

    # ------------------------------------------------------------------ calls
    def fenv(self, f, env):
        return {n: self.subst(t, env) for n, t in f["a"]}

    def call(self, fr, t):
        fo = t[2]
        args = [self.operand(fr, a) for a in t[3]]
        self.callsites += 1
        if fo[0] == "k" and "f" in fo[1]:
            f = fo[1]["f"]
            self.dest = (fr, t[4])
            v = self.callf(f, self.fenv(f, fr.env), args, fr)
        else:
            fv = self.operand(fr, fo)
            v = self.callv(fv, args)
        if self.pc == 0:
            return
        if v is None:
            v = UNIT
        p = t[4]
        if not p[1]:
            self.st[fr.base + p[0]] = v
        else:
            self.write(self.place(fr, p), v)

    def callv(self, fv, args):
        """call a function value (closure, fn item, pointer) with plain arguments"""
        if type(fv) is Union:
            return self.forkalts(fv, lambda a: self.callv(a, args))
        if isinstance(fv, FnV):
            return self.callf(fv.f, fv.env, args, None)
        if isinstance(fv, Ref):
            v = self.read(fv)
            if isinstance(v, Agg) and v.k == "closure":
                fn = self.prog.fns.get(v.id)
                if fn is None:
                    raise Unsupported("closure " + v.id)
                byref = fn.locals[1].k == "ref"
                return self.call_body(fn, [fv if byref else v] + args, v.env or {})
            return self.callv(v, args)
        if isinstance(fv, Agg) and fv.k == "closure":
            fn = self.prog.fns.get(fv.id)
            if fn is None:
                raise Unsupported("closure " + fv.id)
            byref = fn.argc >= 1 and fn.locals[1].k == "ref"
            self_arg = Ref(self.newcell(fv)) if byref else fv
            return self.call_body(fn, [self_arg] + args, fv.env or {})
        if callable(fv):
            return fv(*args)
        raise Unsupported("call of %r" % (fv,))

    def forkalts(self, u, f):
        """run f for every alternative of a union, in its own branch, and merge"""
        base_st, base_pc = self.st, self.pc
        res = []
        for g, a in u.alts:
            h = B.and_(base_pc, g)
            if h == 0:
                continue
            self.st, self.pc = dict(base_st), h
            v = f(a)
            if self.pc != 0:
                res.append((self.pc, self.st, v))
        if not res:
            self.st, self.pc = base_st, 0
            return None
        out = res[-1][2]
        for g, _, v in reversed(res[:-1]):
            out = merge(g, v if v is not None else UNIT, out if out is not None else UNIT)
        self.pc, self.st = self.mergestates([(g, s) for g, s, _ in res])
        return out

    def find_impl(self, trait, self_t, selfv):
        for im in self.impl_index.get(trait, ()):
            st = im["self"]
            if self_t is not None and type(self_t) is Ty and self_t.k not in ("param", "alias"):
                if tymatch(st, self_t):
                    return im
        if selfv is not None:
            v = selfv
            try:
                while isinstance(v, Ref):
                    v = self.read(v)
            except (Unsupported, _NoField):
                v = None
            c = []
            for im in self.impl_index.get(trait, ()):
                st = im["self"]
                if isinstance(v, Agg) and v.id is not None and st.k == "adt" and st.id == v.id:
                    return im
                if isinstance(v, Model) and hasattr(v, "TY") and st.k == "adt" and st.p.split("::")[-1] == v.TY:
                    c.append(im)
            if len(c) == 1:
                return c[0]
        return None

    def callf(self, f, env, args, fr):
        if self.trace is not None:
            self.trace(self, f, args)
        r = f.get("r")
        # 1. local body (direct or resolved)
        key = r["id"] if r and r["id"] in self.prog.fns else f["id"]
        if key in self.overrides:
            return self.overrides[key](self, key, args, env)
        if "tr" in f:
            k = f["tr"] + "::" + f["n"]
            k = normpath(k)
            if r and r["id"] in self.prog.fns:
                fn = self.prog.fns[r["id"]]
                if fn.k == "fn":
                    renv = dict(env)
                    renv.update({n: self.subst(t, env if fr is None else fr.env) for n, t in r["a"]})
                    return self.call_body(fn, args, renv)
            m = self.models.get(k)
            im = None
            if k.split("::")[0] not in ("std", "core", "alloc") or m is None or f["tr"] in self.impl_index:
                self_t = env.get("Self")
                im = self.find_impl(f["tr"], self_t, args[0] if args else None)
            if im is not None:
                fk = im["items"].get(f["n"]) or im["defaults"].get(f["n"])
                if fk in self.overrides:
                    return self.overrides[fk](self, fk, args, env)
                if fk in self.prog.fns:
                    fn = self.prog.fns[fk]
                    renv = dict(env)
                    st = env.get("Self")
                    if type(st) is Ty:
                        bindty(im["self"], st, renv)
                    for (n, pt), (n2, at) in zip(im["a"], [(n, env.get(n)) for n, _ in im["a"]]):
                        if type(pt) is Ty and type(at) is Ty:
                            bindty(pt, at, renv)
                    return self.call_body(fn, args, renv)
            if m is None and f["id"] in self.prog.fns:      # default method body
                return self.call_body(self.prog.fns[f["id"]], args, env)
            if m is not None:
                self.modelsused.add(k)
                return self.runmodel(m, Call(f, env, args, k))
            if self.foreign is not None:
                return self.foreign(self, Call(f, env, args, k))
            raise Unsupported("trait call " + k)
        if f["id"] in self.prog.fns:
            return self.call_body(self.prog.fns[f["id"]], args, env)
        # tuple-struct / variant constructors
        k = normpath(f["p"])
        m = self.models.get(k)
        if m is None:
            mm = re.match(r"^core::num::<impl ([ui]\w+)>::(\w+)$", k) or re.match(r"^std::num::<impl ([ui]\w+)>::(\w+)$", k) \
                or re.match(r"^<?([ui](?:8|16|32|64|128|size))>?::(\w+)$", k)
            if mm:
                m = self.models.get("int::" + mm.group(2))
                if m:
                    self.modelsused.add("int::" + mm.group(2))
                    c = Call(f, env, args, k)
                    ty = mm.group(1)
                    it = f.get("implty")
                    c.w = (it.b if it is not None and it.k == "int" else 64) if ty.endswith("size") else int(ty[1:])
                    c.sg = ty[0] == "i"
                    return self.runmodel(m, c)
        if m is None:
            ctor = self.ctor(f, args)
            if ctor is not None:
                return ctor
            if k.startswith(("std::time::", "core::time::")):
                return Top("std::time")
            if self.foreign is not None:
                return self.foreign(self, Call(f, env, args, k))
            raise Unsupported("call to %s" % k)
        self.modelsused.add(k)
        return self.runmodel(m, Call(f, env, args, k))

    def runmodel(self, m, c):
        try:
            return m(self, c)
        except (Unsupported, TypeError, AttributeError, _NoField):
            if self.pc == 0:         # the path died in the middle of the model
                return None
            raise

    def ctor(self, f, args):
        id = f["id"]
        # Enum::Variant or Struct used as a function
        base, _, last = id.rpartition("::")
        for aid, vname in ((base, last), (id, None)):
            aid2 = aid
            if aid.endswith("::{constructor#0}"):
                aid2 = aid[:-len("::{constructor#0}")]
            ad = self.prog.adts.get(aid2)
            if ad is not None:
                if ad["k"] == "struct":
                    return Agg("adt", args, aid2, 0)
                for i, v in enumerate(ad["v"]):
                    if v[0] == vname:
                        return Agg("adt", args, aid2, i)
        if last.startswith("{constructor"):
            b2, _, v2 = base.rpartition("::")
            ad = self.prog.adts.get(b2)
            if ad is not None and ad["k"] == "enum":
                for i, v in enumerate(ad["v"]):
                    if v[0] == v2:
                        return Agg("adt", args, b2, i)
        return None

    def call_body(self, fn, args, env, keep=False):
        self.fnseen.add(fn.key)
        if self.depth > 200:
            raise Unsupported("call depth at " + fn.key)
        if fn.k == "closure" and fn.spread < 0 and False:
            pass
        n = len(fn.locals)
        base = self.ncell
        self.ncell += n
        st = self.st
        if len(args) != fn.argc:
            # closure bodies take their arguments untupled
            if fn.k == "closure" and len(args) == 2 and isinstance(args[1], Agg) and args[1].k == "tuple":
                args = [args[0]] + list(args[1].f)
            if len(args) != fn.argc:
                raise Unsupported("arity of %s" % fn.key)
        for i, a in enumerate(args):
            st[base + 1 + i] = a
        for i in range(fn.argc + 1, n):
            st[base + i] = UNINIT
        st[base] = UNIT if fn.locals[0].k == "tuple" and not fn.locals[0].ts else UNINIT
        fr = Frame(fn, base, env, self.depth)
        self.depth += 1
        self.stack.append(fn.key)
        saved = self.loc
        self.exec(fr, 0, len(fn.blocks))
        self.loc = saved
        self.stack.pop()
        self.depth -= 1
        if self.pc == 0:
            return None
        v = self.st.get(base)
        if not keep:
            s = self.st
            for i in range(base, base + n):
                s.pop(i, None)
        return v

    # ------------------------------------------------------------ convenience
    def panicguard(self, pred=None):
        g = 0
        for h, why, where in self.panics:
            if pred is None or pred(why, where):
                g = B.or_(g, h)
        return g


class _NoField(Exception):
    pass


class Call:
    __slots__ = ("f", "env", "args", "key", "w", "sg")

    def __init__(self, f, env, args, key):
        self.f, self.env, self.args, self.key = f, env, args, key
        self.w = self.sg = None


def add_idx(s, i):
    if isinstance(s, int) and isinstance(i, int):
        return s + i
    r = B.badd(s, i, 64)
    return r if isinstance(r, int) else ("x", r)


def tymatch(pat, t):
    """does the impl header type pat (with params) match the concrete type t"""
    if type(pat) is not Ty or type(t) is not Ty:
        return True
    if pat.k == "param" or t.k in ("param", "alias"):
        return True
    if pat.k != t.k:
        return False
    if pat.k == "adt":
        return pat.id == t.id and all(tymatch(a[1], b[1]) for a, b in zip(pat.args, t.args))
    if pat.k == "int":
        return pat.s == t.s
    if pat.k in ("ref", "ptr", "slice", "array"):
        return tymatch(pat.t, t.t)
    if pat.k == "tuple":
        return len(pat.ts) == len(t.ts) and all(tymatch(a, b) for a, b in zip(pat.ts, t.ts))
    return True


def bindty(pat, t, env):
    if type(pat) is not Ty:
        if type(pat) is tuple and pat[0] == "cp" and isinstance(t, int):
            env[pat[1]] = t
        return
    if pat.k == "param":
        env[pat.name] = t
        return
    if type(t) is not Ty:
        return
    if pat.k == "adt" and t.k == "adt":
        for a, b in zip(pat.args, t.args):
            bindty(a[1], b[1], env)
    elif pat.k in ("ref", "ptr", "slice", "array") and t.k == pat.k:
        bindty(pat.t, t.t, env)
