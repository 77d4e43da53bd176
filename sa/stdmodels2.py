"""Further standard-library operations (those a rewrite of the analysed code could reasonably turn to)."""
import functools
import bdd as B
from interp import Agg, Ref, Union, Model, UNIT, Unsupported, merge, isint, Call
import stdmodels as S
from stdmodels import (M, model, imodel, iop, some, NONE, ok, err, optg, bit, boolv, split_opt, _branch, deep, eqv, alts, adapt, fcell,
                       to_iter, drain, It, ItSeq, ItRev, _findlike, ORD, OPT, RES, _argv)

CF = "core::ops::control_flow::ControlFlow"
LESS, EQUAL, GREATER = (Agg("adt", [], ORD, i) for i in range(3))


# ---------------------------------------------------------------- control flow values
def _good(a):
    return (a.id == OPT and a.var == 1) or (a.id in (RES, CF) and a.var == 0)


def try_split(v):
    """(guard of 'continue', payload, residual)"""
    g, p, e = 0, None, None
    for h, a in alts(v):
        if _good(a):
            g = B.or_(g, h)
            p = a.f[0] if p is None else merge(h, a.f[0], p)
        else:
            e = a if e is None else merge(h, a, e)
    return g, p, e


@model("std::ops::Try::branch")
def _(I, c):
    out = None
    for h, a in alts(c.args[0]):
        b = Agg("adt", [a.f[0] if _good(a) else a], CF, 0 if _good(a) else 1)
        out = b if out is None else merge(h, b, out)
    return out


def _wrap(t, v):
    p = getattr(t, "p", "") or ""
    if p.endswith("::Option"):
        return some(v)
    if p.endswith("::Result"):
        return ok(v)
    if p.endswith("::ControlFlow"):
        return Agg("adt", [v], CF, 0)
    raise Unsupported("try output of %s" % getattr(t, "s", t))


M["std::ops::Try::from_output"] = lambda I, c: _wrap(c.env.get("Self"), c.args[0])


def _try_fold(I, c, back=False, acc0=None, each=False):
    a = c.args[0]
    it = to_iter(I, I.read(a)) if isinstance(a, Ref) else to_iter(I, a)
    if back:
        it = ItRev(it)
    f = fcell(I, c.args[1] if each else c.args[2])
    rt = c.env.get("R")

    def step(acc, it):
        while True:
            g, x, it = it.next(I)
            if I.pc == 0:
                return None
            if g == 0:
                return _wrap(rt, acc)
            if g != 1:
                raise Unsupported("try_fold over symbolic iterator")
            r = I.callv(f, [x] if each else [acc, x])
            if I.pc == 0:
                return None
            h, p, e = try_split(r)
            if h == 0:
                if isinstance(a, Ref):
                    I.write(a, it.a[0] if back else it)
                return r
            if h == 1 or B.and_(I.pc, B.not_(h)) == 0:
                acc = p
                continue
            return _branch(I, h, lambda: step(p, it), lambda: e)
    r = step(UNIT if each else c.args[1], it)
    return r


adapt("try_fold", lambda I, c: _try_fold(I, c))
adapt("try_for_each", lambda I, c: _try_fold(I, c, each=True))
M["std::iter::DoubleEndedIterator::try_rfold"] = lambda I, c: _try_fold(I, c, back=True)
for _n in ("is_break", "is_continue"):
    M["std::ops::ControlFlow::" + _n] = lambda I, c, _b=_n == "is_continue": boolv(
        try_split(deep(I, c.args[0]))[0] if _b else B.not_(try_split(deep(I, c.args[0]))[0]))


@model("std::ops::ControlFlow::break_value")
def _(I, c):
    g, p, e = try_split(c.args[0])
    return optg(B.not_(g), e.f[0]) if e is not None else NONE


@model("std::ops::ControlFlow::continue_value")
def _(I, c):
    g, p, e = try_split(c.args[0])
    return optg(g, p) if p is not None else NONE


# ------------------------------------------------------------------------- iterators
def _rposition(I, c):
    a = c.args[0]
    it = to_iter(I, I.read(a)) if isinstance(a, Ref) else to_iter(I, a)
    n = it.size(I)
    if not isinstance(n, int):
        raise Unsupported("rposition of symbolic length")
    return _findlike(I, Call(c.f, c.env, [ItRev(it), c.args[1]], c.key), False, lambda i, x: n - 1 - i)


adapt("rposition", _rposition)


class ItMapWhile(It):
    def next(self, I):
        it, f, done = self.a
        if done:
            return 0, None, self
        g, x, it2 = it.next(I)
        if g == 0:
            return 0, None, self
        h, p, _ = split_opt(I, I.callv(f, [x]))
        if h == 0:
            return 0, None, ItMapWhile(it2, f, True)
        if h != 1:
            raise Unsupported("map_while on symbolic predicate")
        return 1, p, ItMapWhile(it2, f, False)


class ItFromFn(It):
    def next(self, I):
        v = I.callv(self.a[0], [])
        if I.pc == 0:
            return 0, None, self
        if not self.a[1]:
            return 1, v, self
        g, p, _ = split_opt(I, v)
        if g not in (0, 1) and B.and_(I.pc, B.not_(g)) == 0:
            g = 1
        if g not in (0, 1) and B.and_(I.pc, g) == 0:
            g = 0
        return g, p, self


class ItRChunks(It):
    def next(self, I):
        r, n, k, exact = self.a
        if n == 0 or (exact and n < k):
            return 0, None, self
        s = max(0, n - k)
        return 1, I.sub(r, ("w", s, n - s)), ItRChunks(r, s, k, exact)

    def size(self, I):
        r, n, k, exact = self.a
        return n // k if exact else -(-n // k)


adapt("map_while", lambda I, c: ItMapWhile(to_iter(I, c.args[0]), fcell(I, c.args[1]), False))
M["std::iter::from_fn"] = lambda I, c: ItFromFn(fcell(I, c.args[0]), True)
M["std::iter::repeat_with"] = lambda I, c: ItFromFn(fcell(I, c.args[0]), False)
M["std::iter::once_with"] = lambda I, c: ItSeq((I.callv(c.args[0], []),), 0, 1, "val")
for _n in ("rchunks", "rchunks_mut", "rchunks_exact", "rchunks_exact_mut"):
    M["core::slice::<impl [T]>::" + _n] = lambda I, c, _e="exact" in _n: ItRChunks(c.args[0], I.length(c.args[0]), c.args[1], _e)


def ordv(v):
    """(less, equal, greater) guards of an Ordering"""
    g = [0, 0, 0]
    for h, a in alts(v):
        g[a.var] = B.or_(g[a.var], h)
    return g


def _byf(I, c, mx):
    items = drain(I, c.args[0])
    if not items:
        return NONE
    f = fcell(I, c.args[1])
    r = items[0]
    for x in items[1:]:
        lt, eq, gt = ordv(I.callv(f, [Ref(I.newcell(r)), Ref(I.newcell(x))]))
        r = merge(B.or_(lt, eq) if mx else gt, x, r)
    return some(r)


adapt("max_by", lambda I, c: _byf(I, c, True))
adapt("min_by", lambda I, c: _byf(I, c, False))


def _seqs(I, c):
    return [deep(I, x) for x in drain(I, c.args[0])], [deep(I, x) for x in drain(I, c.args[1])]


def _seqeq(I, c):
    a, b = _seqs(I, c)
    r = 1 if len(a) == len(b) else 0
    for x, y in zip(a, b):
        r = B.and_(r, eqv(I, x, y))
    return r


adapt("eq", lambda I, c: boolv(_seqeq(I, c)))
adapt("ne", lambda I, c: boolv(B.not_(_seqeq(I, c))))


def _rfindmap(I, c):
    a = c.args[0]
    n = c.args[1]
    it = to_iter(I, I.read(a))
    g, x = 0, None
    for _ in range(n + 1):
        g, x, it = it.back(I)
        if g == 0:
            break
    I.write(a, it)
    return optg(g, x) if g else NONE


M["std::iter::DoubleEndedIterator::nth_back"] = _rfindmap


# ---------------------------------------------------------------------------- slices
def smodel(*names):
    return model(*[p + n for n in names for p in ("core::slice::<impl [T]>::", "std::slice::<impl [T]>::", "alloc::slice::<impl [T]>::")])


def seq(I, r):
    v = I.read(r)
    if not isinstance(v, Agg):
        raise Unsupported("symbolic slice")
    return list(v.f)


def put(I, r, f):
    if r.win is None:
        v = I.read(r)
        I.write(r, Agg(v.k, f, v.id, v.var))
        return UNIT
    for i, x in enumerate(f):
        I.write(I.sub(r, i), x)
    return UNIT


@smodel("ends_with")
def _(I, c):
    a, b = seq(I, c.args[0]), seq(I, c.args[1])
    r = 1 if len(b) <= len(a) else 0
    for x, y in zip(reversed(a), reversed(b)):
        r = B.and_(r, eqv(I, x, y))
    return boolv(r)


@smodel("fill_with")
def _(I, c):
    f = fcell(I, c.args[1])
    return put(I, c.args[0], [I.callv(f, []) for _ in seq(I, c.args[0])])


@smodel("copy_within")
def _(I, c):
    f = seq(I, c.args[0])
    s, e = S.as_range(I, c.args[1], len(f))
    d = c.args[2]
    if not isinstance(d, int):
        raise Unsupported("copy_within")
    I.panic(1 if e > len(f) or s > e or d + e - s > len(f) else 0, "copy_within out of bounds")
    if I.pc == 0:
        return None
    f[d:d + e - s] = f[s:e]
    return put(I, c.args[0], f)


@smodel("rotate_left", "rotate_right")
def _(I, c):
    f, k = seq(I, c.args[0]), c.args[1]
    if not isinstance(k, int):
        raise Unsupported("symbolic rotate")
    I.panic(1 if k > len(f) else 0, "rotate out of bounds")
    if I.pc == 0:
        return None
    if c.key.endswith("right"):
        k = len(f) - k
    return put(I, c.args[0], f[k:] + f[:k])


@smodel("swap_with_slice")
def _(I, c):
    a, b = seq(I, c.args[0]), seq(I, c.args[1])
    I.panic(1 if len(a) != len(b) else 0, "swap_with_slice length mismatch")
    if I.pc == 0:
        return None
    put(I, c.args[0], b)
    return put(I, c.args[1], a)


def known(I, x):
    x = deep(I, x)
    if isinstance(x, Agg):
        return tuple(known(I, y) for y in x.f)
    if isinstance(x, int):
        return x
    raise Unsupported("sort of symbolic values")


def _sg(I, t):
    return t is not None and t.k == "int" and t.sg


def _sortkey(I, c):
    t = c.env.get("T")

    def k(x):
        x = known(I, x)
        if isinstance(x, int) and _sg(I, t) and x >> (t.b - 1):
            x -= 1 << t.b
        return x
    return k


@smodel("sort", "sort_unstable")
def _(I, c):
    return put(I, c.args[0], sorted(seq(I, c.args[0]), key=_sortkey(I, c)))


@smodel("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key")
def _(I, c):
    f = fcell(I, c.args[1])
    return put(I, c.args[0], sorted(seq(I, c.args[0]), key=lambda x: known(I, I.callv(f, [Ref(I.newcell(x))]))))


@smodel("sort_by", "sort_unstable_by")
def _(I, c):
    f = fcell(I, c.args[1])

    def cmp(x, y):
        g = ordv(I.callv(f, [Ref(I.newcell(x)), Ref(I.newcell(y))]))
        if 1 not in g:
            raise Unsupported("sort by symbolic order")
        return g.index(1) - 1
    return put(I, c.args[0], sorted(seq(I, c.args[0]), key=functools.cmp_to_key(cmp)))


@smodel("partition_point")
def _(I, c):
    f = fcell(I, c.args[1])
    r = c.args[0]
    n = len(seq(I, r))
    g = [bit(I.callv(f, [I.sub(r, i)])) for i in range(n)]
    out, rest = n, 1
    ks = []
    for i, x in enumerate(g):
        ks.append((B.and_(rest, B.not_(x)), i))
        rest = B.and_(rest, x)
    for h, i in reversed(ks):
        out = merge(h, i, out)
    return out


@smodel("binary_search")
def _(I, c):
    f, k = seq(I, c.args[0]), _sortkey(I, c)
    x = k(c.args[1])
    l = [k(y) for y in f]
    if x in l:
        if l.count(x) > 1:
            raise Unsupported("binary_search among equal keys")
        return ok(l.index(x))
    return err(sum(1 for y in l if y < x))


@smodel("is_sorted")
def _(I, c):
    l = [_sortkey(I, c)(y) for y in seq(I, c.args[0])]
    return 1 if l == sorted(l) else 0


@smodel("swap")
def _(I, c):
    r, i, j = c.args
    n = I.length(r)
    for k in (i, j):
        I.panic(B.not_(B.bult(k, n, 64)), "index out of bounds")
    if I.pc == 0:
        return None
    a, b = I.sub(r, i), I.sub(r, j)
    x, y = I.read(a), I.read(b)
    I.write(a, y)
    I.write(b, x)
    return UNIT


@smodel("first_chunk", "first_chunk_mut")
def _(I, c):
    n = c.env.get("N")
    return some(I.sub(c.args[0], ("w", 0, n))) if n <= I.length(c.args[0]) else NONE


# ------------------------------------------------------------------------------- Vec
@model("std::vec::Vec::resize_with")
def _(I, c):
    f, n = seq(I, c.args[0]), c.args[1]
    h = fcell(I, c.args[2])
    f = f[:n] + [I.callv(h, []) for _ in range(n - len(f))]
    I.write(c.args[0], Agg("vec", f))
    return UNIT


@model("std::vec::Vec::split_off")
def _(I, c):
    f, n = seq(I, c.args[0]), c.args[1]
    I.panic(1 if n > len(f) else 0, "split_off out of bounds")
    if I.pc == 0:
        return None
    I.write(c.args[0], Agg("vec", f[:n]))
    return Agg("vec", f[n:])


@model("std::vec::Vec::retain", "std::vec::Vec::retain_mut")
def _(I, c):
    h = fcell(I, c.args[1])
    out = []
    for x in seq(I, c.args[0]):
        cell = Ref(I.newcell(x))
        v = bit(I.callv(h, [cell]))
        if v not in (0, 1):
            raise Unsupported("retain on symbolic predicate")
        if v:
            out.append(I.read(cell))
    I.write(c.args[0], Agg("vec", out))
    return UNIT


@model("std::vec::Vec::dedup")
def _(I, c):
    out = []
    for x in seq(I, c.args[0]):
        v = eqv(I, out[-1], x) if out else 0
        if v not in (0, 1):
            raise Unsupported("dedup of symbolic values")
        if not v:
            out.append(x)
    I.write(c.args[0], Agg("vec", out))
    return UNIT


@model("std::vec::Vec::extend_from_within")
def _(I, c):
    f = seq(I, c.args[0])
    s, e = S.as_range(I, c.args[1], len(f))
    I.write(c.args[0], Agg("vec", f + f[s:e]))
    return UNIT


# ------------------------------------------------------------------- Option / Result
@model("std::option::Option::and", "std::result::Result::and")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return c.args[1] if g == 1 else e if g == 0 else merge(g, c.args[1], e)


@model("std::option::Option::xor")
def _(I, c):
    g, p, _ = split_opt(I, c.args[0])
    h, q, _ = split_opt(I, c.args[1])
    l, r = B.and_(g, B.not_(h)), B.and_(h, B.not_(g))
    v = p if q is None else q if p is None else merge(l, p, q)
    return optg(B.or_(l, r), v)


def _payload(r):
    return Ref(r.cell, r.path + (("v", 1), ("f", 0)), r.win)


@model("std::option::Option::get_or_insert", "std::option::Option::get_or_insert_with")
def _(I, c):
    r = c.args[0]
    g, p, _ = split_opt(I, I.read(r))
    if g != 1:
        v = _branch(I, g, lambda: p, lambda: I.callv(c.args[1], []) if c.key.endswith("with") else c.args[1])
        I.write(r, some(v))
    return _payload(r)


@model("std::option::Option::insert")
def _(I, c):
    I.write(c.args[0], some(c.args[1]))
    return _payload(c.args[0])


@model("std::option::Option::take_if")
def _(I, c):
    r = c.args[0]
    v = I.read(r)
    g, p, _ = split_opt(I, v)
    if g == 0:
        return NONE
    h = B.and_(g, bit(I.callv(c.args[1], [_payload(r)])))
    I.write(r, optg(B.and_(g, B.not_(h)), p))
    return optg(h, p)


@model("std::option::Option::flatten", "std::result::Result::flatten")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return p if g == 1 else e if g == 0 else merge(g, p, e)


@model("std::option::Option::inspect", "std::result::Result::inspect")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    _branch(I, g, lambda: I.callv(c.args[1], [Ref(I.newcell(p))]), lambda: UNIT)
    return c.args[0]


@model("std::result::Result::inspect_err")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    _branch(I, g, lambda: UNIT, lambda: I.callv(c.args[1], [Ref(I.newcell(e.f[0]))]))
    return c.args[0]


@model("std::option::Option::unzip")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return Agg("tuple", [optg(g, p.f[0]) if g else NONE, optg(g, p.f[1]) if g else NONE])


@model("std::option::Option::transpose")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    if g == 0:
        return ok(NONE)
    h, q, r = split_opt(I, p)
    good = ok(some(q)) if q is not None else None
    inner = good if r is None else r if good is None else merge(h, good, r)
    return inner if g == 1 else merge(g, inner, ok(NONE))


@model("std::result::Result::transpose")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    bad = some(e) if e is not None else None
    if g == 0:
        return bad
    h, q, r = split_opt(I, p)
    inner = optg(h, ok(q)) if h else NONE
    return inner if bad is None else merge(g, inner, bad)


@model("std::result::Result::err")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return optg(B.not_(g), e.f[0]) if e is not None else NONE


@model("std::result::Result::map_or")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return _branch(I, g, lambda: I.callv(c.args[2], [p]), lambda: c.args[1])


@model("std::result::Result::map_or_else")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return _branch(I, g, lambda: I.callv(c.args[2], [p]), lambda: I.callv(c.args[1], [e.f[0]]))


@model("std::result::Result::is_err_and")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return _branch(I, g, lambda: 0, lambda: I.callv(c.args[1], [e.f[0]]))


@model("std::result::Result::copied", "std::result::Result::cloned")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    if g == 0:
        return e
    v = ok(I.read(p))
    return v if g == 1 else merge(g, v, e)


# -------------------------------------------------------------------------- Ordering
@model("std::cmp::Ordering::then")
def _(I, c):
    l, e, g = ordv(c.args[0])
    return c.args[1] if e == 1 else merge(e, c.args[1], c.args[0]) if e else c.args[0]


@model("std::cmp::Ordering::then_with")
def _(I, c):
    l, e, g = ordv(c.args[0])
    return _branch(I, e, lambda: I.callv(c.args[1], []), lambda: c.args[0])


@model("std::cmp::Ordering::reverse")
def _(I, c):
    l, e, g = ordv(c.args[0])
    return merge(e, EQUAL, merge(l, GREATER, LESS))


for _n, _ix in (("is_lt", (0,)), ("is_eq", (1,)), ("is_gt", (2,)), ("is_le", (0, 1)), ("is_ge", (1, 2)), ("is_ne", (0, 2))):
    M["std::cmp::Ordering::" + _n] = lambda I, c, _ix=_ix: boolv(functools.reduce(B.or_, [ordv(deep(I, c.args[0]))[i] for i in _ix]))


# -------------------------------------------------------------------------- integers
@imodel("checked_neg")
def _(I, c):
    a = _argv(I, c.args[0])
    z = B.beq(a, 1 << (c.w - 1), c.w) if c.sg else B.not_(B.beq(a, 0, c.w))
    return optg(B.not_(z), B.bneg(a, c.w))


@imodel("overflowing_neg")
def _(I, c):
    a = _argv(I, c.args[0])
    z = B.beq(a, 1 << (c.w - 1), c.w) if c.sg else B.not_(B.beq(a, 0, c.w))
    return Agg("tuple", [B.bneg(a, c.w), boolv(z)])


M["int::min_value"] = lambda I, c: 1 << (c.w - 1) if c.sg else 0
M["int::max_value"] = lambda I, c: (1 << (c.w - 1)) - 1 if c.sg else (1 << c.w) - 1


@imodel("checked_pow")
def _(I, c):
    a, b = _argv(I, c.args[0]), _argv(I, c.args[1])
    if not (isinstance(a, int) and isinstance(b, int)) or c.sg:
        raise Unsupported("checked_pow")
    return some(a ** b) if a ** b < 1 << c.w else NONE


def _shiftw(name, left):
    def f(I, c):
        a, n = _argv(I, c.args[0]), _argv(I, c.args[1])
        lw = (c.w - 1).bit_length()
        big = B.not_(B.bult(n, c.w, 32))
        k = B.trunc(n, lw)
        v = B.bshl(a, k, c.w, lw) if left else B.bshr(a, k, c.w, lw, bool(c.sg))
        z = B.bite(B.bits(a, c.w)[c.w - 1], (1 << c.w) - 1, 0) if not left and c.sg else 0
        return B.bite(big, z, v)
    M["int::" + name] = f


_shiftw("unbounded_shl", True)
_shiftw("unbounded_shr", False)


@imodel("checked_next_power_of_two")
def _(I, c):
    a = _argv(I, c.args[0])
    if not isinstance(a, int):
        raise Unsupported("next_power_of_two")
    n = 1 << max(0, (a - 1).bit_length()) if a else 1
    return some(n) if n < 1 << c.w else NONE


@imodel("bit_width")
def _(I, c):
    a = _argv(I, c.args[0])
    if not isinstance(a, int):
        raise Unsupported("bit_width")
    return a.bit_length()


# ---------------------------------------------------------------------------- arrays
for _n in ("each_ref", "each_mut"):
    for _p in ("std::array::<impl [T; N]>::", "core::array::<impl [T; N]>::"):
        M[_p + _n] = lambda I, c: Agg("array", [I.sub(c.args[0], i) for i in range(I.length(c.args[0]))])


# -------------------------------------------------------------------------- VecDeque
VD = "std::collections::VecDeque::"
for _a, _b in (("push_back", "push"), ("pop_back", "pop"), ("len", "len"), ("is_empty", "is_empty"), ("clear", "clear"), ("truncate", "truncate"),
               ("with_capacity", "new"), ("append", "append"), ("drain", "drain"), ("insert", "insert")):
    M[VD + _a] = M["std::vec::Vec::" + _b]
for _a in ("iter", "iter_mut", "get", "get_mut", "contains", "swap", "rotate_left", "rotate_right"):
    M[VD + _a] = M["core::slice::<impl [T]>::" + _a]
M[VD + "front"] = M[VD + "front_mut"] = M["core::slice::<impl [T]>::first"]
M[VD + "back"] = M[VD + "back_mut"] = M["core::slice::<impl [T]>::last"]


@model(VD + "push_front")
def _(I, c):
    I.write(c.args[0], Agg("vec", [c.args[1]] + seq(I, c.args[0])))
    return UNIT


@model(VD + "pop_front")
def _(I, c):
    f = seq(I, c.args[0])
    if not f:
        return NONE
    I.write(c.args[0], Agg("vec", f[1:]))
    return some(f[0])
