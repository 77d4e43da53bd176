"""Semantics of the standard-library operations the analysed code uses."""
import bdd as B
from bdd import BV
from interp import (Agg, Ref, Union, FnV, StrV, Top, Tainted, UNINIT, MapV, Model, UNIT, Unsupported, merge, isint,
                    shape, Call, add_idx, _NoField)

M = {}
OPT = "core::option::Option"
RES = "core::result::Result"
ORD = "core::cmp::Ordering"


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
            if n.startswith("std::"):
                M["core::" + n[5:]] = f
                M["alloc::" + n[5:]] = f
        return f
    return deco


def some(v):
    return Agg("adt", [v], OPT, 1)


NONE = Agg("adt", [], OPT, 0)


def ok(v):
    return Agg("adt", [v], RES, 0)


def err(v):
    return Agg("adt", [v], RES, 1)


def optg(g, v):
    """Some(v) where g holds"""
    if g == 1:
        return some(v)
    if g == 0:
        return NONE
    return Union([(g, some(v)), (B.not_(g), NONE)])


def bit(v):
    if isinstance(v, Top):
        raise Unsupported("condition on unknown value (%s)" % v.why)
    return B.bits(v, 1)[0]


def boolv(n):
    return B.bv([n])


# ------------------------------------------------------------------ panics
def _panic(I, c):
    why = c.key.split("::")[-1]
    I.panic(1, why)
    return None


for n in ("core::panicking::panic", "core::panicking::panic_fmt", "std::rt::panic_fmt", "std::rt::begin_panic", "std::rt::panic_display",
          "core::panicking::assert_failed", "core::panicking::unimplemented_default_msg", "core::panicking::unreachable_display",
          "core::panicking::unreachable_default_msg", "core::panicking::todo_default_msg", "core::panicking::panic_default_msg",
          "core::panicking::panic_str_2015", "core::panicking::panic_nounwind_fmt", "core::panicking::panic_nounwind_nobacktrace",
          "core::panicking::panic_display", "core::panicking::panic_explicit", "core::panicking::panic_nounwind",
          "core::option::expect_failed", "core::result::unwrap_failed", "std::process::exit", "std::process::abort",
          "core::panicking::panic_bounds_check", "core::panicking::panic_const::panic_const_div_by_zero"):
    M[n] = _panic


def _top(I, c):
    return Top(c.key)


def _unit(I, c):
    return UNIT


for n in ("core::fmt::rt::Argument::new_binary", "core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug",
          "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::new_upper_hex", "core::fmt::rt::Argument::new_lower_exp",
          "core::fmt::rt::Argument::new_octal", "core::fmt::rt::Argument::new_pointer",
          "std::fmt::Arguments::from_str", "std::fmt::Arguments::new", "std::fmt::Arguments::new_const",
          "std::fmt::Arguments::new_v1", "std::fmt::Arguments::new_v1_formatted", "std::fmt::format", "core::fmt::rt::Argument::from_usize",
          "std::string::ToString::to_string", "std::f64::<impl f64>::log2", "core::f64::<impl f64>::max", "core::f64::<impl f64>::min",
          "std::f64::<impl f64>::sqrt", "std::f64::<impl f64>::powi", "std::f64::<impl f64>::ln", "std::f64::<impl f64>::log10",
          "core::fmt::rt::Placeholder::new", "core::fmt::rt::UnsafeArg::new", "std::fmt::Display::fmt", "std::fmt::Debug::fmt",
          "std::fmt::Formatter::write_str", "std::fmt::Write::write_str", "std::fmt::Write::write_fmt", "std::fmt::Formatter::write_fmt",
          "std::time::Duration::as_secs_f64", "std::time::Duration::as_millis", "std::time::Duration::as_micros",
          "std::time::Duration::as_secs", "std::time::Duration::as_nanos",
          "std::time::Instant::duration_since", "std::time::Instant::elapsed", "std::time::Instant::now", "std::io::stderr", "std::io::stdout"):
    M[n] = _top
for n in ("std::io::_print", "std::io::_eprint", "std::mem::drop", "std::mem::forget", "std::io::Write::flush",
          "std::hint::black_box", "core::intrinsics::assume"):
    M[n] = _unit


@model("std::path::Path::exists", "std::path::Path::is_file", "std::path::Path::is_dir")
def _(I, c):
    return Top("world: file system")


@model("std::hint::must_use", "std::convert::identity", "std::hint::black_box")
def _ident(I, c):
    return c.args[0]


# ---------------------------------------------------------------- integers
def imodel(name):
    def deco(f):
        M["int::" + name] = f
        return f
    return deco


def _argv(I, v):
    while isinstance(v, Ref):
        v = I.read(v)
    return v


def iop(name, f):
    def g(I, c):
        a = [_argv(I, x) for x in c.args]
        if any(isinstance(x, Top) for x in a):
            return Top("int op on unknown")
        return f(c.w, c.sg, *a)
    M["int::" + name] = g


iop("wrapping_add", lambda w, s, a, b: B.badd(a, b, w))
iop("wrapping_sub", lambda w, s, a, b: B.bsub(a, b, w))
iop("wrapping_mul", lambda w, s, a, b: B.bmul(a, b, w))
iop("wrapping_neg", lambda w, s, a: B.bneg(a, w))
iop("wrapping_add_signed", lambda w, s, a, b: B.badd(a, b, w))
iop("wrapping_sub_unsigned", lambda w, s, a, b: B.bsub(a, b, w))
iop("wrapping_add_unsigned", lambda w, s, a, b: B.badd(a, b, w))
iop("unchecked_add", lambda w, s, a, b: B.badd(a, b, w))
iop("unchecked_sub", lambda w, s, a, b: B.bsub(a, b, w))
iop("cast_signed", lambda w, s, a: a)
iop("cast_unsigned", lambda w, s, a: a)


def _lw(w):
    return w.bit_length() - 1


iop("wrapping_shl", lambda w, s, a, b: B.bshl(a, B.trunc(b, _lw(w)), w, _lw(w)))
iop("unchecked_shl", lambda w, s, a, b: B.bshl(a, B.trunc(b, _lw(w)), w, _lw(w)))
iop("wrapping_shr", lambda w, s, a, b: B.bshr(a, B.trunc(b, _lw(w)), w, _lw(w), s))
iop("unchecked_shr", lambda w, s, a, b: B.bshr(a, B.trunc(b, _lw(w)), w, _lw(w), s))


def _rotl(w, s, a, b):
    k = B.trunc(b, _lw(w))
    return B.bor(B.bshl(a, k, w, _lw(w)), B.bshr(a, B.trunc(B.bneg(k, _lw(w)), _lw(w)), w, _lw(w)), w) if not isinstance(k, int) or k else a


iop("rotate_left", _rotl)
iop("rotate_right", lambda w, s, a, b: _rotl(w, s, a, B.trunc(B.bneg(B.trunc(b, _lw(w)), _lw(w)), _lw(w))))
iop("swap_bytes", lambda w, s, a: B.bv(sum([B.bits(a, w)[8 * i:8 * i + 8] for i in reversed(range(w // 8))], [])))
iop("reverse_bits", lambda w, s, a: B.bv(B.bits(a, w)[::-1]))
iop("to_le", lambda w, s, a: a)
iop("from_le", lambda w, s, a: a)


def _sovf(op):
    def f(w, s, a, b):
        from interp import Interp
        r = Interp.arith(None, op, a, b, w, s, w)
        return r.f[0], B.bits(r.f[1], 1)[0]
    return f


def _mulovf(I, w, s, a, b):
    return B.bmul(a, b, w), I.mulovf(a, b, w, s)


def _ovf3(I, name, w, s, a, b):
    if name == "mul":
        return _mulovf(I, w, s, a, b)
    return _sovf({"add": "AddWithOverflow", "sub": "SubWithOverflow"}[name])(w, s, a, b)


for _n in ("add", "sub", "mul"):
    def _mk(n):
        def over(I, c):
            v, o = _ovf3(I, n, c.w, c.sg, *[_argv(I, x) for x in c.args])
            return Agg("tuple", [v, boolv(o)])

        def chk(I, c):
            v, o = _ovf3(I, n, c.w, c.sg, *[_argv(I, x) for x in c.args])
            return optg(B.not_(o), v)

        def sat(I, c):
            a, b = [_argv(I, x) for x in c.args]
            v, o = _ovf3(I, n, c.w, c.sg, a, b)
            w = c.w
            if c.sg:
                neg = B.bits(a, w)[-1]
                if n == "mul":
                    neg = B.xor_(neg, B.bits(b, w)[-1])
                lim = B.bite(neg, 1 << (w - 1), (1 << (w - 1)) - 1)
            else:
                lim = 0 if n == "sub" else (1 << w) - 1
            return B.bite(o, lim, v)
        M["int::overflowing_" + n] = over
        M["int::checked_" + n] = chk
        M["int::saturating_" + n] = sat
    _mk(_n)


def _divchk(I, c):
    a, b = [_argv(I, x) for x in c.args]
    w = c.w
    z = B.beq(b, 0, w)
    o = B.and_(B.beq(a, 1 << (w - 1), w), B.beq(b, (1 << w) - 1, w)) if c.sg else 0
    q, r = B.sdivrem(a, b, w) if c.sg else B.udivrem(a, b, w)
    return a, b, z, o, q, r


@imodel("wrapping_div")
def _(I, c):
    a, b, z, o, q, r = _divchk(I, c)
    I.panic(z, "division by zero")
    return B.bite(o, a, q)


@imodel("wrapping_rem")
def _(I, c):
    a, b, z, o, q, r = _divchk(I, c)
    I.panic(z, "division by zero")
    return B.bite(o, 0, r)


@imodel("checked_div")
def _(I, c):
    a, b, z, o, q, r = _divchk(I, c)
    return optg(B.not_(B.or_(z, o)), q)


@imodel("checked_rem")
def _(I, c):
    a, b, z, o, q, r = _divchk(I, c)
    return optg(B.not_(B.or_(z, o)), r)


@imodel("overflowing_div")
def _(I, c):
    a, b, z, o, q, r = _divchk(I, c)
    I.panic(z, "division by zero")
    return Agg("tuple", [B.bite(o, a, q), boolv(o)])


@imodel("overflowing_rem")
def _(I, c):
    a, b, z, o, q, r = _divchk(I, c)
    I.panic(z, "division by zero")
    return Agg("tuple", [B.bite(o, 0, r), boolv(o)])


@imodel("div_ceil")
def _(I, c):
    a, b = [_argv(I, x) for x in c.args]
    I.panic(B.beq(b, 0, c.w), "division by zero")
    if isinstance(a, int) and isinstance(b, int):
        return -(-a // b) if b else 0
    q, r = B.udivrem(a, b, c.w)
    return B.bite(B.nonzero(r, c.w), B.badd(q, 1, c.w), q)


@imodel("next_multiple_of")
def _(I, c):
    a, b = [_argv(I, x) for x in c.args]
    if isinstance(a, int) and isinstance(b, int) and b:
        return -(-a // b) * b
    raise Unsupported("next_multiple_of")


@imodel("next_power_of_two")
def _(I, c):
    a = _argv(I, c.args[0])
    if isinstance(a, int):
        return 1 << max(0, (a - 1).bit_length()) if a > 1 else 1
    raise Unsupported("next_power_of_two")


@imodel("is_power_of_two")
def _(I, c):
    a = _argv(I, c.args[0])
    if isinstance(a, int):
        return 1 if a and a & (a - 1) == 0 else 0
    w = c.w
    return boolv(B.and_(B.nonzero(a, w), B.beq(B.band(a, B.bsub(a, 1, w), w), 0, w)))


def _clz(a, w):
    if isinstance(a, int):
        return w - a.bit_length()
    r = w
    for i, x in enumerate(B.bits(a, w)):
        r = B.bite(x, w - 1 - i, r)
    return r


iop("leading_zeros", lambda w, s, a: _clz(a, w))
iop("trailing_zeros", lambda w, s, a: _clz(B.bv(B.bits(a, w)[::-1]), w))
iop("leading_ones", lambda w, s, a: _clz(B.bnot(a, w), w))
iop("trailing_ones", lambda w, s, a: _clz(B.bv(B.bits(B.bnot(a, w), w)[::-1]), w))


@imodel("ilog2")
def _(I, c):
    a = _argv(I, c.args[0])
    I.panic(B.beq(a, 0, c.w), "ilog2 of zero")
    if isinstance(a, int):
        return max(0, a.bit_length() - 1)
    return B.bsub(c.w - 1, _clz(a, c.w), 32)


def _popcnt(w, s, a):
    r = 0
    for x in B.bits(a, w):
        r = B.badd(r, B.bv([x]), 8)
    return r


iop("count_ones", _popcnt)
iop("count_zeros", lambda w, s, a: _popcnt(w, s, B.bnot(a, w)))


@imodel("pow")
def _(I, c):
    a, b = [_argv(I, x) for x in c.args]
    if isinstance(a, int) and isinstance(b, int):
        r = a ** b
        if r >> c.w:
            I.panic(1, "overflow")
        return r & ((1 << c.w) - 1)
    if a == 2:
        return B.bshl(1, B.trunc(b, _lw(c.w)), c.w, _lw(c.w))
    raise Unsupported("pow")


M["int::wrapping_pow"] = M["int::pow"]


@imodel("abs_diff")
def _(I, c):
    a, b = [_argv(I, x) for x in c.args]
    lt = B.bslt(a, b, c.w) if c.sg else B.bult(a, b, c.w)
    return B.bite(lt, B.bsub(b, a, c.w), B.bsub(a, b, c.w))


def _abs(w, s, a):
    return B.bite(B.bits(a, w)[-1], B.bneg(a, w), a)


iop("abs", _abs)
iop("wrapping_abs", _abs)
iop("unsigned_abs", _abs)
iop("signum", lambda w, s, a: B.bite(B.bits(a, w)[-1], (1 << w) - 1, B.bite(B.nonzero(a, w), 1, 0)))
iop("is_negative", lambda w, s, a: boolv(B.bits(a, w)[-1]))
iop("is_positive", lambda w, s, a: boolv(B.and_(B.not_(B.bits(a, w)[-1]), B.nonzero(a, w))))


def _euclid(I, c):
    a, b, z, o, q, r = _divchk(I, c)
    I.panic(z, "division by zero")
    if not c.sg:
        return q, r
    I.panic(o, "attempt to divide with overflow")
    neg, bneg = B.bits(r, c.w)[-1], B.bits(b, c.w)[-1]
    q2 = B.bite(bneg, B.badd(q, 1, c.w), B.bsub(q, 1, c.w))
    r2 = B.badd(r, B.bite(bneg, B.bneg(b, c.w), b), c.w)
    return B.bite(neg, q2, q), B.bite(neg, r2, r)


M["int::rem_euclid"] = lambda I, c: _euclid(I, c)[1]
M["int::div_euclid"] = lambda I, c: _euclid(I, c)[0]


@imodel("to_le_bytes")
def _(I, c):
    v = _argv(I, c.args[0])
    x = B.bits(v, c.w)
    return Agg("array", [B.bv(x[i:i + 8]) for i in range(0, c.w, 8)])


M["int::to_ne_bytes"] = M["int::to_le_bytes"]


@imodel("to_be_bytes")
def _(I, c):
    v = _argv(I, c.args[0])
    x = B.bits(v, c.w)
    return Agg("array", [B.bv(x[i:i + 8]) for i in range(0, c.w, 8)][::-1])


@imodel("from_le_bytes")
def _(I, c):
    a = c.args[0]
    if any(not isint(x) for x in a.f):
        return Top("bytes")
    return B.bv(sum([B.bits(x, 8) for x in a.f], []))


M["int::from_ne_bytes"] = M["int::from_le_bytes"]


@imodel("from_be_bytes")
def _(I, c):
    return B.bv(sum([B.bits(x, 8) for x in reversed(c.args[0].f)], []))


@imodel("checked_shl")
def _(I, c):
    a, b = [_argv(I, x) for x in c.args]
    return optg(B.bult(b, c.w, 32), B.bshl(a, B.trunc(b, _lw(c.w)), c.w, _lw(c.w)))


@imodel("checked_shr")
def _(I, c):
    a, b = [_argv(I, x) for x in c.args]
    return optg(B.bult(b, c.w, 32), B.bshr(a, B.trunc(b, _lw(c.w)), c.w, _lw(c.w), c.sg))


@imodel("checked_ilog2")
def _(I, c):
    a = _argv(I, c.args[0])
    return optg(B.nonzero(a, c.w), B.bsub(c.w - 1, _clz(a, c.w), 32))


# operator traits on references and generics
def _tyw(I, c, nm="Self"):
    t = c.env.get(nm)
    while t is not None and getattr(t, "k", "") == "ref":
        t = t.t
    if t is None or t.k not in ("int", "bool", "char"):
        raise Unsupported("operator on %s" % (t,))
    return I.width(t)


_ARI = {"Add::add": "AddWithOverflow", "Sub::sub": "SubWithOverflow", "Mul::mul": "MulWithOverflow", "BitAnd::bitand": "BitAnd",
        "BitOr::bitor": "BitOr", "BitXor::bitxor": "BitXor", "Div::div": "Div", "Rem::rem": "Rem"}
for _n, _op in _ARI.items():
    def _mk2(op):
        def f(I, c):
            a, b = _argv(I, c.args[0]), _argv(I, c.args[1])
            if isinstance(a, Top) or isinstance(b, Top):
                for x in (a, b):
                    if isinstance(x, Top) and x.why.startswith(("std::time", "core::time")):
                        return x
                return Top("arith")
            w, sg = _tyw(I, c)
            if op in ("Div", "Rem"):
                I.panic(B.beq(b, 0, w), "division by zero")
            r = I.arith(op, a, b, w, sg, w)
            if op.endswith("Overflow"):
                I.panic(B.bits(r.f[1], 1)[0], "arithmetic overflow")
                return r.f[0]
            return r

        def fa(I, c):
            v = f(I, Call(c.f, c.env, [I.read(c.args[0]), c.args[1]], c.key))
            I.write(c.args[0], v)
            return UNIT
        return f, fa
    _f, _fa = _mk2(_op)
    M["std::ops::" + _n] = _f
    t, m = _n.split("::")
    M["std::ops::%sAssign::%s_assign" % (t, m)] = _fa
for _n, _op in (("Shl::shl", "Shl"), ("Shr::shr", "Shr")):
    def _mk3(op):
        def f(I, c):
            a, b = _argv(I, c.args[0]), _argv(I, c.args[1])
            w, sg = _tyw(I, c)
            try:
                rw, _ = _tyw(I, c, "Rhs")
            except Unsupported:
                rw = 64
            I.panic(B.not_(B.bult(b, w, rw)), "shift overflow")
            return I.arith(op, a, b, w, sg, rw)
        return f
    M["std::ops::" + _n] = _mk3(_op)


@model("std::ops::Not::not")
def _(I, c):
    w, _ = _tyw(I, c)
    return B.bnot(_argv(I, c.args[0]), w)


@model("std::ops::Neg::neg")
def _(I, c):
    w, _ = _tyw(I, c)
    return B.bneg(_argv(I, c.args[0]), w)


# -------------------------------------------------------------- comparisons
def deep(I, v):
    while isinstance(v, Ref):
        v = I.read(v)
    if isinstance(v, Union) and any(isinstance(a, Ref) for _, a in v.alts):
        out = None
        for g, a in reversed(v.alts):
            a = deep(I, a)
            out = a if out is None else merge(g, a, out)
        return out
    return v


def eqv(I, a, b):
    """node: structural equality"""
    a, b = deep(I, a), deep(I, b)
    if isint(a) and isint(b):
        return B.beq(a, b, 64, I.pc if B.LINEAR[0] else 1)
    if isinstance(a, Top) or isinstance(b, Top):
        raise Unsupported("comparison of unknown values")
    if isinstance(a, Union) or isinstance(b, Union):
        aa = a.alts if isinstance(a, Union) else [(1, a)]
        bb = b.alts if isinstance(b, Union) else [(1, b)]
        r = 0
        for g, x in aa:
            for h, y in bb:
                gh = B.and_(g, h)
                if gh:
                    r = B.or_(r, B.and_(gh, eqv(I, x, y)))
        return r
    if isinstance(a, StrV) or isinstance(b, StrV):
        sa = a.s if isinstance(a, StrV) else None
        sb = b.s if isinstance(b, StrV) else None
        if sa is None or sb is None:
            raise Unsupported("string comparison")
        return 1 if sa == sb else 0
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.k in ("array", "vec") and b.k in ("array", "vec"):
            if len(a.f) != len(b.f):
                return 0
        elif a.var != b.var or len(a.f) != len(b.f):
            return 0
        r = 1
        ps = list(zip(a.f, b.f))
        if B.LINEAR[0] and all(isint(x) and isint(y) for x, y in ps):
            # simplest elements first; what follows matters only where they agree
            ps = [p for p in ps if p[0] != p[1]]
            ps.sort(key=lambda p: len(B.support(B.bits(p[0], 64) + B.bits(p[1], 64))))
            for x, y in ps:
                u = B.and_(I.pc, r)
                if u == 0:
                    return 0
                r = B.and_(r, B.beq(x, y, 64, u))
            return r
        for x, y in ps:
            r = B.and_(r, eqv(I, x, y))
            if r == 0:
                return 0
        return r
    if a is b:
        return 1
    raise Unsupported("comparison of %r and %r" % (a, b))


@model("std::cmp::PartialEq::eq")
def _(I, c):
    return boolv(eqv(I, c.args[0], c.args[1]))


@model("std::cmp::PartialEq::ne")
def _(I, c):
    return boolv(B.not_(eqv(I, c.args[0], c.args[1])))


def _lt(I, c, a, b):
    a, b = deep(I, a), deep(I, b)
    w, sg = _tyw(I, c)
    return B.bslt(a, b, w) if sg else B.bult(a, b, w)


for _n, _sw, _ng in (("lt", 0, 0), ("gt", 1, 0), ("le", 1, 1), ("ge", 0, 1)):
    def _mk4(sw, ng):
        def f(I, c):
            a, b = c.args
            for x in (deep(I, a), deep(I, b)):
                if isinstance(x, Top) and x.why.startswith(("std::time", "core::time")):
                    return x
            if sw:
                a, b = b, a
            r = _lt(I, c, a, b)
            return boolv(B.not_(r) if ng else r)
        return f
    M["std::cmp::PartialOrd::" + _n] = _mk4(_sw, _ng)


def _cmp(I, c):
    a, b = c.args
    lt, eq = _lt(I, c, a, b), eqv(I, a, b)
    return merge(eq, Agg("adt", [], ORD, 1), merge(lt, Agg("adt", [], ORD, 0), Agg("adt", [], ORD, 2)))


M["std::cmp::Ord::cmp"] = _cmp
M["std::cmp::PartialOrd::partial_cmp"] = lambda I, c: some(_cmp(I, c))


@model("std::cmp::Ord::max", "std::cmp::max")
def _(I, c):
    a, b = c.args
    if isinstance(a, Top) or isinstance(b, Top):
        return Top("max")
    if "Self" not in c.env and "T" in c.env:
        c.env["Self"] = c.env["T"]
    return merge(_lt(I, c, b, a), a, b)


@model("std::cmp::Ord::min", "std::cmp::min")
def _(I, c):
    a, b = c.args
    if isinstance(a, Top) or isinstance(b, Top):
        return Top("min")
    if "Self" not in c.env and "T" in c.env:
        c.env["Self"] = c.env["T"]
    return merge(_lt(I, c, b, a), b, a)


@model("std::cmp::Ord::clamp")
def _(I, c):
    v, lo, hi = c.args
    return merge(_lt(I, c, v, lo), lo, merge(_lt(I, c, hi, v), hi, v))


# ----------------------------------------------------------- conversions etc.
@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "core::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::to_vec",
       "std::slice::<impl [T]>::into_vec", "core::slice::<impl [T]>::into_vec")
def _clone(I, c):
    v = c.args[0]
    if isinstance(v, Ref):
        t = c.env.get("Self")
        v = I.read(v)
        if c.key.endswith("to_vec") or c.key.endswith("into_vec") or (c.key.endswith("to_owned") and isinstance(v, Agg)):
            if isinstance(v, Agg):
                return Agg("vec", v.f)
            if hasattr(v, "awindow"):
                return v
            raise Unsupported("to_vec of %r" % (v,))
    return v


@model("std::clone::Clone::clone_from")
def _(I, c):
    I.write(c.args[0], I.read(c.args[1]))
    return UNIT


@model("std::marker::Copy::copy")
def _(I, c):
    return c.args[0]


@model("std::default::Default::default")
def _(I, c):
    t = c.env.get("Self")
    return default_of(I, t)


def default_of(I, t):
    if t.k in ("int", "bool"):
        return 0
    if t.k == "array" and isinstance(t.n, int):
        return Agg("array", [default_of(I, t.t)] * t.n)
    if t.k == "tuple":
        return Agg("tuple", [default_of(I, x) for x in t.ts])
    if t.k == "adt":
        if t.p.endswith("::Vec"):
            return Agg("vec", [])
        if t.p.split("::")[-1] in MAPKINDS:
            return MapV((), MAPKINDS[t.p.split("::")[-1]])
        if t.p.endswith("::Option"):
            return NONE
        if t.p.endswith("::String"):
            return StrV("")
    if t.k == "float":
        return Top("float")
    raise Unsupported("default of %s" % t.s)


def _conv(I, v, src, dst):
    while isinstance(v, Ref) and getattr(dst, "k", "") != "ref":
        v = I.read(v)
    if isint(v) and getattr(src, "k", "") == "int" and getattr(dst, "k", "") == "int":
        return I.intcast(v, src.b, src.sg, dst.b)
    if isinstance(v, Agg) and v.k == "array" and getattr(dst, "k", "") == "adt" and dst.p.endswith("::Vec"):
        return Agg("vec", v.f)
    if getattr(dst, "k", "") == "adt" and dst.p.endswith("::Option") and not (isinstance(v, Agg) and v.id == OPT):
        return some(v)
    return v


@model("std::convert::Into::into")
def _(I, c):
    dst = c.env.get("T")
    src = c.env.get("Self")
    im = None
    for x in I.impl_index.get("std::convert::From", []):
        if dst is not None and getattr(dst, "k", "") == "adt" and x["self"].k == "adt" and x["self"].id == dst.id:
            im = x
    if im is not None and "from" in im["items"] and im["items"]["from"] in I.prog.fns:
        return I.call_body(I.prog.fns[im["items"]["from"]], c.args, {})
    return _conv(I, c.args[0], src, dst)


@model("std::convert::From::from")
def _(I, c):
    return _conv(I, c.args[0], c.env.get("T"), c.env.get("Self"))


def _tryconv(I, c, src, dst):
    v = c.args[0]
    while isinstance(v, Ref) and getattr(dst, "k", "") in ("int", "array"):
        v = I.read(v)
    if isint(v) and getattr(src, "k", "") == "int" and getattr(dst, "k", "") == "int":
        W = max(src.b, dst.b) + 1
        x = B.bits(B.sext(v, src.b, W) if src.sg else v, W)
        okb = 1
        top = x[dst.b - 1] if dst.sg else 0
        for i in range(dst.b, W):
            okb = B.and_(okb, B.not_(B.xor_(x[i], top)))
        r = B.trunc(B.bv(x), dst.b)
        if okb == 1:
            return ok(r)
        return Union([(okb, ok(r)), (B.not_(okb), err(Top("TryFromIntError")))]) if okb else err(Top("TryFromIntError"))
    if isinstance(v, Agg) and v.k in ("array", "vec") and getattr(dst, "k", "") == "array" and isinstance(dst.n, int):
        return ok(Agg("array", v.f)) if len(v.f) == dst.n else err(Top("TryFromSliceError"))
    if isinstance(v, Ref) or isinstance(v, Agg):
        n = I.length(v) if isinstance(v, Ref) else len(v.f)
        tgt = dst
        isref = getattr(dst, "k", "") == "ref"
        arr = dst.t if isref else dst
        if getattr(arr, "k", "") == "array":
            want = I.subst(arr.n, c.env)
            if isinstance(want, int) and isinstance(n, int):
                return ok(v) if n == want else err(Top("TryFromSliceError"))
    raise Unsupported("try_into %s -> %s" % (src, dst))


@model("std::convert::TryInto::try_into")
def _(I, c):
    return _tryconv(I, c, c.env.get("Self"), c.env.get("T"))


@model("std::convert::TryFrom::try_from")
def _(I, c):
    return _tryconv(I, c, c.env.get("T"), c.env.get("Self"))


@model("std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut",
       "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice",
       "std::string::String::as_str", "std::array::<impl [T; N]>::as_slice", "core::array::<impl [T; N]>::as_slice",
       "std::array::<impl [T; N]>::as_mut_slice", "core::array::<impl [T; N]>::as_mut_slice", "std::vec::Vec::into_boxed_slice",
       "std::path::Path::new", "core::str::<impl str>::as_bytes", "std::string::String::as_bytes", "std::boxed::Box::as_ref",
       "std::boxed::Box::as_mut", "std::vec::Vec::as_ptr", "std::vec::Vec::as_mut_ptr")
def _deref(I, c):
    v = c.args[0]
    if isinstance(v, Ref):
        # reference to a cell that holds a reference (Box, &&T): look through when the pointee is itself a pointer
        try:
            x = I.read(v)
        except (_NoField, Unsupported):
            return v
        if isinstance(x, (Ref, StrV)):
            return x
        if isinstance(x, Model) and hasattr(x, "deref"):
            return x.deref(I)
        if isinstance(x, Agg) and x.id == "Lazy":
            import syncmodels
            return syncmodels.lazy_force(I, c)
    return v


@model("std::mem::replace")
def _(I, c):
    old = I.read(c.args[0])
    I.write(c.args[0], c.args[1])
    return old


@model("std::mem::take")
def _(I, c):
    old = I.read(c.args[0])
    I.write(c.args[0], default_of(I, c.env.get("T")))
    return old


@model("std::mem::swap")
def _(I, c):
    a, b = I.read(c.args[0]), I.read(c.args[1])
    I.write(c.args[0], b)
    I.write(c.args[1], a)
    return UNIT


@model("std::mem::size_of", "std::mem::size_of_val")
def _(I, c):
    t = c.env.get("T")
    if t is not None and t.k == "int":
        return t.b // 8
    raise Unsupported("size_of %s" % t)


@model("core::intrinsics::discriminant_value", "std::intrinsics::discriminant_value")
def _(I, c):
    return I.discr(deep(I, c.args[0]), None)


@model("std::mem::discriminant")
def _(I, c):
    return I.discr(deep(I, c.args[0]), None)


@model("std::boxed::Box::new", "std::sync::Arc::new", "std::rc::Rc::new")
def _(I, c):
    return Ref(I.newcell(c.args[0]))


@model("std::boxed::Box::new_uninit")
def _(I, c):
    return Ref(I.newcell(UNINIT))


@model("std::boxed::box_assume_init_into_vec_unsafe")
def _(I, c):
    v = I.read(c.args[0])
    while isinstance(v, Agg) and v.k == "part":
        v = v.f[-1]
    if isinstance(v, Agg) and v.k == "array":
        return Agg("vec", v.f)
    raise Unsupported("boxed vec of %r" % (v,))


# ------------------------------------------------------------ Option / Result
def alts(v):
    return v.alts if isinstance(v, Union) else [(1, v)]


def split_opt(I, v):
    """(guard of Some/Ok, payload, None-or-Err value)"""
    if isinstance(v, Top):
        raise Unsupported("option unknown")
    g, p, e = 0, None, None
    for h, a in alts(v):
        is_some = (a.id == OPT and a.var == 1) or (a.id == RES and a.var == 0)
        if is_some:
            g = B.or_(g, h)
            p = a.f[0] if p is None else merge(h, a.f[0], p)
        else:
            e = a if e is None else merge(h, a, e)
    return g, p, e


def _unwrap(I, c):
    g, p, e = split_opt(I, c.args[0])
    I.panic(B.not_(g), c.key.split("::")[-1] + " on None/Err")
    return p


for n in ("Option::unwrap", "Option::expect"):
    M["std::option::" + n] = _unwrap
for n in ("Result::unwrap", "Result::expect"):
    M["std::result::" + n] = _unwrap
M["std::option::Option::unwrap_unchecked"] = lambda I, c: split_opt(I, c.args[0])[1]


def _vv(I, v):
    return deep(I, v) if isinstance(v, Ref) else v


for ty, mod in (("Option", "option"), ("Result", "result")):
    pre = "std::%s::%s::" % (mod, ty)
    M[pre + ("is_some" if ty == "Option" else "is_ok")] = lambda I, c: boolv(split_opt(I, _vv(I, c.args[0]))[0])
    M[pre + ("is_none" if ty == "Option" else "is_err")] = lambda I, c: boolv(B.not_(split_opt(I, _vv(I, c.args[0]))[0]))
M["std::result::Result::unwrap_err"] = lambda I, c: Top("err")


def _branch(I, g, f, h):
    """run f where g, h elsewhere; merge"""
    return I.forkalts(Union([(g, 1), (B.not_(g), 0)]) if g not in (0, 1) else Union([(1, g)]), lambda a: f() if a else h())


@model("std::option::Option::unwrap_or", "std::result::Result::unwrap_or")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return c.args[1] if g == 0 else merge(g, p, c.args[1])


@model("std::option::Option::unwrap_or_default", "std::result::Result::unwrap_or_default")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    d = default_of(I, c.env.get("T")) if g != 1 else None
    return p if g == 1 else (d if g == 0 else merge(g, p, d))


@model("std::option::Option::unwrap_or_else", "std::result::Result::unwrap_or_else")
def _(I, c):
    v = c.args[0]
    g, p, e = split_opt(I, v)
    args = [e.f[0]] if e is not None and e.f else []
    return _branch(I, g, lambda: p, lambda: I.callv(c.args[1], args))


def _wrapas(v, p):
    return Agg("adt", [p], v.id, v.var)


@model("std::option::Option::map", "std::result::Result::map")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    isres = "Result" in c.key
    return _branch(I, g, lambda: (ok if isres else some)(I.callv(c.args[1], [p])), lambda: e)


@model("std::option::Option::map_or")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return _branch(I, g, lambda: I.callv(c.args[2], [p]), lambda: c.args[1])


@model("std::option::Option::map_or_else")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return _branch(I, g, lambda: I.callv(c.args[2], [p]), lambda: I.callv(c.args[1], []))


@model("std::option::Option::is_some_and", "std::result::Result::is_ok_and")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return _branch(I, g, lambda: I.callv(c.args[1], [p]), lambda: 0)


@model("std::option::Option::is_none_or")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return _branch(I, g, lambda: I.callv(c.args[1], [p]), lambda: 1)


@model("std::option::Option::and_then", "std::result::Result::and_then")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return _branch(I, g, lambda: I.callv(c.args[1], [p]), lambda: e)


@model("std::option::Option::filter")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])

    def f():
        r = bit(I.callv(c.args[1], [Ref(I.newcell(p))]))
        return optg(r, p)
    return _branch(I, g, f, lambda: NONE)


@model("std::option::Option::or", "std::result::Result::or")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return merge(g, c.args[0] if g == 1 else some(p) if p is not None else NONE, c.args[1])


@model("std::option::Option::or_else", "std::result::Result::or_else")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    args = [e.f[0]] if e is not None and e.f else []
    isres = "Result" in c.key
    return _branch(I, g, lambda: (ok if isres else some)(p), lambda: I.callv(c.args[1], args))


@model("std::result::Result::map_err")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return _branch(I, g, lambda: ok(p), lambda: err(I.callv(c.args[1], [e.f[0]])))


@model("std::result::Result::ok")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return optg(g, p)


@model("std::option::Option::ok_or", "std::option::Option::ok_or_else")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    if c.key.endswith("else"):
        return _branch(I, g, lambda: ok(p), lambda: err(I.callv(c.args[1], [])))
    return merge(g, ok(p), err(c.args[1])) if p is not None else err(c.args[1])


@model("std::option::Option::as_ref", "std::option::Option::as_mut", "std::result::Result::as_ref", "std::option::Option::as_deref",
       "std::option::Option::as_deref_mut", "std::result::Result::as_mut")
def _(I, c):
    r = c.args[0]
    v = I.read(r)
    out = None
    for h, a in alts(v):
        if a.f:
            inner = Ref(r.cell, r.path + (("v", a.var), ("f", 0)), r.win)
            x = I.read(inner)
            if "deref" in c.key and isinstance(x, (Ref, StrV)):
                inner = x
            b = Agg("adt", [inner], a.id, a.var)
        else:
            b = a
        out = b if out is None else merge(h, b, out)
    return out


@model("std::option::Option::copied", "std::option::Option::cloned")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    return optg(g, I.read(p)) if g else NONE


@model("std::option::Option::take")
def _(I, c):
    v = I.read(c.args[0])
    I.write(c.args[0], NONE)
    return v


@model("std::option::Option::replace", "std::option::Option::insert")
def _(I, c):
    v = I.read(c.args[0])
    I.write(c.args[0], some(c.args[1]))
    return v


@model("std::option::Option::zip")
def _(I, c):
    g, p, e = split_opt(I, c.args[0])
    h, q, _ = split_opt(I, c.args[1])
    return optg(B.and_(g, h), Agg("tuple", [p, q]))


@model("std::ops::Try::branch")
def _(I, c):
    out = None
    for h, a in alts(c.args[0]):
        good = (a.id == OPT and a.var == 1) or (a.id == RES and a.var == 0)
        b = Agg("adt", [a.f[0] if good else a], "core::ops::control_flow::ControlFlow", 0 if good else 1)
        out = b if out is None else merge(h, b, out)
    return out


@model("std::ops::FromResidual::from_residual")
def _(I, c):
    return c.args[0]


@model("core::bool::<impl bool>::then")
def _(I, c):
    return _branch(I, bit(c.args[0]), lambda: some(I.callv(c.args[1], [])), lambda: NONE)


@model("core::bool::<impl bool>::then_some")
def _(I, c):
    return optg(bit(c.args[0]), c.args[1])


# ------------------------------------------------------------------ closures
@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def _(I, c):
    a = c.args[1]
    return I.callv(c.args[0], list(a.f) if isinstance(a, Agg) and a.k == "tuple" else [a])


# -------------------------------------------------------------- Vec / slices
@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::VecDeque::new", "std::vec::Vec::new_in")
def _(I, c):
    return Agg("vec", [])


@model("std::vec::from_elem")
def _(I, c):
    n = c.args[1]
    if not isinstance(n, int):
        raise Unsupported("vec of symbolic length")
    if n > (1 << 22):
        raise Unsupported("vec too long")
    h = I.mode.get("big_vec")
    if h is not None and n >= 4096:
        return h(c.args[0], n)
    return Agg("vec", [c.args[0]] * n)


@model("std::vec::Vec::push")
def _(I, c):
    r = c.args[0]

    def one(v):
        if isinstance(v, Agg):
            return Agg("vec", list(v.f) + [c.args[1]])
        if hasattr(v, "apush"):
            return v.apush(I, c.args[1])
        raise Unsupported("push to %r" % (v,))
    v = I.read(r)
    if isinstance(v, Union):
        I.write(r, Union([(g, one(a)) for g, a in v.alts]))
    else:
        I.write(r, one(v))
    return UNIT


@model("std::vec::Vec::pop")
def _(I, c):
    v = I.read(c.args[0])
    if not v.f:
        return NONE
    I.write(c.args[0], Agg("vec", v.f[:-1]))
    return some(v.f[-1])


@model("std::vec::Vec::clear")
def _(I, c):
    I.write(c.args[0], Agg("vec", []))
    return UNIT


@model("std::vec::Vec::truncate")
def _(I, c):
    v = I.read(c.args[0])
    I.write(c.args[0], Agg("vec", v.f[:c.args[1]]))
    return UNIT


@model("std::vec::Vec::resize")
def _(I, c):
    v = I.read(c.args[0])
    n = c.args[1]
    f = list(v.f)[:n]
    I.write(c.args[0], Agg("vec", f + [c.args[2]] * (n - len(f))))
    return UNIT


@model("std::vec::Vec::extend_from_slice")
def _(I, c):
    v = I.read(c.args[0])
    w = I.read(c.args[1])
    I.write(c.args[0], Agg("vec", list(v.f) + list(w.f)))
    return UNIT


@model("std::vec::Vec::append")
def _(I, c):
    v, w = I.read(c.args[0]), I.read(c.args[1])
    I.write(c.args[0], Agg("vec", list(v.f) + list(w.f)))
    I.write(c.args[1], Agg("vec", []))
    return UNIT


@model("std::vec::Vec::insert")
def _(I, c):
    v = I.read(c.args[0])
    f = list(v.f)
    I.panic(1 if c.args[1] > len(f) else 0, "insert out of bounds")
    f.insert(c.args[1], c.args[2])
    I.write(c.args[0], Agg("vec", f))
    return UNIT


@model("std::vec::Vec::remove", "std::vec::Vec::swap_remove")
def _(I, c):
    v = I.read(c.args[0])
    f = list(v.f)
    i = c.args[1]
    x = f[i]
    if c.key.endswith("swap_remove"):
        f[i] = f[-1]
        f.pop()
    else:
        f.pop(i)
    I.write(c.args[0], Agg("vec", f))
    return x


@model("std::vec::Vec::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::len", "std::string::String::len")
def _(I, c):
    return I.length(c.args[0])


@model("std::vec::Vec::is_empty", "core::slice::<impl [T]>::is_empty", "std::string::String::is_empty", "core::str::<impl str>::is_empty")
def _(I, c):
    n = I.length(c.args[0])
    return boolv(B.beq(n, 0, 64))


@model("std::vec::Vec::capacity")
def _(I, c):
    return I.length(c.args[0])


@model("std::vec::Vec::reserve", "std::vec::Vec::shrink_to_fit")
def _(I, c):
    return UNIT


RANGE = "core::ops::range::"


def as_range(I, v, n):
    """(start, end) of an index range value"""
    if isinstance(v, Agg) and v.id:
        k = v.id.split("::")[-1]
        if k == "Range":
            return v.f[0], v.f[1]
        if k == "RangeTo":
            return 0, v.f[0]
        if k == "RangeFrom":
            return v.f[0], n
        if k == "RangeFull":
            return 0, n
        if k == "RangeInclusive":
            return v.f[0], B.badd(v.f[1], 1, 64)
        if k == "RangeToInclusive":
            return 0, B.badd(v.f[0], 1, 64)
    return None


def index(I, r, ix):
    if isinstance(r, Union):
        return I.forkalts(r, lambda a: index(I, a, ix))
    if isinstance(r, Ref):
        x = I.cellval(r.cell) if not r.path and r.win is None else None
        v = I.read(r) if r.win is None else None
        if isinstance(v, Ref):
            return index(I, v, ix)
        if isinstance(v, MapV):
            g, p, _ = split_opt(I, map_get(I, r, ix))
            if g == 0:
                I.panic(1, "missing map key")
                return None
            if g != 1:
                I.panic(B.not_(g), "missing map key")
                if I.pc == 0:
                    return None
            return p
    n = I.length(r)
    if isint(ix):
        inb = B.bult(ix, n, 64)
        I.panic(B.not_(inb), "index out of bounds")
        if I.pc == 0:
            return None
        return I.sub(r, ix if isinstance(ix, int) else ("x", ix))
    rg = as_range(I, ix, n)
    if rg is not None:
        s, e = rg
        I.panic(B.not_(B.and_(B.not_(B.bult(e, s, 64)), B.not_(B.bult(n, e, 64)))), "slice index out of bounds")
        if I.pc == 0:
            return None
        if isinstance(s, int) and isinstance(e, int):
            return I.sub(r, ("w", s, e - s))
        ln = B.bsub(e, s, 64)
        if isinstance(ln, int):
            if isinstance(r, Ref):
                s2 = s if r.win is None else B.badd(r.win[0], s, 64)
                return Ref(r.cell, r.path, (s2, ln))
        raise Unsupported("symbolic slice bounds")
    raise Unsupported("index by %r" % (ix,))


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _(I, c):
    return index(I, c.args[0], c.args[1])


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "std::vec::Vec::get", "std::vec::Vec::get_mut")
def _(I, c):
    r, ix = c.args
    n = I.length(r)
    if isint(ix):
        g = B.bult(ix, n, 64)
        if g == 0:
            return NONE
        return optg(g, I.sub(r, ix if isinstance(ix, int) else ("x", ix)))
    s, e = as_range(I, ix, n)
    if isinstance(s, int) and isinstance(e, int) and isinstance(n, int):
        return some(I.sub(r, ("w", s, e - s))) if s <= e <= n else NONE
    raise Unsupported("get")


@model("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def _(I, c):
    return I.sub(c.args[0], c.args[1] if isinstance(c.args[1], int) else ("x", c.args[1]))


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::first_mut")
def _(I, c):
    return some(I.sub(c.args[0], 0)) if I.length(c.args[0]) else NONE


@model("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut")
def _(I, c):
    n = I.length(c.args[0])
    return some(I.sub(c.args[0], n - 1)) if n else NONE


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def _(I, c):
    r, k = c.args
    n = I.length(r)
    I.panic(B.bult(n, k, 64), "split_at out of bounds")
    if I.pc == 0:
        return None
    return Agg("tuple", [I.sub(r, ("w", 0, k)), I.sub(r, ("w", k, n - k))])


@model("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_first_mut")
def _(I, c):
    r = c.args[0]
    n = I.length(r)
    return some(Agg("tuple", [I.sub(r, 0), I.sub(r, ("w", 1, n - 1))])) if n else NONE


@model("core::slice::<impl [T]>::split_last", "core::slice::<impl [T]>::split_last_mut")
def _(I, c):
    r = c.args[0]
    n = I.length(r)
    return some(Agg("tuple", [I.sub(r, n - 1), I.sub(r, ("w", 0, n - 1))])) if n else NONE


@model("core::slice::<impl [T]>::swap")
def _(I, c):
    r, i, j = c.args
    a, b = I.sub(r, i), I.sub(r, j)
    x, y = I.read(a), I.read(b)
    I.write(a, y)
    I.write(b, x)
    return UNIT


@model("core::slice::<impl [T]>::reverse")
def _(I, c):
    v = I.read(c.args[0])
    I.write(c.args[0], Agg(v.k, list(v.f)[::-1]))
    return UNIT


def _copy(I, c):
    d, s = c.args
    n, m = I.length(d), I.length(s)
    I.panic(B.not_(B.beq(n, m, 64)), "copy_from_slice length mismatch")
    if I.pc == 0:
        return None
    v = I.read(s)
    dv = I.mode.get("slice_write")
    if dv is not None and dv(I, d, v):
        return UNIT
    if not isinstance(v, Agg):
        raise Unsupported("copy of symbolic slice")
    if isinstance(d, Ref) and d.win is not None and isinstance(d.win[0], int):
        base = Ref(d.cell, d.path)
        old = I.read(base)
        if isinstance(old, Agg):
            f = list(old.f)
            f[d.win[0]:d.win[0] + d.win[1]] = v.f
            I.write(base, Agg(old.k, f, old.id, old.var))
            return UNIT
    if isinstance(d, Ref) and d.win is not None:
        for i, x in enumerate(v.f):
            I.write(I.sub(d, i), x)
        return UNIT
    old = I.read(d)
    if isinstance(old, Agg):
        I.write(d, Agg(old.k, list(v.f), old.id, old.var))
    else:
        for i, x in enumerate(v.f):
            I.write(I.sub(d, i), x)
    return UNIT


M["core::slice::<impl [T]>::copy_from_slice"] = _copy
M["core::slice::<impl [T]>::clone_from_slice"] = _copy


@model("core::slice::<impl [T]>::fill")
def _(I, c):
    n = I.length(c.args[0])
    v = I.read(c.args[0])
    if isinstance(v, Agg):
        I.write(c.args[0], Agg(v.k, [c.args[1]] * n, v.id, v.var))
        return UNIT
    if hasattr(v, "afill"):
        I.write(c.args[0], v.afill(I, c.args[1]))
        return UNIT
    raise Unsupported("fill")


@model("core::slice::<impl [T]>::contains")
def _(I, c):
    r = 0
    for x in I.read(c.args[0]).f:
        r = B.or_(r, eqv(I, x, c.args[1]))
    return boolv(r)


@model("core::slice::<impl [T]>::starts_with")
def _(I, c):
    a, b = I.read(c.args[0]).f, I.read(c.args[1]).f
    r = 1 if len(b) <= len(a) else 0
    for x, y in zip(a, b):
        r = B.and_(r, eqv(I, x, y))
    return boolv(r)


@model("std::slice::<impl [T]>::concat", "core::slice::<impl [T]>::concat")
def _(I, c):
    out = []
    for x in I.read(c.args[0]).f:
        x = deep(I, x)
        out += list(x.f)
    return Agg("vec", out)


@model("std::array::from_fn", "core::array::from_fn")
def _(I, c):
    n = c.env.get("N")
    if not isinstance(n, int):
        raise Unsupported("from_fn length")
    return Agg("array", [I.callv(c.args[0], [i]) for i in range(n)])


@model("std::array::<impl [T; N]>::map", "core::array::<impl [T; N]>::map")
def _(I, c):
    return Agg("array", [I.callv(c.args[1], [x]) for x in c.args[0].f])


# ---------------------------------------------------------------- iterators
class It(Model):
    """Immutable iterator: next(I) -> (guard, item, iterator)"""
    __slots__ = ("a",)

    def __init__(self, *a):
        self.a = a

    def mkey(self):
        return tuple(x if not isinstance(x, (Agg,)) else id(x) for x in self.a)

    def next(self, I):
        raise Unsupported("next of " + type(self).__name__)

    def back(self, I):
        raise Unsupported("next_back of " + type(self).__name__)

    def size(self, I):
        raise Unsupported("len of " + type(self).__name__)


class ItSeq(It):
    """sub-references ref[i..j)"""
    def next(self, I):
        r, i, j, kind = self.a
        if i >= j:
            return 0, None, self
        return 1, self.item(I, i), ItSeq(r, i + 1, j, kind)

    def back(self, I):
        r, i, j, kind = self.a
        if i >= j:
            return 0, None, self
        return 1, self.item(I, j - 1), ItSeq(r, i, j - 1, kind)

    def item(self, I, i):
        r, _, _, kind = self.a
        if kind == "ref":
            return I.sub(r, i)
        return r[i]      # python tuple of values

    def size(self, I):
        return self.a[2] - self.a[1]


class ItChunks(It):
    def next(self, I):
        r, i, j, k, exact = self.a
        if i >= j or (exact and i + k > j):
            return 0, None, self
        e = min(i + k, j)
        return 1, I.sub(r, ("w", i, e - i)), ItChunks(r, e, j, k, exact)

    def size(self, I):
        r, i, j, k, exact = self.a
        return (j - i) // k if exact else -(-(j - i) // k)

    def back(self, I):
        r, i, j, k, exact = self.a
        n = self.size(I)
        if n <= 0:
            return 0, None, self
        s = i + (n - 1) * k
        e = min(s + k, j)
        return 1, I.sub(r, ("w", s, e - s)), ItChunks(r, i, s, k, exact)


class ItWindows(It):
    def next(self, I):
        r, i, j, k = self.a
        if i + k > j:
            return 0, None, self
        return 1, I.sub(r, ("w", i, k)), ItWindows(r, i + 1, j, k)


class ItEnum(It):
    def next(self, I):
        it, n = self.a
        g, x, it2 = it.next(I)
        return g, (Agg("tuple", [n, x]) if g else None), ItEnum(it2, n + 1)

    def back(self, I):
        it, n = self.a
        k = it.size(I)
        g, x, it2 = it.back(I)
        return g, (Agg("tuple", [n + k - 1, x]) if g else None), ItEnum(it2, n)

    def size(self, I):
        return self.a[0].size(I)


class ItZip(It):
    def next(self, I):
        a, b = self.a
        g, x, a2 = a.next(I)
        if g == 0:
            return 0, None, ItZip(a2, b)
        h, y, b2 = b.next(I)
        gh = B.and_(g, h)
        return gh, (Agg("tuple", [x, y]) if gh else None), ItZip(a2, b2)

    def size(self, I):
        return min(self.a[0].size(I), self.a[1].size(I))

    def back(self, I):
        a, b = self.a
        n, m = a.size(I), b.size(I)
        while n > m:
            _, _, a = a.back(I)
            n -= 1
        while m > n:
            _, _, b = b.back(I)
            m -= 1
        g, x, a = a.back(I)
        h, y, b = b.back(I)
        return B.and_(g, h), (Agg("tuple", [x, y]) if g and h else None), ItZip(a, b)


class ItRev(It):
    def next(self, I):
        g, x, it = self.a[0].back(I)
        return g, x, ItRev(it)

    def back(self, I):
        g, x, it = self.a[0].next(I)
        return g, x, ItRev(it)

    def size(self, I):
        return self.a[0].size(I)


class ItMap(It):
    def next(self, I):
        it, f = self.a
        g, x, it2 = it.next(I)
        if g == 0:
            return 0, None, ItMap(it2, f)
        if g != 1:
            v = I.forkalts(Union([(g, 1), (B.not_(g), 0)]), lambda a: I.callv(f, [x]) if a else UNINIT)
            return g, v, ItMap(it2, f)
        return 1, I.callv(f, [x]), ItMap(it2, f)

    def back(self, I):
        it, f = self.a
        g, x, it2 = it.back(I)
        return g, (I.callv(f, [x]) if g else None), ItMap(it2, f)

    def size(self, I):
        return self.a[0].size(I)


class ItCloned(It):
    def next(self, I):
        g, x, it2 = self.a[0].next(I)
        return g, (I.read(x) if g else None), ItCloned(it2)

    def back(self, I):
        g, x, it2 = self.a[0].back(I)
        return g, (I.read(x) if g else None), ItCloned(it2)

    def size(self, I):
        return self.a[0].size(I)


class ItFilter(It):
    def next(self, I):
        it, f = self.a
        while True:
            g, x, it = it.next(I)
            if g == 0:
                return 0, None, ItFilter(it, f)
            if g != 1:
                raise Unsupported("filter over symbolic iterator")
            c = bit(I.callv(f, [Ref(I.newcell(x))]))
            if c == 1:
                return 1, x, ItFilter(it, f)
            if c != 0:
                c = B.and_(c, I.pc)
                if c == 0:
                    continue
                if c == I.pc:
                    return 1, x, ItFilter(it, f)
                raise Unsupported("filter on symbolic predicate")


class ItFilterMap(It):
    def next(self, I):
        it, f = self.a
        while True:
            g, x, it = it.next(I)
            if g == 0:
                return 0, None, ItFilterMap(it, f)
            h, p, _ = split_opt(I, I.callv(f, [x]))
            if h == 1:
                return 1, p, ItFilterMap(it, f)
            if h != 0:
                raise Unsupported("filter_map on symbolic predicate")


class ItTake(It):
    def next(self, I):
        it, n = self.a
        if not isinstance(n, int):
            raise Unsupported("take symbolic")
        if n == 0:
            return 0, None, self
        g, x, it2 = it.next(I)
        return g, x, ItTake(it2, n - 1)

    def size(self, I):
        try:
            return min(self.a[1], self.a[0].size(I))
        except Unsupported:
            if isinstance(self.a[0], (ItRepeat, ItCycle)):
                return self.a[1]
            raise

    def back(self, I):
        it, n = self.a
        k = it.size(I)
        while k > n:
            _, _, it = it.back(I)
            k -= 1
        g, x, it = it.back(I)
        return g, x, ItTake(it, max(0, k - 1))


class ItSkip(It):
    def next(self, I):
        it, n = self.a
        for _ in range(n):
            g, x, it = it.next(I)
            if g == 0:
                return 0, None, it
        g, x, it2 = it.next(I)
        return g, x, ItSkip(it2, 0)

    def size(self, I):
        return max(0, self.a[0].size(I) - self.a[1])

    def back(self, I):
        if self.size(I) <= 0:
            return 0, None, self
        g, x, it = self.a[0].back(I)
        return g, x, ItSkip(it, self.a[1])


class ItStep(It):
    def next(self, I):
        it, k, first = self.a
        if not first:
            for _ in range(k - 1):
                g, x, it = it.next(I)
                if g == 0:
                    return 0, None, ItStep(it, k, False)
        g, x, it2 = it.next(I)
        return g, x, ItStep(it2, k, False)

    def size(self, I):
        n = self.a[0].size(I)
        return -(-n // self.a[1]) if self.a[2] else n // self.a[1]

    def back(self, I):
        items = []
        it = self
        while True:
            g, x, it = it.next(I)
            if g == 0:
                break
            items.append(x)
        if not items:
            return 0, None, it
        return 1, items[-1], ItSeq(tuple(items), 0, len(items) - 1, "val")


class ItChain(It):
    def next(self, I):
        a, b = self.a
        if a is not None:
            g, x, a2 = a.next(I)
            if g == 1:
                return 1, x, ItChain(a2, b)
            if g != 0:
                raise Unsupported("chain over symbolic iterator")
        g, x, b2 = b.next(I)
        return g, x, ItChain(None, b2)

    def size(self, I):
        return (self.a[0].size(I) if self.a[0] is not None else 0) + self.a[1].size(I)

    def back(self, I):
        a, b = self.a
        g, x, b2 = b.back(I)
        if g == 1:
            return 1, x, ItChain(a, b2)
        if a is None:
            return 0, None, self
        g, x, a2 = a.back(I)
        return g, x, ItChain(a2, b2)


class ItScan(It):
    def next(self, I):
        it, cell, f = self.a
        g, x, it2 = it.next(I)
        if g == 0:
            return 0, None, self
        h, p, _ = split_opt(I, I.callv(f, [Ref(cell), x]))
        return h, p, ItScan(it2, cell, f)


class ItFlat(It):
    def next(self, I):
        it, f, cur = self.a
        while True:
            if cur is not None:
                g, x, cur = cur.next(I)
                if g == 1:
                    return 1, x, ItFlat(it, f, cur)
                if g != 0:
                    raise Unsupported("flat_map over symbolic iterator")
            g, x, it = it.next(I)
            if g == 0:
                return 0, None, ItFlat(it, f, None)
            cur = to_iter(I, I.callv(f, [x]) if f is not None else x)


class ItTakeWhile(It):
    def next(self, I):
        it, f, done = self.a
        if done:
            return 0, None, self
        g, x, it2 = it.next(I)
        if g == 0:
            return 0, None, self
        c = bit(I.callv(f, [Ref(I.newcell(x))]))
        if c == 1:
            return 1, x, ItTakeWhile(it2, f, False)
        if c == 0:
            return 0, None, ItTakeWhile(it2, f, True)
        raise Unsupported("take_while on symbolic predicate")


class ItSkipWhile(It):
    def next(self, I):
        it, f, done = self.a
        while True:
            g, x, it = it.next(I)
            if g == 0:
                return 0, None, ItSkipWhile(it, f, True)
            if done:
                return 1, x, ItSkipWhile(it, f, True)
            c = bit(I.callv(f, [Ref(I.newcell(x))]))
            if c == 0:
                return 1, x, ItSkipWhile(it, f, True)
            if c != 1:
                raise Unsupported("skip_while on symbolic predicate")


class ItInspect(It):
    def next(self, I):
        it, f = self.a
        g, x, it2 = it.next(I)
        if g:
            I.callv(f, [Ref(I.newcell(x))])
        return g, x, ItInspect(it2, f)

    def size(self, I):
        return self.a[0].size(I)


class ItRepeat(It):
    def next(self, I):
        return 1, self.a[0], self


class ItCycle(It):
    def next(self, I):
        orig, cur = self.a
        g, x, c2 = cur.next(I)
        if g == 0:
            g, x, c2 = orig.next(I)
        return g, x, ItCycle(orig, c2)


class ItSuccessors(It):
    def next(self, I):
        cur, f = self.a
        g, p, _ = split_opt(I, cur)
        if g == 0:
            return 0, None, self
        nxt = I.callv(f, [Ref(I.newcell(p))])
        return g, p, ItSuccessors(nxt, f)


class ItRange(It):
    """Range with its bounds (integers), width and signedness"""
    def next(self, I):
        s, e, incl = self.a
        g = B.bult(s, e, 64)
        if incl:
            g = B.not_(B.bult(e, s, 64))
        if g == 0 or B.and_(g, I.pc) == 0:
            return 0, None, self
        if g != 1 and B.and_(B.not_(g), I.pc) == 0:
            g = 1
        return g, s, ItRange(B.badd(s, 1, 64), e, incl)

    def back(self, I):
        s, e, incl = self.a
        if not (isinstance(s, int) and isinstance(e, int)):
            if incl:
                e = B.badd(e, 1, 64)
            g = B.bult(s, e, 64)
            if g == 0 or B.and_(g, I.pc) == 0:
                return 0, None, self
            if g != 1 and B.and_(B.not_(g), I.pc) == 0:
                g = 1
            d = B.bsub(e, 1, 64)
            return g, d, ItRange(s, d if g == 1 else B.bite(g, d, e), False)
        if incl:
            e += 1
        if s >= e:
            return 0, None, self
        return 1, e - 1, ItRange(s, e - 1, False)

    def size(self, I):
        s, e, incl = self.a
        if not (isinstance(s, int) and isinstance(e, int)):
            raise Unsupported("symbolic range length")
        return max(0, e - s + (1 if incl else 0))


class ItPeek(It):
    def next(self, I):
        it, pk = self.a
        if pk is not None:
            return pk[0], pk[1], ItPeek(it, None)
        g, x, it2 = it.next(I)
        return g, x, ItPeek(it2, None)


class ItSRange(It):
    """range of signed integers of width w"""
    def next(self, I):
        s, e, incl, w = self.a
        g = B.not_(B.bslt(e, s, w)) if incl else B.bslt(s, e, w)
        if g == 0 or B.and_(g, I.pc) == 0:
            return 0, None, self
        if g != 1 and B.and_(B.not_(g), I.pc) == 0:
            g = 1
        return g, s, ItSRange(B.badd(s, 1, w), e, incl, w)

    def back(self, I):
        s, e, incl, w = self.a
        if incl:
            e = B.badd(e, 1, w)
        g = B.bslt(s, e, w)
        if g == 0 or B.and_(g, I.pc) == 0:
            return 0, None, self
        d = B.bsub(e, 1, w)
        return g, d, ItSRange(s, d if g == 1 else B.bite(g, d, e), False, w)

    def size(self, I):
        s, e, incl, w = self.a
        if not (isinstance(s, int) and isinstance(e, int)):
            raise Unsupported("symbolic range length")
        s, e = [(x ^ (1 << (w - 1))) - (1 << (w - 1)) for x in (s, e)]
        return max(0, e - s + (1 if incl else 0))


def _signed_range(t):
    if t is not None and t.k == "adt" and t.p and t.p.split("::")[-1].startswith("Range") and t.args:
        a = t.args[0][1] if isinstance(t.args[0], tuple) else t.args[0]
        if getattr(a, "k", "") == "int" and a.sg:
            return a.b
    return None


def to_iter(I, v, ty=None):
    if isinstance(v, It):
        return v
    if isinstance(v, Ref):
        x = I.read(v) if v.win is None else None
        if isinstance(x, It) or (isinstance(x, Agg) and x.id and x.id.split("::")[-1] in ("Range", "RangeInclusive")):
            return ItByRef(v)
        if isinstance(x, MapV):
            return map_iter(I, v, "ref")
        if isinstance(x, Ref):
            return to_iter(I, x)
        if isinstance(x, Agg) and x.id == OPT:
            return ItSeq(tuple(Ref(v.cell, v.path + (("v", 1), ("f", 0))) for _ in x.f), 0, len(x.f), "val")
        n = I.length(v)
        if not isinstance(n, int):
            raise Unsupported("iteration over symbolic length")
        return ItSeq(v, 0, n, "ref")
    if isinstance(v, MapV):
        if v.kind.endswith("set"):
            return ItSeq(tuple(k for k, _ in map_items(I, v)), 0, len(v.items), "val")
        return ItSeq(tuple(Agg("tuple", [k, x]) for k, x in map_items(I, v)), 0, len(v.items), "val")
    if isinstance(v, Agg):
        if v.k in ("vec", "array"):
            return ItSeq(tuple(v.f), 0, len(v.f), "val")
        if v.id:
            k = v.id.split("::")[-1]
            sr = _signed_range(ty)
            if sr and k in ("Range", "RangeInclusive"):
                return ItSRange(v.f[0], v.f[1], k != "Range", sr)
            if k == "Range":
                return ItRange(v.f[0], v.f[1], False)
            if k == "RangeInclusive":
                return ItRange(v.f[0], v.f[1], True)
            if k == "RangeFrom":
                return ItRange(v.f[0], (1 << 63), False)
            if v.id == OPT:
                return ItSeq(tuple(v.f), 0, len(v.f), "val")
    if hasattr(v, "as_iter"):
        return v.as_iter(I)
    raise Unsupported("iterator from %r" % (v,))


class ItByRef(It):
    def next(self, I):
        r = self.a[0]
        g, x, it2 = to_iter(I, I.read(r)).next(I)
        I.write(r, it2)
        return g, x, self


MAPKINDS = {"HashMap": "map", "BTreeMap": "bmap", "HashSet": "set", "BTreeSet": "bset"}


def mapkey(I, k):
    """canonical form of a constant key"""
    k = deep(I, k)
    if isinstance(k, (int, StrV)):
        return k

    def key(v):
        v = deep(I, v)
        if isinstance(v, int):
            return v
        if isinstance(v, StrV) and isinstance(v.s, str):
            return ("s", v.s)
        if isinstance(v, Agg):
            return (v.k if v.k not in ("array", "vec") else "seq", v.id, v.var) + tuple(key(x) for x in v.f)
        raise Unsupported("map key %s" % type(v).__name__)
    if isinstance(k, BV):
        raise Unsupported("symbolic map key")
    return I.__dict__.setdefault("keytab", {}).setdefault(key(k), k)


def map_items(I, m):
    items = list(m.items)
    if I.mode.get("maporder") == "reverse" and m.kind[0] != "b":
        items.reverse()
    return items


def map_get(I, r, key):
    """Option<&V>"""
    m = I.read(r)
    while isinstance(m, Ref):
        r, m = m, I.read(m)
    k = deep(I, key)
    if isinstance(k, BV):
        if not all(isinstance(x, int) for x, y in m.items):
            raise Unsupported("symbolic map key")
        if not all(isint(y) for x, y in m.items):
            alts, none = [], 1
            for x, y in m.items:
                e = B.beq(k, x, 64)
                if B.and_(e, I.pc):
                    alts.append((e, some(Ref(r.cell, r.path + (("k", x),)))))
                    none = B.and_(none, B.not_(e))
            if B.and_(none, I.pc):
                alts.append((none, NONE))
            return alts[0][1] if len(alts) == 1 else Union(alts)
        v, g = 0, 0
        for x, y in m.items:
            e = B.beq(k, x, 64)
            v, g = B.bite(e, y, v), B.or_(g, e)
        if B.and_(g, I.pc) == 0:
            return NONE
        s = some(Ref(I.newcell(v)))
        if B.and_(I.pc, B.not_(g)) == 0:
            return s
        return Union([(g, s), (B.not_(g), NONE)])
    k = mapkey(I, k)
    return some(Ref(r.cell, r.path + (("k", k),))) if m.get(k) is not None else NONE


def map_iter(I, r, kind):
    m = I.read(r)
    if m.kind.endswith("set"):
        kind = "keys"
    items = map_items(I, m)
    out = []
    for k, v in items:
        kr = k if isinstance(k, (Ref, StrV)) else Ref(I.newcell(k))
        vr = Ref(r.cell, r.path + (("k", k),))
        if kind == "ref":
            out.append(Agg("tuple", [kr, vr]))
        elif kind == "keys":
            out.append(kr)
        else:
            out.append(vr)
    return ItSeq(tuple(out), 0, len(out), "val")


@model("std::iter::IntoIterator::into_iter", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut",
       "std::option::Option::iter", "std::option::Option::iter_mut")
def _(I, c):
    v = c.args[0]
    if isinstance(v, Agg) and v.id and c.key.endswith("into_iter"):
        # local iterator types pass through
        for im in I.impl_index.get("std::iter::Iterator", ()):
            if im["self"].k == "adt" and im["self"].id == v.id:
                return v
    return to_iter(I, v, c.env.get("Self") if c.key.endswith("into_iter") else None)


def _next(I, c):
    signed_receiver(I, c)
    r = c.args[0]
    v = I.read(r)
    while isinstance(v, Ref):
        r = v
        v = I.read(r)
    it = to_iter(I, v)
    g, x, it2 = it.next(I)
    I.write(r, it2)
    return optg(g, x) if g else NONE


M["std::iter::Iterator::next"] = _next


@model("std::iter::DoubleEndedIterator::next_back")
def _(I, c):
    it = to_iter(I, I.read(c.args[0]))
    g, x, it2 = it.back(I)
    I.write(c.args[0], it2)
    return optg(g, x) if g else NONE


@model("std::iter::ExactSizeIterator::len")
def _(I, c):
    return to_iter(I, I.read(c.args[0])).size(I)


@model("std::iter::Iterator::size_hint")
def _(I, c):
    n = to_iter(I, I.read(c.args[0])).size(I)
    return Agg("tuple", [n, some(n)])


def signed_receiver(I, c):
    """a receiver that is a range of signed integers becomes an iterator that knows it"""
    a = c.args[0]
    if isinstance(a, Ref) and _signed_range(c.env.get("Self")):
        v = I.read(a)
        if isinstance(v, Agg) and v.id and v.id.split("::")[-1] in ("Range", "RangeInclusive"):
            I.write(a, to_iter(I, v, c.env["Self"]))


def adapt(name, f):
    def g(I, c):
        signed_receiver(I, c)
        a = c.args[0]
        if isinstance(a, Agg) and a.id and _signed_range(c.env.get("Self")):
            c.args = [to_iter(I, a, c.env["Self"])] + list(c.args[1:])
        return f(I, c)
    M["std::iter::Iterator::" + name] = g


adapt("enumerate", lambda I, c: ItEnum(to_iter(I, c.args[0]), 0))
adapt("zip", lambda I, c: ItZip(to_iter(I, c.args[0]), to_iter(I, c.args[1])))
adapt("rev", lambda I, c: ItRev(to_iter(I, c.args[0])))
adapt("map", lambda I, c: ItMap(to_iter(I, c.args[0]), fcell(I, c.args[1])))
adapt("filter", lambda I, c: ItFilter(to_iter(I, c.args[0]), fcell(I, c.args[1])))
adapt("filter_map", lambda I, c: ItFilterMap(to_iter(I, c.args[0]), fcell(I, c.args[1])))
adapt("cloned", lambda I, c: ItCloned(to_iter(I, c.args[0])))
adapt("copied", lambda I, c: ItCloned(to_iter(I, c.args[0])))
adapt("take", lambda I, c: ItTake(to_iter(I, c.args[0]), c.args[1]))
adapt("skip", lambda I, c: ItSkip(to_iter(I, c.args[0]), c.args[1]))
adapt("step_by", lambda I, c: ItStep(to_iter(I, c.args[0]), c.args[1], True))
adapt("chain", lambda I, c: ItChain(to_iter(I, c.args[0]), to_iter(I, c.args[1])))
adapt("scan", lambda I, c: ItScan(to_iter(I, c.args[0]), I.newcell(c.args[1]), fcell(I, c.args[2])))
adapt("flat_map", lambda I, c: ItFlat(to_iter(I, c.args[0]), fcell(I, c.args[1]), None))
adapt("flatten", lambda I, c: ItFlat(to_iter(I, c.args[0]), None, None))
adapt("take_while", lambda I, c: ItTakeWhile(to_iter(I, c.args[0]), fcell(I, c.args[1]), False))
adapt("skip_while", lambda I, c: ItSkipWhile(to_iter(I, c.args[0]), fcell(I, c.args[1]), False))
adapt("inspect", lambda I, c: ItInspect(to_iter(I, c.args[0]), fcell(I, c.args[1])))
adapt("peekable", lambda I, c: ItPeek(to_iter(I, c.args[0]), None))
adapt("fuse", lambda I, c: to_iter(I, c.args[0]))
adapt("by_ref", lambda I, c: c.args[0])
adapt("cycle", lambda I, c: ItCycle(to_iter(I, c.args[0]), to_iter(I, c.args[0])))


def fcell(I, f):
    """adaptor closures live in a cell of their own so that FnMut state persists"""
    if isinstance(f, Agg) and f.k == "closure":
        return Ref(I.newcell(f))
    return f


@model("std::iter::Peekable::peek", "std::iter::Peekable::peek_mut")
def _(I, c):
    it = I.read(c.args[0])
    inner, pk = it.a
    if pk is None:
        g, x, inner = inner.next(I)
        pk = (g, x)
        I.write(c.args[0], ItPeek(inner, pk))
    return optg(pk[0], Ref(I.newcell(pk[1]))) if pk[0] else NONE


@model("std::iter::once")
def _(I, c):
    return ItSeq((c.args[0],), 0, 1, "val")


@model("std::iter::empty")
def _(I, c):
    return ItSeq((), 0, 0, "val")


@model("std::iter::repeat")
def _(I, c):
    return ItRepeat(c.args[0])


@model("std::iter::repeat_n")
def _(I, c):
    return ItTake(ItRepeat(c.args[0]), c.args[1])


@model("std::iter::zip")
def _(I, c):
    return ItZip(to_iter(I, c.args[0]), to_iter(I, c.args[1]))


@model("std::iter::successors")
def _(I, c):
    return ItSuccessors(c.args[0], fcell(I, c.args[1]))


def drain(I, it, lim=2_000_000):
    out = []
    it = to_iter(I, it)
    while True:
        g, x, it = it.next(I)
        if I.pc == 0:
            return out
        if g == 0:
            return out
        if g != 1:
            raise Unsupported("iterator of symbolic length")
        out.append(x)
        if len(out) > lim:
            raise Unsupported("long iterator")


def collect_as(I, items, t):
    if t is None:
        return Agg("vec", items)
    if t.k == "adt":
        n = t.p.split("::")[-1]
        if n in ("Vec", "VecDeque"):
            return Agg("vec", items)
        if n == "Box":
            return Ref(I.newcell(Agg("array", items)))
        if n in MAPKINDS:
            m = MapV((), MAPKINDS[n])
            for x in items:
                m = m.set(mapkey(I, x), UNIT) if m.kind.endswith("set") else m.set(mapkey(I, x.f[0]), x.f[1])
            return m
        if n in ("Result", "Option"):
            out = []
            for x in items:
                g, p, e = split_opt(I, x)
                if g == 0:
                    return e
                if g != 1:
                    raise Unsupported("collect of symbolic results")
                out.append(p)
            inner = collect_as(I, out, t.args[0][1])
            return ok(inner) if n == "Result" else some(inner)
        if n == "String":
            return StrV("?")
        if n == "PathBuf":
            out = ""
            for x in items:
                x = deep(I, x)
                if not (isinstance(x, StrV) and isinstance(x.s, str)):
                    raise Unsupported("path part %r" % (x,))
                out = x.s if x.s.startswith("/") or not out else out.rstrip("/") + "/" + x.s
            return StrV(out)
    raise Unsupported("collect into %s" % t.s)


adapt("collect", lambda I, c: collect_as(I, drain(I, c.args[0]), c.env.get("B")))
M["std::iter::FromIterator::from_iter"] = lambda I, c: collect_as(I, drain(I, c.args[0]), c.env.get("Self"))


@model("std::iter::Extend::extend")
def _(I, c):
    v = I.read(c.args[0])
    items = drain(I, c.args[1])
    if isinstance(v, MapV):
        for x in items:
            v = v.set(mapkey(I, x), UNIT) if v.kind.endswith("set") else v.set(mapkey(I, x.f[0]), x.f[1])
    else:
        items = [I.read(x) if isinstance(x, Ref) and v.f and not isinstance(v.f[0], Ref) else x for x in items]
        v = Agg("vec", list(v.f) + items)
    I.write(c.args[0], v)
    return UNIT


def under(I, g, f):
    """f() where g holds (its effects and value count only there)"""
    if g == 1 or B.and_(I.pc, B.not_(g)) == 0:
        return f()
    out = []
    I.forkalts(Union([(g, 1), (B.not_(g), 0)]), lambda a: (out.append(f()), UNIT)[1] if a else UNIT)
    return out[0] if out else None


def guarded(I, it):
    """(guard, item) in order: the items an iterator yields, each with the condition under which it is there"""
    if isinstance(it, (ItFilter, ItFilterMap)):
        for g, x in guarded(I, it.a[0]):
            if isinstance(it, ItFilter):
                v = under(I, g, lambda: I.callv(it.a[1], [Ref(I.newcell(x))]))
                if v is not None:
                    h = B.and_(g, bit(v))
                    if B.and_(h, I.pc):
                        yield h, x
            else:
                v = under(I, g, lambda: I.callv(it.a[1], [x]))
                if v is not None:
                    h, p, _ = split_opt(I, v)
                    if B.and_(I.pc, B.and_(g, h)):
                        yield B.and_(g, h), p
    elif isinstance(it, ItMap):
        for g, x in guarded(I, it.a[0]):
            v = under(I, g, lambda: I.callv(it.a[1], [x]))
            if I.pc and v is not None:
                yield g, v
    elif isinstance(it, ItCloned):
        for g, x in guarded(I, it.a[0]):
            yield g, deep1(I, x)
    elif isinstance(it, ItChain):
        for sub in it.a[:2]:
            if sub is not None:
                yield from guarded(I, sub)
    else:
        while True:
            g, x, it = it.next(I)
            if g == 0 or I.pc == 0 or B.and_(g, I.pc) == 0:
                return
            yield g, x


def deep1(I, x):
    return I.read(x)


def _foreach(I, c):
    f = fcell(I, c.args[1])
    for g, x in guarded(I, to_iter(I, c.args[0])):
        under(I, g, lambda: I.callv(f, [x]))
        if I.pc == 0:
            return None
    return UNIT


adapt("for_each", _foreach)


def _fold(I, c):
    it = to_iter(I, c.args[0])
    acc = c.args[1]
    f = fcell(I, c.args[2])
    for g, x in guarded(I, it):
        v = under(I, g, lambda: I.callv(f, [acc, x]))
        if I.pc == 0:
            return None
        acc = v if g == 1 else merge(g, v, acc) if v is not None else acc
    return acc if I.pc else None


adapt("fold", _fold)
M["std::iter::DoubleEndedIterator::rfold"] = lambda I, c: _fold(I, Call(c.f, c.env, [ItRev(to_iter(I, c.args[0])), c.args[1], c.args[2]], c.key))


def _reduce(I, c):
    it = to_iter(I, c.args[0])
    g, acc, it = it.next(I)
    if g == 0:
        return NONE
    f = fcell(I, c.args[1])
    while True:
        g, x, it = it.next(I)
        if g == 0:
            return some(acc)
        acc = I.callv(f, [acc, x])


adapt("reduce", _reduce)


def _sum(I, c):
    items = [(g, deep(I, x)) for g, x in guarded(I, to_iter(I, c.args[0]))]
    if any(isinstance(x, Top) for g, x in items):
        return Top("sum")
    t = c.env.get("S")
    w = t.b if t is not None and t.k == "int" else 64
    r = 0
    for g, x in items:
        if g != 1:
            x = B.bite(g, x, 0)
        if t is not None and t.k == "int" and t.sg:
            v = B.badd(r, x, w)
            sr, sx, sv = B.bits(r, w)[-1], B.bits(x, w)[-1], B.bits(v, w)[-1]
            I.panic(B.and_(B.not_(B.xor_(sr, sx)), B.xor_(sr, sv)), "arithmetic overflow")
            r = v
            continue
        s = B.badd(r, x, w + 1)
        I.panic(B.bits(s, w + 1)[w], "arithmetic overflow")
        r = B.trunc(s, w)
    return r


adapt("sum", _sum)


def _product(I, c):
    r = 1
    for x in drain(I, c.args[0]):
        r = B.bmul(r, deep(I, x), 64)
    return r


adapt("product", _product)
def _count(I, c):
    r = 0
    for g, x in guarded(I, to_iter(I, c.args[0])):
        r = r + 1 if g == 1 and isinstance(r, int) else B.badd(r, B.bv([g]), 64)
    return r


adapt("count", _count)


def _last(I, c):
    l = drain(I, c.args[0])
    return some(l[-1]) if l else NONE


adapt("last", _last)


def _anyall(I, c, isany):
    r = I.args_iter(c.args[0]) if False else None
    a = c.args[0]
    it = to_iter(I, I.read(a)) if isinstance(a, Ref) else to_iter(I, a)
    f = fcell(I, c.args[1])
    acc = 0
    while True:
        g, x, it = it.next(I)
        if g == 0:
            break
        if g != 1:
            raise Unsupported("any/all over symbolic iterator")
        v = bit(I.callv(f, [x]))
        acc = B.or_(acc, v if isany else B.not_(v))
        if acc == 1:
            break
    if isinstance(a, Ref):
        I.write(a, it)
    return boolv(acc if isany else B.not_(acc))


adapt("any", lambda I, c: _anyall(I, c, True))
adapt("all", lambda I, c: _anyall(I, c, False))


def _findlike(I, c, byref, result):
    a = c.args[0]
    it = to_iter(I, I.read(a)) if isinstance(a, Ref) else to_iter(I, a)
    f = fcell(I, c.args[1])
    out = []
    rest = 1
    i = 0
    while True:
        g, x, it = it.next(I)
        if g == 0:
            break
        if g != 1:
            raise Unsupported("find over symbolic iterator")
        v = bit(I.callv(f, [Ref(I.newcell(x)) if byref else x]))
        h = B.and_(rest, v)
        if h:
            out.append((h, some(result(i, x))))
        rest = B.and_(rest, B.not_(v))
        i += 1
        if rest == 0:
            break
    if isinstance(a, Ref):
        I.write(a, it)
    r = NONE
    for h, v in reversed(out):
        r = merge(h, v, r)
    return r


adapt("find", lambda I, c: _findlike(I, c, True, lambda i, x: x))
adapt("position", lambda I, c: _findlike(I, c, False, lambda i, x: i))
M["std::iter::DoubleEndedIterator::rfind"] = lambda I, c: _findlike(I, Call(c.f, c.env, [ItRev(to_iter(I, I.read(c.args[0]))), c.args[1]], c.key), True, lambda i, x: x)


def _find_map(I, c):
    a = c.args[0]
    it = to_iter(I, I.read(a)) if isinstance(a, Ref) else to_iter(I, a)
    f = fcell(I, c.args[1])
    while True:
        g, x, it = it.next(I)
        if g == 0:
            return NONE
        r = I.callv(f, [x])
        h, p, _ = split_opt(I, r)
        if h == 1:
            if isinstance(a, Ref):
                I.write(a, it)
            return some(p)
        if h != 0:
            raise Unsupported("find_map on symbolic predicate")


adapt("find_map", _find_map)


def _nth(I, c):
    a = c.args[0]
    it = to_iter(I, I.read(a))
    for _ in range(c.args[1] + 1):
        g, x, it = it.next(I)
        if g == 0:
            I.write(a, it)
            return NONE
    I.write(a, it)
    return optg(g, x)


adapt("nth", _nth)


def _itemless(t):
    """strict order of integers of the iterator's item type"""
    while t is not None and t.k == "ref":
        t = t.t
    if t is not None and t.k == "int":
        return lambda a, b: (B.bslt if t.sg else B.bult)(a, b, t.b)
    return lambda a, b: B.bult(a, b, 64)


def _itemty(I, c):
    """T of the Option<T> a call's result goes to"""
    t = I.tyof(*I.dest)
    return t.args[0][1] if t is not None and t.k == "adt" and t.args else None


def _minmax(I, c, mx):
    ty = _itemty(I, c)
    items = drain(I, c.args[0])
    if not items:
        return NONE
    less = _itemless(ty)
    r = items[0]
    for x in items[1:]:
        a, b = deep(I, r), deep(I, x)
        if not (isint(a) and isint(b)):
            raise Unsupported("min/max of non-integers")
        r = merge(B.not_(less(b, a)), x, r) if mx else merge(less(b, a), x, r)
    return some(r)


adapt("max", lambda I, c: _minmax(I, c, True))
adapt("min", lambda I, c: _minmax(I, c, False))


def _bykey(I, c, mx):
    items = drain(I, c.args[0])
    if not items:
        return NONE
    f = fcell(I, c.args[1])
    keys = [deep(I, I.callv(f, [Ref(I.newcell(x))])) for x in items]
    less = _itemless(c.env.get("B"))
    r, k = items[0], keys[0]
    for x, y in zip(items[1:], keys[1:]):
        ge = B.not_(less(y, k)) if mx else less(y, k)
        r, k = merge(ge, x, r), merge(ge, y, k)
    return some(r)


adapt("max_by_key", lambda I, c: _bykey(I, c, True))
adapt("min_by_key", lambda I, c: _bykey(I, c, False))


def _unzip(I, c):
    items = drain(I, c.args[0])
    return Agg("tuple", [Agg("vec", [x.f[0] for x in items]), Agg("vec", [x.f[1] for x in items])])


adapt("unzip", _unzip)


def _partition(I, c):
    a, b = [], []
    f = fcell(I, c.args[1])
    for x in drain(I, c.args[0]):
        v = bit(I.callv(f, [Ref(I.newcell(x))]))
        if v not in (0, 1):
            raise Unsupported("partition")
        (a if v else b).append(x)
    return Agg("tuple", [Agg("vec", a), Agg("vec", b)])


adapt("partition", _partition)


def _try_fold(I, c):
    raise Unsupported("try_fold")


def _chunks(exact):
    def f(I, c):
        r, k = c.args
        n = I.length(r)
        I.panic(B.beq(k, 0, 64), "chunk size zero")
        if I.pc == 0:
            return None
        if not (isinstance(n, int) and isinstance(k, int)):
            raise Unsupported("symbolic chunks")
        return ItChunks(r, 0, n, k, exact)
    return f


for _n in ("chunks", "chunks_mut"):
    M["core::slice::<impl [T]>::" + _n] = _chunks(False)
for _n in ("chunks_exact", "chunks_exact_mut"):
    M["core::slice::<impl [T]>::" + _n] = _chunks(True)
M["core::slice::<impl [T]>::windows"] = lambda I, c: ItWindows(c.args[0], 0, I.length(c.args[0]), c.args[1])


@model("std::slice::ChunksExact::remainder")
def _(I, c):
    it = I.read(c.args[0])
    r, i, j, k, _ = it.a
    n = I.length(r)
    rem = n % k
    return I.sub(r, ("w", n - rem, rem))


@model("std::vec::Vec::drain")
def _(I, c):
    v = I.read(c.args[0])
    s, e = as_range(I, c.args[1], len(v.f))
    I.write(c.args[0], Agg("vec", list(v.f[:s]) + list(v.f[e:])))
    return ItSeq(tuple(v.f[s:e]), 0, e - s, "val")


@model("std::ops::RangeInclusive::new")
def _(I, c):
    return Agg("adt", [c.args[0], c.args[1], 0], "core::ops::range::RangeInclusive", 0)


@model("std::ops::Range::contains", "std::ops::RangeInclusive::contains", "std::ops::RangeBounds::contains")
def _(I, c):
    r, x = I.read(c.args[0]), deep(I, c.args[1])
    if isinstance(r, ItRange):
        s, e, incl = r.a
    else:
        s, e = r.f[0], r.f[1]
        incl = r.id.endswith("RangeInclusive")
    t = c.env.get("Idx") or c.env.get("T")
    w, sg = I.width(t) if t is not None and t.k == "int" else (64, 0)
    lt = B.bslt if sg else B.bult
    lo = B.not_(lt(x, s, w))
    hi = B.not_(lt(e, x, w)) if incl else lt(x, e, w)
    return boolv(B.and_(lo, hi))


@model("std::ops::Range::is_empty")
def _(I, c):
    r = I.read(c.args[0])
    return boolv(B.not_(B.bult(r.f[0], r.f[1], 64)))


# ------------------------------------------------------------------- HashMap
class EntryV(Model):
    """map.entry(key)"""
    __slots__ = ("r", "key")

    def __init__(self, r, key):
        self.r, self.key = r, key

    def slot(self):
        return Ref(self.r.cell, self.r.path + (("k", self.key),))

    def fill(self, I, value):
        m = I.read(self.r)
        if m.get(self.key) is None:
            v = value()
            m = I.read(self.r)
            I.write(self.r, m.set(self.key, v))
        return self.slot()


def _mapref(I, r):
    while isinstance(I.read(r), Ref):
        r = I.read(r)
    return r


for _t in MAPKINDS:
    pre = "std::collections::%s::" % _t
    M[pre + "new"] = M[pre + "with_capacity"] = lambda I, c, _k=MAPKINDS[_t]: MapV((), _k)

    def _insert(I, c):
        m = I.read(c.args[0])
        k = mapkey(I, c.args[1])
        old = m.get(k)
        if m.kind.endswith("set"):
            I.write(c.args[0], m.set(k, UNIT))
            return 0 if old is not None else 1
        I.write(c.args[0], m.set(k, c.args[2]))
        return some(old) if old is not None else NONE
    M[pre + "insert"] = _insert

    M[pre + "get"] = lambda I, c: map_get(I, c.args[0], c.args[1])

    def _getm(I, c):
        if isinstance(deep(I, c.args[1]), BV):
            raise Unsupported("symbolic map key")
        return map_get(I, c.args[0], c.args[1])
    M[pre + "get_mut"] = _getm

    def _has(I, c):
        k = deep(I, c.args[1])
        m = I.read(_mapref(I, c.args[0]))
        if isinstance(k, BV):
            g = 0
            for x, y in m.items:
                if not isinstance(x, int):
                    raise Unsupported("symbolic map key")
                g = B.or_(g, B.beq(k, x, 64))
            return boolv(g)
        return 1 if m.get(mapkey(I, k)) is not None else 0
    M[pre + "contains_key"] = M[pre + "contains"] = _has
    M[pre + "iter"] = M[pre + "iter_mut"] = lambda I, c: map_iter(I, c.args[0], "ref")
    M[pre + "keys"] = lambda I, c: map_iter(I, c.args[0], "keys")
    M[pre + "values"] = M[pre + "values_mut"] = lambda I, c: map_iter(I, c.args[0], "values")
    M[pre + "into_values"] = lambda I, c: ItSeq(tuple(x for _, x in map_items(I, c.args[0])), 0, len(c.args[0].items), "val")
    M[pre + "into_keys"] = lambda I, c: ItSeq(tuple(x for x, _ in map_items(I, c.args[0])), 0, len(c.args[0].items), "val")
    M[pre + "len"] = lambda I, c: len(I.read(_mapref(I, c.args[0])).items)
    M[pre + "is_empty"] = lambda I, c: 0 if I.read(_mapref(I, c.args[0])).items else 1

    def _clear(I, c):
        I.write(c.args[0], MapV((), I.read(c.args[0]).kind))
        return UNIT
    M[pre + "clear"] = _clear

    def _remove(I, c):
        m = I.read(c.args[0])
        k = mapkey(I, c.args[1])
        old = m.get(k)
        I.write(c.args[0], m.without(k))
        if m.kind.endswith("set"):
            return 1 if old is not None else 0
        return some(old) if old is not None else NONE
    M[pre + "remove"] = _remove

    M[pre + "entry"] = lambda I, c: EntryV(_mapref(I, c.args[0]), mapkey(I, c.args[1]))

for _t in ("hash_map", "btree_map"):
    for _m in ("std::collections::%s::" % _t, "std::collections::%s::" % ("hash::map" if _t[0] == "h" else "btree::map::entry"),
               "std::collections::hash::map::" if _t[0] == "h" else "std::collections::btree::map::"):
        pre = _m + "Entry::"
        M[pre + "or_insert"] = lambda I, c: c.args[0].fill(I, lambda: c.args[1])
        M[pre + "or_insert_with"] = lambda I, c: c.args[0].fill(I, lambda: I.callv(c.args[1], []))
        M[pre + "or_default"] = lambda I, c: c.args[0].fill(I, lambda: default_of(I, c.env["V"]))
        M[pre + "key"] = lambda I, c: Ref(I.newcell(deep(I, c.args[0]).key))

        def _andmod(I, c):
            e = c.args[0]
            if I.read(e.r).get(e.key) is not None:
                I.callv(c.args[1], [e.slot()])
            return e
        M[pre + "and_modify"] = _andmod


# ------------------------------------------------------------------- threads
class Scope(Model):
    __slots__ = ("q",)

    def __init__(self):
        self.q = []

    def mkey(self):
        return (id(self),)

    def deref(self, I):
        return self


def run_task(I, h):
    """runs a spawned closure; accesses to shared atomics are logged per task"""
    if h.done:
        return
    h.done = True
    old = I.mode.get("task")
    I.mode["task"] = id(h)
    h.v = I.callv(h.f, [])
    I.mode["task"] = old


def run_tasks(I, s):
    q = [h for h in s.q if not h.done]
    if I.mode.get("spawn") == "reverse":
        q.reverse()
    for h in q:
        if I.pc == 0:
            return
        run_task(I, h)


def lost_updates(I, s):
    """a task that loads an atomic and later stores it, while another task changes it: the update can be lost"""
    tasks = {id(h) for h in s.q}
    for cell, l in I.mode.get("atomlog", {}).items():
        l = [x for x in l if x[0] in tasks]
        for t in {x[0] for x in l}:
            ops = [x[1] for x in l if x[0] == t]
            if "load" in ops and "store" in ops[ops.index("load"):] and any(x[0] != t and x[1] != "load" for x in l):
                I.panic(1, "lost update: concurrent tasks load and then store the same atomic")
                return


@model("std::thread::scope")
def _(I, c):
    s = Scope()
    r = I.callv(c.args[0], [s])
    if I.pc == 0:
        return None
    run_tasks(I, s)
    if I.pc:
        lost_updates(I, s)
    return r


class Handle(Model):
    __slots__ = ("v", "f", "s", "done")

    def __init__(self, f, s):
        self.v, self.f, self.s, self.done = None, f, s, False

    def mkey(self):
        return (id(self),)


@model("std::thread::Scope::spawn")
def _(I, c):
    s = c.args[0]
    I.mode["spawns"] = I.mode.get("spawns", 0) + 1
    h = Handle(c.args[1], s)
    s.q.append(h)
    if I.mode.get("spawn") != "reverse":
        run_task(I, h)
    return h


@model("std::thread::ScopedJoinHandle::join", "std::thread::JoinHandle::join")
def _(I, c):
    h = c.args[0]
    while isinstance(h, Ref):
        h = I.read(h)
    run_tasks(I, h.s)
    return ok(h.v) if I.pc else None


# ----------------------------------------------------------------- strings
@model("core::str::<impl str>::eq_ignore_ascii_case")
def _(I, c):
    a, b = deep(I, c.args[0]), deep(I, c.args[1])
    if isinstance(a, StrV) and isinstance(b, StrV) and isinstance(a.s, str) and isinstance(b.s, str):
        return 1 if a.s.lower() == b.s.lower() else 0
    return Top("string comparison")


@model("core::str::<impl str>::to_string", "std::string::String::from", "core::str::<impl str>::to_owned",
       "core::str::<impl str>::trim", "core::str::<impl str>::to_lowercase", "core::str::<impl str>::to_ascii_lowercase")
def _(I, c):
    return deep(I, c.args[0])


@model("std::string::String::new")
def _(I, c):
    return StrV("")


@model("std::ptr::null", "std::ptr::null_mut")
def _(I, c):
    return 0


@model("std::ptr::eq", "std::ptr::addr_eq")
def _(I, c):
    a, b = c.args
    if isinstance(a, Ref) and isinstance(b, Ref) and not any(isinstance(e, tuple) and e and e[0] == "x" for e in tuple(a.path) + tuple(b.path)):
        return 1 if (a.cell, tuple(a.path), a.win) == (b.cell, tuple(b.path), b.win) else 0
    raise Unsupported("pointer comparison")


import syncmodels  # noqa: E402,F401  (registers its models)
import stdmodels2  # noqa: E402,F401
