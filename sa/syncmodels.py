"""Models of process-wide state: atomics, OnceLock/OnceCell/LazyLock, Mutex/RwLock, Cell/RefCell (single-threaded meaning)."""
import bdd as B
from interp import *
from stdmodels import M, model, some, NONE, ok as okv, err as errv

ORDERINGS = ("Relaxed", "Release", "Acquire", "AcqRel", "SeqCst")


def _tgt(I, r):
    """reference to the wrapper itself"""
    while True:
        v = I.read(r)
        if isinstance(v, Ref):
            r = v
        else:
            return r


def box(kind, v):
    return Agg("adt", [v], kind, 0)


def inner(I, r, kind):
    r = _tgt(I, r)
    v = I.read(r)
    if not isinstance(v, Agg) or v.id != kind:
        raise Unsupported("%s %r" % (kind, v))
    return r, v


def _set(I, r, kind, v):
    I.write(r, box(kind, v))


def note(I, c, what):
    t = I.mode.get("task")
    if t is not None:
        I.mode.setdefault("atomlog", {}).setdefault(repr(_tgt(I, c.args[0]).key()), []).append((t, what))


def atomics(names, w, signed=False):
    for n in names:
        for b in ("std::sync::atomic::", "core::sync::atomic::"):
            p = b + n

            def new(I, c):
                return box("Atomic", c.args[0])

            def ld(I, c):
                note(I, c, "load")
                return inner(I, c.args[0], "Atomic")[1].f[0]

            def sto(I, c):
                note(I, c, "store")
                r, _ = inner(I, c.args[0], "Atomic")
                _set(I, r, "Atomic", c.args[1])
                return UNIT

            def rmw(f, counts=False):
                def g(I, c):
                    note(I, c, "rmw")
                    r, v = inner(I, c.args[0], "Atomic")
                    if counts and not r.path and r.cell in I.glob:
                        for k, cc in I.constcache.items():
                            if k[0] == "static" and cc == r.cell:
                                I.counters[k] = w
                    _set(I, r, "Atomic", f(v.f[0], c.args[1]))
                    return v.f[0]
                return g
            M.setdefault(p + "::new", new)
            M.setdefault(p + "::load", ld)
            M.setdefault(p + "::store", sto)

            def cas(I, c):
                note(I, c, "rmw")
                r, v = inner(I, c.args[0], "Atomic")
                e = B.beq(v.f[0], c.args[1], w)
                if e not in (0, 1):
                    raise Unsupported("compare_exchange on unknown values")
                if e:
                    _set(I, r, "Atomic", c.args[2])
                return okv(v.f[0]) if e else errv(v.f[0])
            M.setdefault(p + "::compare_exchange", cas)
            M.setdefault(p + "::compare_exchange_weak", cas)
            M.setdefault(p + "::swap", rmw(lambda a, b: b))
            M.setdefault(p + "::fetch_add", rmw(lambda a, b: B.badd(a, b, w), True))
            M.setdefault(p + "::fetch_sub", rmw(lambda a, b: B.bsub(a, b, w), True))
            M.setdefault(p + "::fetch_or", rmw(lambda a, b: B.bor(a, b, w)))
            M.setdefault(p + "::fetch_and", rmw(lambda a, b: B.band(a, b, w)))


atomics(("AtomicUsize", "AtomicU64", "AtomicIsize", "AtomicI64", "Atomic"), 64)
atomics(("AtomicU32", "AtomicI32"), 32)
atomics(("AtomicU8", "AtomicI8"), 8)
atomics(("AtomicBool",), 1)


@model("std::sync::OnceLock::new", "std::cell::OnceCell::new", "std::sync::once_lock::OnceLock::new")
def _(I, c):
    return box("Once", NONE)


@model("std::sync::OnceLock::get_or_init", "std::cell::OnceCell::get_or_init", "std::sync::once_lock::OnceLock::get_or_init")
def _(I, c):
    r, v = inner(I, c.args[0], "Once")
    o = v.f[0]
    if not isinstance(o, Agg):
        raise Unsupported("conditionally initialised cell")
    if o.var == 0:
        x = I.callv(c.args[1], [])
        _set(I, r, "Once", some(x))
    return I.sub(I.sub(r, ("f", 0)), ("f", 0))


@model("std::sync::OnceLock::get", "std::cell::OnceCell::get", "std::sync::once_lock::OnceLock::get")
def _(I, c):
    r, v = inner(I, c.args[0], "Once")
    o = v.f[0]
    if not isinstance(o, Agg):
        raise Unsupported("conditionally initialised cell")
    return NONE if o.var == 0 else some(I.sub(I.sub(r, ("f", 0)), ("f", 0)))


@model("std::sync::OnceLock::set", "std::cell::OnceCell::set", "std::sync::once_lock::OnceLock::set")
def _(I, c):
    r, v = inner(I, c.args[0], "Once")
    o = v.f[0]
    if not isinstance(o, Agg):
        raise Unsupported("conditionally initialised cell")
    if o.var == 0:
        _set(I, r, "Once", some(c.args[1]))
        return okv(UNIT)
    return errv(c.args[1])


@model("std::sync::LazyLock::new", "std::cell::LazyCell::new", "std::sync::lazy_lock::LazyLock::new")
def _(I, c):
    return Agg("adt", [NONE, c.args[0]], "Lazy", 0)


@model("std::sync::LazyLock::force", "std::cell::LazyCell::force", "std::sync::lazy_lock::LazyLock::force")
def lazy_force(I, c):
    r, v = inner(I, c.args[0], "Lazy")
    if v.f[0].var == 0:
        x = I.callv(v.f[1], [])
        I.write(r, Agg("adt", [some(x), v.f[1]], "Lazy", 0))
    return I.sub(I.sub(r, ("f", 0)), ("f", 0))


@model("std::sync::Mutex::new", "std::sync::RwLock::new", "std::cell::RefCell::new", "std::cell::Cell::new",
       "std::sync::poison::mutex::Mutex::new", "std::sync::poison::rwlock::RwLock::new")
def _(I, c):
    return box("Lock", c.args[0])


@model("std::sync::Mutex::lock", "std::sync::RwLock::read", "std::sync::RwLock::write", "std::sync::poison::mutex::Mutex::lock",
       "std::sync::poison::rwlock::RwLock::read", "std::sync::poison::rwlock::RwLock::write")
def _(I, c):
    r, v = inner(I, c.args[0], "Lock")
    return okv(I.sub(r, ("f", 0)))


@model("std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut")
def _(I, c):
    r, v = inner(I, c.args[0], "Lock")
    return I.sub(r, ("f", 0))


@model("std::cell::Cell::get")
def _(I, c):
    return inner(I, c.args[0], "Lock")[1].f[0]


@model("std::cell::Cell::set")
def _(I, c):
    r, v = inner(I, c.args[0], "Lock")
    _set(I, r, "Lock", c.args[1])
    return UNIT


@model("std::cell::Cell::replace")
def _(I, c):
    r, v = inner(I, c.args[0], "Lock")
    _set(I, r, "Lock", c.args[1])
    return v.f[0]


# thread_local!: one instance, as the analysed code runs on one thread; inside parallel tasks the instance depends on the schedule
def tls(I):
    if I.mode.get("task") is not None:
        raise Unsupported("thread-local value in a parallel task")


@model("std::mem::needs_drop", "core::mem::needs_drop")
def _(I, c):
    return 0


@model("std::thread::LocalKey::new", "std::thread::local::LocalKey::new")
def _(I, c):
    return Agg("adt", [c.args[0]], "LocalKey", 0)


@model("std::thread::local_impl::LazyStorage::new", "std::sys::thread_local::native::lazy::Storage::new")
def _(I, c):
    return box("Tls", NONE)


@model("std::thread::local_impl::EagerStorage::new", "std::sys::thread_local::native::eager::Storage::new")
def _(I, c):
    return box("Tls", some(c.args[0]))


@model("std::thread::local_impl::EagerStorage::get", "std::sys::thread_local::native::eager::Storage::get")
def _(I, c):
    r, v = inner(I, c.args[0], "Tls")
    return I.sub(I.sub(r, ("f", 0)), ("f", 0))


@model("std::thread::local_impl::LazyStorage::get_or_init", "std::sys::thread_local::native::lazy::Storage::get_or_init")
def _(I, c):
    r, v = inner(I, c.args[0], "Tls")
    o = v.f[0]
    if not isinstance(o, Agg):
        raise Unsupported("conditionally initialised thread-local")
    if o.var == 0:
        _set(I, r, "Tls", some(I.callv(c.args[2], [])))
    return I.sub(I.sub(r, ("f", 0)), ("f", 0))


def tlsref(I, key):
    tls(I)
    _, v = inner(I, key, "LocalKey")
    return I.callv(v.f[0], [NONE])


@model("std::thread::LocalKey::with", "std::thread::local::LocalKey::with")
def _(I, c):
    return I.callv(c.args[1], [tlsref(I, c.args[0])])


@model("std::thread::LocalKey::with_borrow", "std::thread::local::LocalKey::with_borrow",
       "std::thread::LocalKey::with_borrow_mut", "std::thread::local::LocalKey::with_borrow_mut")
def _(I, c):
    r, v = inner(I, tlsref(I, c.args[0]), "Lock")
    return I.callv(c.args[1], [I.sub(r, ("f", 0))])


@model("std::thread::LocalKey::get", "std::thread::local::LocalKey::get")
def _(I, c):
    return inner(I, tlsref(I, c.args[0]), "Lock")[1].f[0]


@model("std::thread::LocalKey::set", "std::thread::local::LocalKey::set")
def _(I, c):
    r, v = inner(I, tlsref(I, c.args[0]), "Lock")
    _set(I, r, "Lock", c.args[1])
    return UNIT


@model("std::thread::LocalKey::replace", "std::thread::local::LocalKey::replace", "std::cell::RefCell::replace")
def _(I, c):
    k = I.read(_tgt(I, c.args[0]))
    r, v = inner(I, tlsref(I, c.args[0]) if k.id == "LocalKey" else c.args[0], "Lock")
    _set(I, r, "Lock", c.args[1])
    return v.f[0]
