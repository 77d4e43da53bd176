"""Check context: loads the dumped program, collects obligations, writes evidence, reports violations."""
import json, os, sys, time, traceback, random
import bdd as B
from prog import Prog
from interp import *
import interp as IN
import stdmodels
import dump as D

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Restart(Exception):
    """more is known about a counter: analyse again"""


class Anchor(Exception):
    """a function, type or constant the property is stated about cannot be found"""


T0 = time.time()


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []            # (key, status, where, detail)
        self.fns = set()
        self.models = set()
        self.callsites = 0
        self.notes = []
        self.rule = ""
        self.trusted = []
        self.assumptions = []
        self.samples = []
        self.counts = {}
        self.t0 = time.time()
        self._prog = None
        self.dumpdir = None
        self.rng = random.Random(seed)
        self.counters, self.havoc = {}, {}     # counters found; counters to be taken with any value

    # ---------------------------------------------------------------- program
    @property
    def prog(self):
        if self._prog is None:
            self.dumpdir = D.dump()
            p = Prog()
            for n in ("fhevm.lib.json", "compiler.lib.json"):
                p.load(os.path.join(self.dumpdir, n))
            self._prog = p
        return self._prog

    def fresh(self, models=None):
        """new value domain and interpreter"""
        if getattr(self, "_I", None) is not None:
            self.done(self._I)
        B.reset()
        self._I = self.interp(models)
        return self._I

    def interp(self, models=None):
        m = stdmodels.M if models is None else models
        I = Interp(self.prog, m)
        I.counters, I.havoc = self.counters, self.havoc
        return I

    def done(self, I):
        self.fns |= I.fnseen
        self.models |= I.modelsused
        self.callsites += I.callsites

    def method(self, crate, ty, name):
        l = self.prog.method(crate, ty, name)
        if not l:
            raise Anchor("%s::%s::%s" % (crate, ty, name))
        return l[0]

    def func(self, crate, name, module=None):
        l = self.prog.func(crate, name, module) if module else self.prog.func(crate, name)
        l = l if isinstance(l, list) else ([l] if l else [])
        if not l:
            raise Anchor("%s::%s" % (crate, name))
        return l[0]

    def byname(self, fn, order, vals):
        """arguments for fn: vals follow the parameter names in order; parameters may be declared in another order"""
        have = {}
        for n, pl in fn.names:
            if not pl[1] and 1 <= pl[0] <= fn.argc:
                have[pl[0]] = n.lstrip("_")
        l = [have.get(i) for i in range(1, fn.argc + 1)]
        if fn.argc != len(order):
            raise Unsupported("parameters of %s: %s" % (fn.key, l))
        if sorted(map(str, l)) == sorted(order):
            return [vals[order.index(n)] for n in l]
        return list(vals)

    def adt(self, name, crate="fhevm"):
        for k, a in self.prog.adts.items():
            if k.startswith(crate) and k.split("::")[-1] == name:
                return k, a
        raise Anchor("type %s" % name)

    # ------------------------------------------------------------ obligations
    def ok(self, key, detail=""):
        self.obs.append((key, "ok", None, detail))

    def bad(self, key, where, detail):
        self.obs.append((key, "violation", where, detail))

    def und(self, key, why):
        self.obs.append((key, "undecided", None, why))

    def check(self, key, cond, where, detail=""):
        if cond:
            self.ok(key)
        else:
            self.bad(key, where, detail)
        return bool(cond)

    def tryob(self, key, f, *a):
        """run f; an analysis that leaves the supported subset leaves the obligation undecided"""
        if self.tier == "quick":
            t = time.time() - T0
            if t > 700 or t > 300 and any(o[1] not in ("ok", "undecided") for o in self.obs):
                self.und(key, "not analysed: time budget")
                return None
        try:
            return f(*a)
        except Unsupported as e:
            self.und(key, "unsupported: %s" % e)
        except B.TooBig as e:
            self.und(key, "value too large")
        except IN._NoField:
            self.und(key, "projection")
        except (Anchor, D.BuildError, Restart):
            raise
        except Exception as e:
            traceback.print_exc(file=sys.stdout)
            self.und(key, "internal error: %r" % (e,))
        return None

    def confirm(self, diff, pred, names=(), tries=400):
        """diff: BDD of the claimed difference. pred(assignment) -> description if the difference is real under the
        definitions of all terms. Returns a description or None."""
        for a in B.somesats(diff, 40):
            aa = {l: v for l, v in a.items() if l not in B.TERMDEF}
            d = pred(aa)
            if d:
                return d
        sup = [l for l in B.support([diff]) if l not in B.TERMDEF]
        # variables under terms
        tsup = set(sup)
        todo = [B.TERMDEF[l][0] for l in B.support([diff]) if l in B.TERMDEF]
        seen = set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for x in flat(k):
                if isinstance(x, BV):
                    for l in B.support(list(x.b)):
                        if l in B.TERMDEF:
                            todo.append(B.TERMDEF[l][0])
                        else:
                            tsup.add(l)
        for i in range(tries if todo or seen else 60):
            p = self.rng.choice((0.1, 0.5, 0.5, 0.9))
            aa = {l: 1 if self.rng.random() < p else 0 for l in tsup}
            if i % 3:
                # a satisfying path decides the inputs it mentions, the others (operands of terms) stay random
                aa.update((l, v) for l, v in B.randsat(diff, self.rng).items() if l not in B.TERMDEF)
            d = pred(aa)
            if d:
                return d
        return None

    def equal(self, key, got, want, w, guard, where, names, what="value"):
        """got == want (w bits) wherever guard holds. names: {label: abstract value} for the witness"""
        if not isint(got):
            if type(got) is Union or isinstance(got, (Top, Agg, Ref, Model)) or got is None:
                self.und(key, "value outside the integer domain: %r" % (got,))
                return False
        diff = 0
        for x, y in zip(B.bits(got, w), B.bits(want, w)):
            if x != y:
                diff = B.and_(guard, B.xor_(x, y))
                if diff:
                    break
        if diff == 0:
            self.ok(key)
            return True

        def pred(a):
            if not B.evalfull(guard, a):
                return None
            x, y = B.ceval(got, a), B.ceval(want, a)
            m = (1 << w) - 1
            if x & m != y & m:
                return dict(inputs={n: hex(B.ceval(v, a)) for n, v in names.items()}, have=hex(x & m), want=hex(y & m))
            return None
        d = self.confirm(diff, pred)
        if d is None:
            self.und(key, "difference not confirmed")
            return False
        self.bad(key, where, "%s: %s" % (what, json.dumps(d)))
        return False

    def never(self, key, g, where, names, what):
        """condition g must be unsatisfiable"""
        if g == 0:
            self.ok(key)
            return True

        def pred(a):
            if B.evalfull(g, a):
                return dict(inputs={n: hex(B.ceval(v, a)) for n, v in names.items()})
            return None
        d = self.confirm(g, pred)
        if d is None:
            self.und(key, "condition not confirmed")
            return False
        self.bad(key, where, "%s: %s" % (what, json.dumps(d)))
        return False


def flat(k):
    for x in k:
        if isinstance(x, tuple):
            yield from flat(x)
        else:
            yield x


def where(fn):
    return "%s:%s fn %s" % (fn.file, fn.line, fn.p) if fn is not None else "?"


def load_known():
    p = os.path.join(ROOT, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(json.loads(l))
    return out


def run(pid, fn, level, tier, seed):
    ctx, err = attempt(pid, fn, tier, seed, {})
    known = {}
    for k in load_known():
        if k.get("status") == "known" and k.get("property") == pid:
            known[k["key"]] = k
    if ctx.counters and not any(o[1] not in ("ok", "undecided") and o[0] not in known for o in ctx.obs):
        # the code keeps counters (static atomics, fields of the machine) that step with every run: any value must do
        t0 = ctx.t0
        c2, e2 = attempt(pid, fn, tier, seed, dict(ctx.counters))
        c2.t0 = t0
        if any(o[1] not in ("ok", "undecided") and o[0] not in known for o in c2.obs):
            ctx, err = c2, e2
        else:
            ctx.obs += [("any counter value:" + o[0],) + tuple(o[1:]) for o in c2.obs if o[0] not in known]
    return report(pid, ctx, err, known, level, tier, seed)


def attempt(pid, fn, tier, seed, counters):
    ctx = Ctx(pid, tier, seed)
    ctx.havoc = counters
    ctx.counters = {}
    B.reset()
    err = None
    try:
        fn(ctx)
    except Restart:
        return attempt(pid, fn, tier, seed, counters)
    except Anchor as e:
        ctx.und("anchor:" + str(e), "the construct this property is anchored on is missing: %s" % e)
    except D.BuildError as e:
        err = "the tree does not type-check: %s" % e
    except (Unsupported, B.TooBig, IN._NoField) as e:
        ctx.und("analysis", "unsupported: %r" % (e,))
    except RecursionError:
        ctx.und("analysis", "recursion")
    except Exception as e:       # an internal error of the analysis is no verdict
        traceback.print_exc(file=sys.stdout)
        ctx.und("analysis", "internal error: %r" % (e,))
    if getattr(ctx, "_I", None) is not None:
        ctx.done(ctx._I)
    return ctx, err


def report(pid, ctx, err, known, level, tier, seed):
    viol, kf, und, okc = [], [], [], 0
    for o in ctx.obs:
        if o[1] == "ok":
            okc += 1
        elif o[1] == "undecided":
            und.append(o)
        elif o[0] in known:
            kf.append(o)
        else:
            viol.append(o)
    print("== %s: %d obligations, %d discharged, %d undecided, %d known findings, %d violations"
          % (pid, len(ctx.obs), okc, len(und), len(kf), len(viol)))
    print("   analysed %d functions, %d call sites, %d models; rule: %s" % (len(ctx.fns), ctx.callsites, len(ctx.models), ctx.rule))
    for k, v in sorted(ctx.counts.items()):
        print("   %s: %s" % (k, v))
    for n in ctx.notes:
        print("   note: " + n)
    for o in und:
        print("UNDECIDED %s: %s" % (o[0], o[3]))
    for o in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[o[0]]["what"]))
    if err:
        print("ERROR " + err)
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    rp = os.path.join(ev, pid + ".replay.json")
    if viol:
        with open(rp, "w") as f:
            json.dump(dict(property=pid, violations=[dict(key=o[0], where=o[2], detail=o[3]) for o in viol],
                           rerun="python3 sa/check.py %s" % pid), f, indent=1)
    elif os.path.exists(rp):
        os.remove(rp)
    cov = dict(obligations=len(ctx.obs), discharged=okc, undecided=len(und), known_findings=len(kf),
               checker_cmd="python3 sa/check.py %s --tier %s" % (pid, tier),
               trusted_base=["rustc front end and MIR construction (nightly, -Zmir-opt-level=0)", "driver/main.rs MIR dump",
                             "sa/interp.py transfer functions", "sa/stdmodels.py models of std"] + ctx.trusted,
               functions_analysed=sorted(ctx.fns)[:400], functions=len(ctx.fns), call_sites=ctx.callsites,
               models_used=sorted(ctx.models)[:300], rule=ctx.rule, samples=ctx.samples[:10] or [o[0] for o in ctx.obs[:10]],
               explanation=ctx.rule, counts=ctx.counts,
               undecided_list=[(o[0], o[3]) for o in und], notes=ctx.notes)
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ctx.assumptions,
                       wall_s=round(time.time() - ctx.t0, 2), violations=len(viol)), f, indent=1, default=str)
    for o in viol:
        print("   violated obligation %s at %s\n      %s" % (o[0], o[2], o[3]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if err:
        return 2
    return 0
