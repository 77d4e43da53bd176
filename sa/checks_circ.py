"""P25: well-formedness of the generated decision-diagram tables."""
import poulpy as PP
from poulpy import val
from core import *
from checks_enc import fresh, cell


def tables(ctx):
    for k, f in sorted(ctx.prog.fns.items()):
        if f.crate == "fhevm" and f.k in ("const", "static") and "codegen" in f.file and "::" in f.p and f.n.isupper() \
                and f.locals and circ_type(f.locals[0]):
            yield f


def circ_type(t):
    while t.k == "ref":
        t = t.t
    return t.k == "adt" and t.id.split("::")[-1] == "Circuit"


def p25(ctx):
    ctx.rule = ("level-by-level dataflow over every generated table: which slots of a level hold a value; every Cmux and Copy may "
                "only read slots that hold one, inputs below INPUT_BITS, levels of the declared width, last level starts with Cmux, "
                "info() of each variant returns the variant's own table")
    ctx.trusted = ["sa/poulpy.py (layout of Circuit, BitCircuit and Node)"]
    nt = nn = 0
    for f in tables(ctx):
        name = f.p
        I = fresh(ctx)
        v = I.runconst(f, {})
        r = v if isinstance(v, Ref) else cell(I, v)
        res = PP.circuit_info(I, r)
        if res is None:
            ctx.bad("%s:info" % name, where(f), "table or output count out of range: %s" % (I.panics[:1],))
            continue
        outs, ib, ob, aid = res
        nt += 1
        items = I.read(I.sub(PP.target(I, r), ("f", 0))).f
        ctx.check("%s:outputs" % name, len(items) == ob, where(f), "%d tables, %d declared outputs" % (len(items), ob))
        for i, (nodes, state) in enumerate(outs):
            w = "%s (output %d)" % (where(f), i)
            k = "%s:%d" % (name, i)
            own = items[i].f[0]
            onodes, ostate = own.f[0], own.f[1]
            onodes = val(I, onodes).f
            ctx.check(k + ":own", list(onodes) == list(nodes) and ostate == state, w, "info() does not return this output's own table")
            nn += len(nodes)
            bad = None
            if state == 0:
                if any(PP.nodevar(I, x)[0] != "None" for x in nodes):
                    bad = "a table of width 0 with nodes"
            elif not nodes or len(nodes) % state:
                bad = "%d nodes are not a whole number of levels of width %d" % (len(nodes), state)
            elif state < 2:
                bad = "width %d cannot hold the two constants" % state
            else:
                held = {0, 1}
                for s in range(0, len(nodes), state):
                    nxt = set()
                    last = s == len(nodes) - state
                    for j in range(state):
                        kind, ops = PP.nodevar(I, nodes[s + j])
                        if kind == "Cmux":
                            if ops[0] >= ib:
                                bad = bad or "node %d reads input %d of %d" % (s + j, ops[0], ib)
                            for o in ops[1:]:
                                if o not in held:
                                    bad = bad or "node %d (level %d) reads slot %d, which holds no value" % (s + j, s // state, o)
                            nxt.add(j)
                        elif kind == "Copy":
                            if j not in held:
                                bad = bad or "node %d copies slot %d, which holds no value" % (s + j, j)
                            nxt.add(j)
                        if last and j == 0 and kind != "Cmux":
                            bad = bad or "the last level does not start with a value node"
                    held = nxt
            ctx.check(k, bad is None, w, bad or "")
    if not nt:
        ctx.und("tables", "no generated table found")
    ctx.counts.update(tables=nt, nodes=nn)
