"""M06: the processing unit."""
from rules import rule
from rules.base import *
from rules.contexts import Body, of_type, alike, ended
from rules.adapters import chan_engine, element_fields
from rules.memory import adapters, low, pushed
from rules.templates import strictly
from layers import StageLayer

OPS = {"Add": "Add", "Sub": "Sub", "Mul": "Mul", "Div": "Div"}


def same_reg(e, st, v, w):
    """Is v the register w, or a copy of it?"""
    v, w = e.resolve(st, v), e.resolve(st, w)
    if eq_terms(st, v, w): return True
    if v.op != "agg" or w.ty is None and v.ty is None: return False
    n = e.p.nfields(v.ty if v.ty is not None else w.ty, 0)
    return n == len(v.a) - 1 and all(eq_terms(st, x, e.resolve(st, e.step(st, w, ("f", 0, i)))) for i, x in enumerate(v.a[1:]))


def updates(v, ph):
    """[(index, value)] written on the way from ph to v, oldest first, or None."""
    r = []
    while v is not ph:
        if v.op != "upd": return None
        r.append((v.a[1], v.a[2])); v = v.a[0]
    return r[::-1]


def complete(e, rec, st=None):
    """Is every element of what a loop runs over visited (on path st if given; panics apart)?"""
    d = Drive(rec, e)
    if d.src is None and d.root is None: return False
    if d.src is not None and adapters(d.src) & (PARTIAL | {"filter", "filter_map"}): return False
    early = [x for x in d.early if x[0] == "partial"] if st is not None and ended(e, st, rec) else d.early
    return not early


def mapped(e, v):
    """(loop, [(state, value)]) of a vector made by one value per iteration of a complete loop."""
    if v.op == "collect" and v.a[0] in e.loops:
        rec = e.loops[v.a[0]]
        src = Drive(rec, e).src
        if src is None or "rev" in adapters(src): return None, None
        return rec, list(rec.results)
    if v.op == "phi" and v.a[0][0] in e.loops:
        rec = e.loops[v.a[0][0]]
        class B: pass
        b = B(); b.e = e
        return rec, pushed(b, rec, v)
    return None, None


def counters(e, rec):
    """[(number, start)] of the numbers that a loop raises by one in every iteration."""
    r = []
    if rec.entry is None: return r
    for al, i in rec.entry.mem.items():
        if i.op != "phi" or i.a[0][0] != rec.serial or i.ty is None or e.p.tk(i.ty) != "uint": continue
        if all(eq_terms(s, e.subst_phi(s, i, rec), e.binop(s, "Add", i, const(1, i.ty), i.ty)) for s in rec.iters): r.append((i, e.subst_phi(rec.init, i, rec)))
    return r


def places(e, rec, s):
    """Terms for the position of a loop's iteration."""
    return [x.a[2] for x in rec.iter_events(s) if x.k == "next" and x.a[2] is not None] + [i for i, a in counters(e, rec) if isc(a) and a.a[0] == 0]


def field(e, st, v, ty, name):
    i = e.p.field_index(ty, name)
    return None if i is None else e.resolve(st, e.step(st, v, ("f", 0, i)))


@rule("M06")
def m06(rep):
    rep.rule("PipelineStage::run calls its operation once on exactly the listed registers of the two rows, in order, and returns the next row with only the listed output registers (from the operation's results, in order) and the forwarded registers (from the listed sources) replaced. Per iteration, PCU::run calls the ingress operation once, on the first row; for every position below the depth, in order, replaces row i+1 by stage i of rows i and i+1, or by row i where no stage is filled; calls the egress operation once on the last row with the current cycle plus the depth; and moves the clock. It returns only when the ingress operation reports the end of its inputs. The provided ingress waits for an element on every input channel, then takes exactly one from each into the register of the same position, and reports the end only after a failed wait or dequeue; the provided egress sends register i on channel i once at the given time. The arithmetic operations apply their operator to registers 0 and 1.")
    p = prog("main")
    stage(rep, p)
    unit_run(rep)
    ingress(rep, p)
    egress(rep, p)
    operations(rep, p)


# ---- one stage
def stage(rep, p):
    key = [x["key"] for x in p.roots if x["n"] == "run" and x.get("trait") is None and of_type(x, p, "PipelineStage") and x["key"] in p.bodies]
    if not rep.ok(len(key) == 1, "anchor:stage", "a pipeline stage has no run method"): return
    key = key[0]
    e, tl, cl = chan_engine(rep)
    st = State()
    args = e.sym_args(key, st)
    site = body_site(p, key)
    outs = e.run_fn(key, args, st)
    rep.use(e)
    if not rep.ok(len(args) == 3, "anchor:stage", "a pipeline stage has another interface"): return
    me = e.seen_by(st, args[0]); prev = e.seen_by(st, args[1]); nxt = e.seen_by(st, args[2])
    ids = {n: field(e, st, me, me.ty, n) for n in ("op", "forward", "prev_register_ids", "next_register_ids", "output_register_ids")}
    if not rep.ok(all(v is not None for v in ids.values()), "anchor:fields", "a pipeline stage has other fields", site): return
    func = field(e, st, ids["op"], ids["op"].ty, "func")
    rets = [o for o in outs if o.kind == "ret"]
    rep.ok(len(rets) >= 1, "stage:returns", "a pipeline stage never finishes", site)
    for o in rets:
        s = o.st
        uc = [x for x in s.events() if x.k == "usercall"]
        inner = [x for rec in loops_of(s) for z in rec.iters for x in rec.iter_events(z) if x.k == "usercall"]
        if not rep.ok(len(uc) == 1 and not inner and eq_terms(s, uc[0].a[0], func), "stage:op", "a stage does not run its operation exactly once", site): continue
        uc = uc[0]
        for k, (n, rows) in enumerate((("prev_register_ids", prev), ("next_register_ids", nxt))):
            rep.ok(picks(e, s, uc.a[3][k] if len(uc.a[3]) > k else None, ids[n], rows), "stage:" + n, "a stage does not pass the listed registers of the %s row to its operation" % ("previous" if not k else "next"), site)
        v = e.resolve(s, o.val)
        seen = []
        while v.op == "phi" and v.a[0][0] in e.loops:
            rec = e.loops[v.a[0][0]]
            which = None
            for z in rec.iters:
                ups = updates(e.subst_phi(z, v, rec), v)
                if not rep.ok(ups is not None and len(ups) == 1, "stage:changes", "a stage changes other registers than the listed ones", site): which = "bad"; continue
                i, w = ups[0]
                w1 = None
                for q in places(e, rec, z):
                    if eq_terms(z, i, e.step(z, ids["output_register_ids"], ("ix", q))):
                        w1 = "out"
                        rep.ok(same_reg(e, z, w, e.step(z, uc.a[2], ("ix", q))), "stage:output", "a stage puts a result of its operation into another register than the listed one", site)
                    fw = e.step(z, ids["forward"], ("ix", q))
                    if eq_terms(z, i, e.resolve(z, e.step(z, fw, ("f", 0, 1)))):
                        w1 = "fwd"
                        rep.ok(same_reg(e, z, w, e.step(z, prev, ("ix", e.resolve(z, e.step(z, fw, ("f", 0, 0)))))), "stage:forward", "a stage forwards another register than the listed one", site)
                if w1 and which in (None, w1): which = w1
                else: which = "bad"
            rep.ok(which in ("out", "fwd"), "stage:changes", "a stage changes other registers than the listed ones", site)
            rep.ok(complete(e, rec), "stage:all", "a stage leaves out some of its listed registers", site)
            rep.ok(len(rec.iters) == 1, "stage:some", "a stage leaves out some of its listed registers", site)
            seen.append(which)
            v = e.subst_phi(rec.init, v, rec)
        rep.ok(sorted(seen) == ["fwd", "out"], "stage:writes", "a stage does not write its results and its forwarded registers", site)
        rep.ok(copy_of(e, s, v, nxt), "stage:base", "a stage does not start from the next row of registers", site)


def copy_of(e, st, v, w):
    v = e.resolve(st, v)
    if eq_terms(st, v, w): return True
    rec, parts = mapped(e, v)
    return bool(parts) and complete(e, rec) and all(any(same_reg(e, z, x, e.step(z, w, ("ix", q))) for q in places(e, rec, z)) for z, x in parts)


def picks(e, st, v, ids, rows):
    """Is v, in order, the registers of a row that a list of numbers names?"""
    if v is None: return False
    rec, parts = mapped(e, e.resolve(st, v))
    if not parts or not complete(e, rec) or any(x.k == "reversed" for z, _ in parts for x in rec.iter_events(z)): return False
    return all(any(same_reg(e, z, x, e.step(z, rows, ("ix", e.resolve(z, e.step(z, ids, ("ix", q)))))) for q in places(e, rec, z)) for z, x in parts)


# ---- the unit
def unit_run(rep):
    b = Body(rep, "PCU", layers=lambda b: StageLayer(b.e))
    if b.key is None: return
    p, e, tl, site = b.p, b.e, b.tl, b.site
    ty = b.self0.ty
    fs = {p.types[ty]["vs"][0][2][i][0]: i for i in range(p.nfields(ty, 0))}
    cfg = stages = ins = outs_ = regs = None
    for n, i in fs.items():
        t = p.field_ty(ty, 0, i)
        el = e.elem_ty(t)
        if (p.adt(t) or "").endswith("PCUConfig"): cfg = i
        elif el is not None and (p.adt(el) or "").endswith("PipelineStage"): stages = i
        elif el is not None and (p.adt(el) or "").endswith("channel::Receiver"): ins = i
        elif el is not None and (p.adt(el) or "").endswith("channel::Sender"): outs_ = i
        elif el is not None and e.elem_ty(el) is not None and (p.adt(e.elem_ty(el)) or "").endswith("PipelineRegister"): regs = i
    if not rep.ok(None not in (cfg, stages, ins, outs_, regs), "anchor:unit", "the parts of the processing unit cannot be found", site): return
    registration(rep, p, {"push_stage": stages, "add_input_channel": ins, "add_output_channel": outs_})
    own = lambda s, i: e.resolve(s, e.step(s, b.self0, ("f", 0, i)))
    c0 = own(b.st, cfg)
    depth = field(e, b.st, c0, c0.ty, "pipeline_depth")
    st0 = own(b.st, stages)
    main = []
    for o in b.outs:
        for rec in loops_of(o.st):
            if rec not in main and any(x.k == "usercall" for s in rec.iters for x in rec.iter_events(s)): main.append(rec)
    if not rep.ok(len(main) == 1 and depth is not None, "unit:loop", "the processing unit does not run in one loop", site): return
    main = main[0]
    def ends(s, evs):
        return [x for x in evs if x.k == "usercall" and x.a[2].ty == p.bool_ty], [x for x in evs if x.k == "usercall" and x.a[2].ty != p.bool_ty]
    def calls(evs):
        n = 0
        for x in evs:
            if x.k == "usercall": n += 1
            if x.k == "loop": n += sum(calls(x.a[0].iter_events(z)) for z in x.a[0].iters)
        return n
    n = 0
    for s in main.iters:
        evs = main.iter_events(s)
        i, o = ends(s, evs)
        if not rep.ok(len(i) == 1 and len(o) == 1 and calls(evs) == 2, "unit:once", "the processing unit does not take its inputs once and send its results once per round", site): continue
        i, o = i[0], o[0]
        n += 1
        rep.ok(fact(s, i.a[2]) == 1, "unit:end", "the processing unit goes on after the end of its inputs", site)
        rep.ok(evs.index(i) < evs.index(o), "unit:order", "the processing unit sends results before it takes inputs", site)
        ph = regs_phi(b, main, regs)
        if not rep.ok(ph is not None, "unit:rows", "the processing unit does not keep its registers", site): continue
        # the first row goes through the ingress operation
        rows = [y for y in i.a[3]]
        first = e.resolve(s, e.step(s, ph, ("ix", const(0, p.usize_ty))))
        k = next((k for k, y in enumerate(rows) if eq_terms(s, y, first)), None)
        rep.ok(k is not None, "unit:first", "the processing unit does not take its inputs into the first row of registers", site)
        rep.ok(any(eq_terms(s, y, own(s, ins)) for y in rows), "unit:inputs", "the processing unit takes its inputs from elsewhere", site)
        rep.ok(clock_given(b, s, i), "unit:clock", "the processing unit gives another clock than its own", site)
        cur, lo = None, const(0, p.usize_ty)
        good = True
        for x in evs[evs.index(i) + 1:evs.index(o)]:
            if x.k != "loop": continue
            rec = x.a[0]
            q = regs_phi(b, rec, regs)
            if q is None or not any(e.subst_phi(z, q, rec) is not q for z in rec.iters): continue
            init = e.resolve(rec.init, e.subst_phi(rec.init, q, rec))
            if cur is None:
                ups = updates(init, ph)
                r0 = e.resolve(rec.init, e.step(rec.init, init, ("ix", const(0, p.usize_ty))))
                rep.ok(ups is not None and all(isc(a) and a.a[0] == 0 for a, _ in ups) and k is not None and alike(r0, i.a[4][k]), "unit:row0", "what the ingress operation leaves is not what the first stage sees", site)
            else: good &= init is cur
            hi = advance_rows(rep, b, rec, q, lo, st0, site)
            if hi is None: good = False; break
            lo, cur = hi, q
        rep.ok(good and cur is not None and eq_terms(s, lo, depth), "unit:depth", "the processing unit does not run every stage of its pipeline in order", site)
        # the last row goes to the egress operation
        if cur is not None:
            last = e.resolve(s, e.step(s, cur, ("ix", depth)))
            rep.ok(any(eq_terms(s, y, last) for y in o.a[3]), "unit:last", "the processing unit does not send the last row of registers", site)
        rep.ok(any(eq_terms(s, y, own(s, outs_)) for y in o.a[3]), "unit:outputs", "the processing unit sends its results elsewhere", site)
        rep.ok(clock_given(b, s, o), "unit:clock", "the processing unit gives another clock than its own", site)
        lent = [x for x in evs[:evs.index(o)] if x.k == "lent"]
        now = lent[-1].a[2] if lent else None
        times = [y for y in o.a[3] if y.ty == tl.ty]
        rep.ok(len(times) == 1 and now is not None and stamped(e, s, times[0], now, depth), "unit:stamp", "the processing unit stamps its results with another time than the current cycle plus its depth", site)
        end = s.mem.get(lent[-1].a[0]) if lent else None
        rep.ok(end is not None and lent and strictly(e, s, lent[-1].a[1], end), "unit:time", "the processing unit does not take time between two rounds", site)
    for o in b.outs:
        if o.kind == "panic": continue
        evs = since(o.st, main)
        i, x = ends(o.st, evs)
        rep.ok(len(i) == 1 and not x and fact(o.st, i[0].a[2]) == 0, "unit:stops", "the processing unit stops before the end of its inputs", site)
    rep.floor("rounds of the processing unit", n, 1)


def fact(st, v):
    if isc(v): return v.a[0]
    return st.truth.get(v)


def regs_phi(b, rec, regs):
    """The registers as a loop carries them."""
    for z in rec.iters:
        v = b.e.load(rec.entry, *b.me) if rec.entry is not None else None
        if v is None: return None
        v = b.e.resolve(rec.entry, b.e.step(rec.entry, v, ("f", 0, regs)))
        return v if v.op == "phi" and v.a[0][0] == rec.serial else None
    return None


def clock_given(b, s, x):
    e = b.e
    for a in x.a[1]:
        if a.op != "ref": continue
        al, path = e.deref(s, a)
        if b.clock_ok(("clk", al, path)): return True
    return False


def stamped(e, s, t, now, depth):
    """t == now + depth"""
    if t.op != "op" or t.a[0] != "Add" or len(t.a) != 3: return False
    for x, y in (t.a[1:], t.a[:0:-1]):
        if not eq_terms(s, x, now): continue
        while y.op == "op" and y.a[0] in ("time", "cast") and len(y.a) == 2: y = y.a[1]
        if eq_terms(s, y, depth): return True
    return False


def advance_rows(rep, b, rec, ph, lo, stages, site):
    """A loop that computes row i + 1 for i from lo on; returns where it stops, or None."""
    e = b.e
    d = Drive(rec, e)
    it = d.src
    if it is not None and not complete(e, rec): rep.fail("unit:some", "the processing unit leaves out some stages", site); return None
    if any(x.k == "reversed" for z in rec.iters for x in rec.iter_events(z)): rep.fail("unit:reversed", "the processing unit runs its stages out of order", site); return None
    if it is not None:
        start = low(it)
        if start is None: start = const(0, e.p.usize_ty); hi = e.iter_len(rec.init, it)
        else:
            while it.a[0][0] != "range": it = it.a[0][2]
            hi = it.a[0][3]
    else:
        c = [(i, a, t.a[2]) for i, a in counters(e, rec) for t, v in rec.iters[0].truth.items() if v == 1 and t.op == "op" and t.a[0] == "Lt" and t.a[1] is i]
        c = [(a, h) for i, a, h in c if all(prove_le(o[1], h, i) for o in rec.exits if o[0] != "panic")]
        if not c: rep.fail("unit:some", "the processing unit leaves out some stages", site); return None
        start, hi = c[0]
    if hi is None or not eq_terms(rec.init, start, lo): return None
    for z in rec.iters:
        evs = rec.iter_events(z)
        items = [x.a[1] for x in evs if x.k == "next"] + places(e, rec, z) + [i for i, a in counters(e, rec)]
        ups = updates(e.subst_phi(z, ph, rec), ph)
        if not rep.ok(ups is not None and len(ups) == 1, "unit:row", "a stage of the processing unit changes other rows than its own", site): return None
        t, v = ups[0]
        pos = [q for q in items if q.ty is not None and e.p.tk(q.ty) == "uint" and eq_terms(z, t, e.binop(z, "Add", q, const(1, q.ty), q.ty))]
        if not rep.ok(bool(pos), "unit:row", "a stage of the processing unit changes other rows than its own", site): return None
        q = pos[0]
        row = lambda i: e.resolve(z, e.step(z, ph, ("ix", i)))
        runs = [x for x in evs if x.k == "stage_run"]
        if runs:
            x = runs[0]
            rep.ok(len(runs) == 1 and eq_terms(z, x.a[0], e.resolve(z, e.step(z, stages, ("ix", q)))), "unit:stage", "the processing unit runs another stage than the one in turn", site)
            rep.ok(eq_terms(z, x.a[1], row(q)) and eq_terms(z, x.a[2], row(t)), "unit:regs", "the processing unit runs a stage on other registers than its own", site)
            rep.ok(eq_terms(z, v, x.a[3]), "unit:result", "the processing unit drops the result of a stage", site)
        else:
            rep.ok(prove_le(z, e.length(z, stages), q), "unit:skips", "the processing unit passes over a filled stage", site)
            rep.ok(copy_of(e, z, v, row(q)), "unit:noop", "an unfilled stage does not forward its registers", site)
    return hi


# ---- the provided ends
def provided(rep, p, name):
    """The function that a public constant of the unit stands for, run on arbitrary arguments."""
    key = [x["key"] for x in p.roots if x["p"].split("::")[-1] == name and of_type(x, p, "PCU") and x["key"] in p.bodies]
    if not rep.ok(len(key) == 1, "anchor:" + name, "%s is gone" % name): return None
    e, tl, cl = chan_engine(rep)
    st = State()
    outs = [o for o in e.run_fn(key[0], e.sym_args(key[0], st), st) if o.kind == "ret"]
    if not rep.ok(len(outs) == 1, "anchor:" + name, "%s is gone" % name): return None
    return call_fn(rep, p, e, cl, outs[0].st, e.resolve(outs[0].st, outs[0].val), name)


def call_fn(rep, p, e, cl, st, fv, name):
    t = p.types[fv.ty] if fv.ty is not None else {}
    body = t.get("b") if t.get("k") == "closure" else p.callees[t["c"]].get("b") if t.get("k") == "fndef" else p.callees[fv.a[0]].get("b") if fv.op == "fn" else None
    if not rep.ok(body in p.bodies, "anchor:" + name, "%s is not a function of this library" % name): return None
    args = e.sym_args(body, st)
    if t.get("k") == "closure": args = args[1:]
    outs = e.call_value(st, fv, args, p.bodies[body]["l"][0])
    rep.use(e)
    return e, st, args, outs, body_site(p, body)


def ingress(rep, p):
    r = provided(rep, p, "READ_ALL_INPUTS")
    if r is None: return
    e, st, args, outs, site = r
    chans, regs = e.seen_by(st, args[0]), e.deref(st, args[1])
    n = 0
    for o in outs:
        if o.kind == "panic": continue
        s = o.st
        v = fact(s, e.resolve(s, o.val))
        loops = [rec for rec in loops_of(s) if has_dequeue(rec)]
        if not rep.ok(v in (0, 1), "in:verdict", "the provided ingress does not say whether there was input", site): continue
        n += 1
        if v == 0:
            evs = s.events()
            bad = any(x.k in ("dequeue", "peek_next") and x.a[2] == 0 for x in evs) or any(k == 1 and "DequeueError" in p.ts(y.ty) for y, k in s.var.items() if y.ty is not None)
            rep.ok(bad, "in:ends", "the provided ingress reports the end of its inputs although all arrived", site)
            continue
        if not rep.ok(len(loops) == 1 and not any(x.k == "dequeue" for x in s.events()), "in:once", "the provided ingress does not take exactly one element per input channel", site): continue
        rec = loops[0]
        rep.ok(complete(e, rec, s) and over_all(e, rec, chans), "in:all", "the provided ingress leaves out an input channel", site)
        for z in rec.iters:
            d = [x for x in rec.iter_events(z) if x.k == "dequeue"]
            ok = len(d) == 1 and any(at_chan(e, z, d[0].a[0], args[0], q) for q in places(e, rec, z))
            rep.ok(ok and e.deref(z, d[0].a[1] if isinstance(d[0].a[1], V) else args[2]) == e.deref(z, args[2]), "in:once", "the provided ingress does not take exactly one element per input channel", site)
        at = next(i for i, x in enumerate(s.events()) if x.k == "loop" and x.a[0] is rec)
        waits = [x.a[0] for x in s.events()[:at] if x.k == "loop" and complete(e, x.a[0], s) and over_all(e, x.a[0], chans)]
        waits = [w for w in waits if all(any(x.k == "peek_next" and any(at_chan(e, z, x.a[0], args[0], q) for q in places(e, w, z)) for x in w.iter_events(z)) for z in w.iters)]
        rep.ok(bool(waits), "in:waits", "the provided ingress takes an element before there is one on every input channel", site)
        cur = e.resolve(s, e.load(s, *regs))
        # registers: filled in a loop from the elements of the same position
        ok = cur.op == "phi" and cur.a[0][0] in e.loops
        if rep.ok(ok, "in:fills", "the provided ingress does not fill the registers", site):
            w = e.loops[cur.a[0][0]]
            rep.ok(complete(e, w, s), "in:fills", "the provided ingress does not fill the registers", site)
            for z in w.iters:
                ups = updates(e.subst_phi(z, cur, w), cur)
                if not rep.ok(ups is not None and len(ups) == 1, "in:fills", "the provided ingress does not fill one register per channel", site): continue
                i, x = ups[0]
                rep.ok(any(i is q for q in places(e, w, z)) and filled(e, z, x, i, rec, w, cur), "in:position", "the provided ingress puts an element into another register than that of its channel", site)
    rep.floor("outcomes of the provided ingress", n, 2)


def has_dequeue(rec): return any(x.k == "dequeue" for z in rec.iters for x in rec.iter_events(z))


def over_all(e, rec, coll):
    d = Drive(rec, e)
    return d.root is not None and alike(d.root[3], coll)


def at_chan(e, st, ref, arg, q):
    al, path = e.deref(st, ref)
    a2, p2 = e.deref(st, arg)
    return al == a2 and path[:len(p2)] == p2 and len(path) == len(p2) + 1 and path[-1][0] == "ix" and path[-1][1] is q


def filled(e, z, x, i, rec, w, cur):
    """Does the register written hold the payload of the element that the channel at this position delivered?"""
    pos = places(e, w, z)
    x = e.resolve(z, x)
    if x.op == "agg" and len(x.a) == 2: x = e.resolve(z, x.a[1])
    if rec is w:
        return any(y.k == "dequeue" and y.a[2] == 1 and payload(e, z, y.a[3]) is x for y in rec.iter_events(z))
    # taken from what was collected at the same position
    y = x
    for _ in range(3):
        if y.op == "fld": y = y.a[0]
    if y.op != "elt" or not (any(y.a[1] is q for q in pos) and any(i is q for q in pos)): return False
    c, parts = mapped(e, y.a[0])
    if c is not rec or not parts: return False
    hit = False
    for s, v in parts:
        v = e.resolve(s, v)
        d = [q for q in rec.iter_events(s) if q.k == "dequeue" and q.a[2] == 1]
        if v.op == "agg" and v.a[0] == 1: continue          # a failed dequeue is not stored
        if not d: return False
        el = v.a[1] if v.op == "agg" and len(v.a) == 2 else v
        if e.resolve(s, el) is not d[0].a[3]: return False
        hit = True
    ti, di = element_fields(e.p, d[0].a[3].ty) if hit else (0, 1)
    return hit and x.op == "fld" and x.a[2] == di


def payload(e, st, el):
    ti, di = element_fields(e.p, el.ty)
    return e.resolve(st, e.step(st, el, ("f", 0, di)))


def egress(rep, p):
    r = provided(rep, p, "WRITE_ALL_RESULTS")
    if r is None: return
    e, st, args, outs, site = r
    if not rep.ok(len(args) == 4, "anchor:WRITE_ALL_RESULTS", "the provided egress has another interface", site): return
    chans, regs, when = e.seen_by(st, args[0]), e.seen_by(st, args[1]), args[2]
    n = 0
    for o in outs:
        if o.kind == "panic": continue
        s = o.st
        n += 1
        loops = [rec for rec in loops_of(s) if any(x.k == "enqueue" for z in rec.iters for x in rec.iter_events(z))]
        if not rep.ok(len(loops) == 1 and not any(x.k == "enqueue" for x in s.events()), "out:once", "the provided egress does not send exactly one element per output channel", site): continue
        rec = loops[0]
        rep.ok(complete(e, rec) and over_all(e, rec, chans), "out:all", "the provided egress leaves out an output channel", site)
        for z in rec.iters:
            d = [x for x in rec.iter_events(z) if x.k == "enqueue"]
            q = next((q for q in places(e, rec, z) if len(d) == 1 and at_chan(e, z, d[0].a[0], args[0], q)), None)
            if not rep.ok(q is not None and d[0].a[2] == 1, "out:once", "the provided egress does not send exactly one element per output channel", site): continue
            ti, di = element_fields(p, d[0].a[3].ty)
            el = d[0].a[3]
            rep.ok(eq_terms(z, e.resolve(z, e.step(z, el, ("f", 0, ti))), when), "out:time", "the provided egress stamps a result with another time than it was given", site)
            row = e.step(z, regs, ("ix", q))
            rep.ok(eq_terms(z, e.resolve(z, e.step(z, el, ("f", 0, di))), e.resolve(z, e.step(z, row, ("f", 0, 0)))), "out:data", "the provided egress sends another register than that of the channel", site)
    rep.floor("outcomes of the provided egress", n, 1)


def operations(rep, p):
    n = 0
    for x in p.roots:
        name = x["p"].split("::")[-1]
        if not x["p"].startswith("templates::ops::ALU") or x["key"] not in p.bodies or x.get("self") is not None: continue
        op = next((v for k, v in OPS.items() if name == "ALU" + k + "Op"), None)
        if op is None: continue
        e, tl, cl = chan_engine(rep)
        st = State()
        outs = [o for o in e.run_fn(x["key"], e.sym_args(x["key"], st), st) if o.kind == "ret"]
        site = body_site(p, x["key"])
        if not rep.ok(len(outs) == 1, "op:" + name, "%s is not an operation" % name, site): continue
        s, v = outs[0].st, e.resolve(outs[0].st, outs[0].val)
        fv = field(e, s, v, v.ty, "func")
        r = call_fn(rep, p, e, cl, s, fv, name)
        if r is None: continue
        e, st, args, outs, site = r
        n += 1
        row = e.seen_by(st, args[0])
        for o in outs:
            if o.kind == "panic": continue
            w = e.resolve(o.st, o.val)
            reg = [e.resolve(o.st, e.step(o.st, e.step(o.st, row, ("ix", const(i, p.usize_ty))), ("f", 0, 0))) for i in (0, 1)]
            one = w.op == "agg" and len(w.a) == 2
            y = e.resolve(o.st, w.a[1]) if one else None
            y = e.resolve(o.st, y.a[1]) if y is not None and y.op == "agg" and len(y.a) == 2 else y
            rep.ok(one and y.op == "op" and y.a[0] == "user" + op and eq_terms(o.st, y.a[1], reg[0]) and eq_terms(o.st, y.a[2], reg[1]), "op:" + name, "%s does not apply its operator to the first and second register" % name, site)
    rep.floor("arithmetic operations", n, 4)


def registration(rep, p, fields):
    """Stages and channels are kept in the order they are added, all of them."""
    for name, i in fields.items():
        key = [x["key"] for x in p.roots if x["p"].split("::")[-1] == name and x.get("trait") is None and of_type(x, p, "PCU") and x["key"] in p.bodies]
        if not rep.ok(len(key) == 1, "anchor:" + name, "PCU::%s is gone" % name): continue
        e, tl, cl = chan_engine(rep)
        st = State()
        args = e.sym_args(key[0], st)
        me = e.deref(st, args[0])
        old = e.load(st, me[0], me[1] + (("f", 0, i),))
        outs = [o for o in e.run_fn(key[0], args, st) if o.kind == "ret"]
        site = body_site(p, key[0])
        rep.use(e)
        rep.ok(bool(outs), "add:" + name, "PCU::%s never finishes" % name, site)
        for o in outs:
            pu = [x for x in o.st.events() if x.k in ("push", "insert", "pop", "resize") and x.a[0].op == "ref" and x.a[0].a[0] == me[0]]
            ok = len(pu) == 1 and pu[0].k == "push" and [q[:3] for q in pu[0].a[0].a[1]] == [q[:3] for q in me[1]] + [("f", 0, i)] and alike(pu[0].a[1], args[1]) and alike(pu[0].a[2], old)
            rep.ok(ok, "add:" + name, "PCU::%s does not append what it is given" % name, site)
