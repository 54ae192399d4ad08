"""S05, U01-U05: the library's own contexts."""
from rules import rule
from rules.base import *
from rules.adapters import chan_engine, element_fields
from std_models import panic as panic_out

CTX = "context::Context"
OPS = ("dequeue", "peek_next", "peek", "enqueue", "wait_until_available")


def of_type(x, p, name):
    t = x.get("self")
    return t is not None and (p.adt(t) or "").split("::")[-1] == name


def entry(rep, p, name):
    """The body a context of this type runs, and whether it reports errors itself (or by panicking)."""
    for m in ("run_falliable", "run"):
        r = [x["key"] for x in p.roots if x.get("trait") == CTX and x["n"] == m and of_type(x, p, name) and x["key"] in p.bodies and not x.get("derived")]
        if m == "run_falliable": r = [k for k in r if "context::Context::run_falliable" != p.bodies[k]["p"]]
        if r: return r[0], m == "run_falliable"
    rep.fail("anchor:" + name, "%s has no run method" % name)
    return None, None


class Body:
    """All end states and iterations of one context's run from an arbitrary state."""
    def __init__(self, rep, name, merge=False, config="main", layers=None):
        self.rep, self.name, self.key = rep, name, None
        p = prog(config)
        self.p = p
        self.key, self.falliable = entry(rep, p, name)
        if self.key is None: return
        self.e, self.tl, self.cl = chan_engine(rep, config, merge)
        e = self.e
        if layers is not None: layers(self)
        self.st = State()
        self.args = e.sym_args(self.key, self.st)
        self.me = e.deref(self.st, self.args[0])
        self.self0 = e.load(self.st, *self.me)
        self.site = body_site(p, self.key)
        self.outs = e.run_fn(self.key, self.args, self.st)
        rep.use(e)

    def verdict(self, o):
        """'ok', 'err' for an outcome."""
        if o.kind == "panic": return "err"
        if not self.falliable: return "ok"
        v = self.e.resolve(o.st, o.val)
        return None if v.op != "agg" else "ok" if v.a[0] == 0 else "err"

    def own(self, st, ref):
        """Path of a reference below self, or None."""
        al, path = self.e.deref(st, ref)
        if al != self.me[0] or path[:len(self.me[1])] != self.me[1]: return None
        return path[len(self.me[1]):]

    def clock_ok(self, k):
        """Is the clock the context's own?"""
        return isinstance(k, tuple) and k[0] == "clk" and k[1] == self.me[0] and k[2][:len(self.me[1])] == self.me[1] and len(own_clocks(self.p, self.self0.ty)) == 1 and k[2][len(self.me[1]):] == own_clocks(self.p, self.self0.ty)[0]


def own_clocks(p, ty, path=(), depth=0):
    """Paths of the clocks inside a type (not through other contexts)."""
    if depth > 4: return []
    t = p.types[ty]
    if t["k"] == "adt" and t["p"].endswith("::TimeManager"): return [path]
    r = []
    if t["k"] == "adt" and t.get("vs") and len(t["vs"]) == 1:
        for i, f in enumerate(t["vs"][0][2]): r += own_clocks(p, f[1], path + (("f", 0, i, f[1]),), depth + 1)
    return r


def calls_of(st, kind="usercall"): return [x for x in st.events() if x.k == kind]


def slot_calls(b, st):
    """Calls of function values that came out of the context."""
    r = []
    for x in calls_of(st):
        f = x.a[0]
        while f.op in ("fld", "elt") and f is not b.self0: f = f.a[0]
        if f is b.self0: r.append(x)
    return r


def over(it, r):
    """Is the iterator the one that the user's function produced, with nothing left out?"""
    ok = True
    while it is not None and it.op == "iter":
        d = it.a[0]
        if d[0] in PARTIAL or d[0] == "adapt" and d[1] in PARTIAL or d[0] in ("filter", "filter_map", "rev", "step_by", "skip", "take"): ok = False
        if d[0] == "ext": return d[2] is r and ok
        nxt = [x for x in d[1:] if isinstance(x, V) and x.op == "iter"]
        it = nxt[-1] if d[0] == "zip" and nxt else nxt[0] if nxt else None
    return False


def user_steps(evs, r):
    """next/exhausted events of the user's iterator."""
    return [x for x in evs if x.k in ("next", "exhausted") and over(x.a[0], r)]


def tail(st):
    """Events after the last loop that was left."""
    r = []
    e = st.ev
    while e is not None:
        if e[1].k == "loop": break
        r.append(e[1]); e = e[0]
    r.reverse()
    return r


def own_ops(rep, b, st, evs, lab):
    """Every channel operation uses an endpoint of the context and the context's own clock."""
    for x in evs:
        if x.k not in OPS: continue
        rep.ok(b.own(st, x.a[0]) is not None, lab + ":endpoint", "%s uses a channel it does not own" % b.name, b.site)
        if x.k != "peek": rep.ok(b.clock_ok(x.a[1]), lab + ":clock", "%s operates a channel with another clock than its own" % b.name, b.site)


def alike(a, b):
    """The same term, whatever type was known for it."""
    if a is b: return True
    if not (isinstance(a, V) and isinstance(b, V)): return a == b
    return a.op == b.op and len(a.a) == len(b.a) and all(alike(x, y) for x, y in zip(a.a, b.a))


def walk(vs, depth=8):
    for v in vs:
        if not isinstance(v, V): continue
        yield v
        if depth: yield from walk(v.a, depth - 1)


# ------------------------------------------------------------------ sources
@rule("U01")
def u01(rep):
    rep.rule("GeneratorContext and TraceContext: on every path that has the function, it is called once and success is reported only after its iterator is exhausted; every iteration takes one element and enqueues exactly that element once, with the generator stamping its own clock plus one and moving it by exactly one cycle, the trace stamping max(clock+1, requested cycle); a failed enqueue ends in an error; nothing else fails.")
    n = 0
    for name in ("GeneratorContext", "TraceContext"):
        b = Body(rep, name)
        if b.key is None: continue
        e, p = b.e, b.p
        lab = name
        good = 0
        for o in b.outs:
            n += 1
            ver = b.verdict(o)
            ft = slot_calls(b, o.st)
            if not rep.ok(ver is not None, lab + ":result", "%s does not say whether it succeeded" % name, b.site): continue
            if not ft:
                rep.ok(ver == "err", lab + ":nothing", "%s reports success without asking for its elements" % name, b.site)
                rep.ok(not any(x.k == "enqueue" for x in o.st.events()), lab + ":invented", "%s sends elements that are not from its iterator" % name, b.site)
                continue
            if not rep.ok(len(ft) == 1, lab + ":twice", "%s asks for its elements more than once" % name, b.site): continue
            r = ft[0].a[2]
            last = tail(o.st)
            steps = user_steps(last, r)
            sends = [x for x in last if x.k == "enqueue"]
            if ver == "ok":
                good += 1
                rep.ok(len(steps) == 1 and steps[0].k == "exhausted", lab + ":early", "%s reports success before its iterator has ended" % name, b.site)
                rep.ok(not sends, lab + ":invented", "%s sends elements that are not from its iterator" % name, b.site)
            else:
                rep.ok(len(sends) == 1 and sends[0].a[2] == 0, lab + ":fails", "%s fails although its channel is open" % name, b.site)
        rep.ok(good > 0, lab + ":never", "%s never succeeds" % name, b.site)
        recs = all_loops(b.outs)
        main = []
        for rec in recs:
            its = [rec.iter_events(s) for s in rec.iters]
            if any(x.k in ("enqueue", "next") for evs in its for x in evs): main.append(rec)
        if not rep.ok(len(main) == 1, lab + ":loop", "%s does not send its elements in one pass" % name, b.site): continue
        rec = main[0]
        # nothing moves before the first element
        for x in rec.init.events(): rep.ok(x.k not in ("incr", "advance", "enqueue"), lab + ":before", "%s moves its clock or sends before its first element" % name, b.site)
        for s in rec.iters:
            n += 1
            evs = rec.iter_events(s)
            r = slot_calls(b, s)[0].a[2] if slot_calls(b, s) else None
            steps = user_steps(evs, r) if r is not None else []
            sends = [x for x in evs if x.k == "enqueue"]
            own_ops(rep, b, s, evs, lab)
            if not rep.ok(len(steps) == 1 and steps[0].k == "next", lab + ":take", "%s does not take one element per round" % name, b.site): continue
            if not rep.ok(len(sends) == 1, lab + ":once", "%s does not send each element exactly once" % name, b.site): continue
            x = sends[0]
            rep.ok(x.a[2] == 1, lab + ":ignored", "%s goes on after its channel was closed" % name, b.site)
            rep.ok(not any(y.k == "loop" and any(z.k in ("enqueue", "next") for q in y.a[0].iters for z in y.a[0].iter_events(q)) for y in evs), lab + ":once", "%s does not send each element exactly once" % name, b.site)
            item = steps[0].a[1]
            el = e.resolve(s, x.a[3])
            ti, di = element_fields(p, el.ty)
            t, d = e.resolve(s, e.step(s, el, ("f", 0, ti))), e.resolve(s, e.step(s, el, ("f", 0, di)))
            k = x.a[1]
            clk0 = rec.entry.mem.get(k) if rec.entry is not None else None
            if clk0 is None: clk0 = b.cl.init(k)
            one = const(1, b.tl.ty)
            if name == "GeneratorContext":
                rep.ok(d is item, lab + ":data", "the generator sends something else than its iterator's element", b.site)
                rep.ok(eq_terms(s, t, b.tl.add(e, s, clk0, one)), lab + ":stamp", "the generator does not stamp its elements one cycle after its clock", b.site)
                incr = [y for y in evs if y.k == "incr"]
                rep.ok(len(incr) == 1 and isc(incr[0].a[1]) and incr[0].a[1].a[0] == 1 and not any(y.k == "advance" for y in evs), lab + ":pace", "the generator does not move on by exactly one cycle per element", b.site)
            else:
                i0, i1 = e.resolve(s, e.field_of(item, 0, 0)), e.resolve(s, e.field_of(item, 0, 1))
                rep.ok(alike(d, i0), lab + ":data", "the trace source sends something else than its trace's element", b.site)
                want = next((y for y in walk([t] + list(s.truth)) if y.op == "op" and y.a[0] == "time_from" and alike(y.a[1], i1)), None)
                if want is None: want = i1 if i1.ty == b.tl.ty else mk("op", ("time_from", i1), b.tl.ty)
                rep.ok(prove_le(s, want, t), lab + ":early", "the trace source can send an element before the cycle the trace asks for", b.site)
                rep.ok(prove_le(s, b.tl.add(e, s, clk0, one), t), lab + ":past", "the trace source can send an element in its own past", b.site)
                top = e.mxn(s, "max", b.tl.add(e, s, clk0, one), want)
                rep.ok(prove_le(s, t, top), lab + ":late", "the trace source sends an element later than the trace asks for", b.site)
                rep.ok(not any(y.k == "incr" for y in evs), lab + ":pace", "the trace source cannot send two elements in one cycle", b.site)
        rep.ok(not [x for x in rec.exits if x[0] == "panic"], lab + ":panics", "%s can panic on an element" % name, b.site)
    rep.floor("source paths", n, 6)


# ------------------------------------------------------------------ checkers
@rule("U02")
def u02(rep):
    rep.rule("CheckerContext and ApproxCheckerContext: every iteration that goes on took one reference element, dequeued one element from the own channel and found them equal (or the user's test, called with (expected, received), true); success is reported only after the reference iterator is exhausted.")
    n = 0
    for name in ("CheckerContext", "ApproxCheckerContext"):
        b = Body(rep, name)
        if b.key is None: continue
        e, p = b.e, b.p
        good = 0
        for o in b.outs:
            n += 1
            ver = b.verdict(o)
            if not rep.ok(ver is not None, name + ":result", "%s does not say whether it succeeded" % name, b.site): continue
            ft = [x for x in slot_calls(b, o.st) if not (x.a[1] and len(x.a[1]) == 1 and is_test(b, x))]
            if ver != "ok": continue
            good += 1
            if not rep.ok(len(ft) >= 1, name + ":nothing", "%s reports success without looking at its reference" % name, b.site): continue
            rep.ok(len(ft) == 1, name + ":twice", "%s asks for its reference more than once" % name, b.site)
            last = tail(o.st)
            steps = user_steps(last, ft[0].a[2])
            rep.ok(len(steps) == 1 and steps[0].k == "exhausted", name + ":early", "%s reports success before every reference element was checked" % name, b.site)
        rep.ok(good > 0, name + ":never", "%s never succeeds" % name, b.site)
        main = [rec for rec in all_loops(b.outs) if any(x.k in OPS + ("next",) for s in rec.iters for x in rec.iter_events(s))]
        if not rep.ok(len(main) == 1, name + ":loop", "%s does not check its reference in one pass" % name, b.site): continue
        rec = main[0]
        for s in rec.iters:
            n += 1
            evs = rec.iter_events(s)
            own_ops(rep, b, s, evs, name)
            firsts = [x for x in slot_calls(b, rec.init)]
            steps = user_steps(evs, firsts[-1].a[2]) if firsts else []
            deqs = [x for x in evs if x.k == "dequeue"]
            if not rep.ok(len(steps) == 1 and steps[0].k == "next", name + ":take", "%s does not take one reference element per round" % name, b.site): continue
            if not rep.ok(len(deqs) == 1, name + ":receive", "%s does not receive exactly one element per reference element" % name, b.site): continue
            if not rep.ok(deqs[0].a[2] == 1, name + ":closed", "%s goes on after its channel closed too early" % name, b.site): continue
            el = deqs[0].a[3]
            ti, di = element_fields(p, el.ty)
            got, want = e.resolve(s, e.step(s, el, ("f", 0, di))), e.resolve(s, steps[0].a[1])
            same = matched(b, s, want, got, evs, name)
            rep.ok(same, name + ":unchecked", "%s goes on without having found the received element %s" % (name, "equal to the expected one" if name == "CheckerContext" else "acceptable"), b.site)
    rep.floor("checker paths", n, 6)


def is_test(b, x):
    """Is the call one of the user's approximate test (two references)?"""
    a = x.a[1][0]
    return a.op == "agg" and len(a.a) == 3 or len(x.a[1]) == 2


def matched(b, s, want, got, evs, name):
    e = b.e
    if name == "CheckerContext":
        for t, v in s.truth.items():
            if v == 1 and t.op == "op" and t.a[0] == "Eq" and {t.a[1], t.a[2]} == {want, got}: return True
        return False
    for x in evs:
        if x.k != "usercall" or s.truth.get(x.a[2]) != 1: continue
        args = list(x.a[1])
        if len(args) == 1 and e.resolve(s, args[0]).op == "agg": args = list(e.resolve(s, args[0]).a[1:])
        vals = [e.resolve(s, e.load(s, *e.deref(s, a)) if a.op == "ref" else a) for a in args]
        if len(vals) == 2 and vals[0] is want and vals[1] is got: return True
    return False


# ------------------------------------------------------------------ broadcast
def ended(e, st, rec):
    """Did the loop run to the end of what it goes over on this path?"""
    d = Drive(rec, e)
    if any(x[0] == "partial" for x in d.early): return False
    seen, after = False, []
    for x in st.events():
        if x.k == "loop" and x.a[0] is rec: seen, after = True, []
        elif seen: after.append(x)
    if not seen: return False
    for x in after:
        if x.k in ("next", "exhausted") and d.src is not None and (x.a[0] is d.src or same_root(x.a[0], d.src)): return x.k == "exhausted"
    return d.index is not None and prove_le(st, e.length(st, d.root[3]), d.index)


def item_value(e, s, d):
    x = d.item(s)
    if x is None: return None
    x = e.resolve(s, x)
    return e.resolve(s, e.load(s, *e.deref(s, x))) if x.op == "ref" else x


def has_ops(rec, kinds, deep=True):
    for s in rec.iters:
        for x in rec.iter_events(s):
            if x.k in kinds: return True
            if deep and x.k == "loop" and has_ops(x.a[0], kinds): return True
    return False


@rule("U03")
def u03(rep):
    rep.rule("Every round of BroadcastContext::run dequeues one element, then goes over all targets waiting for space on each, then goes over all targets again and enqueues exactly once on each the same data with one common timestamp that was computed after the waits from the context's clock; success is reported only when the dequeue found the input closed, and a failing wait or enqueue ends in an error. add_target adds exactly its argument to the targets.")
    n = 0
    b = Body(rep, "BroadcastContext")
    if b.key is None: return
    e, p, cl = b.e, b.p, b.cl
    for o in b.outs:
        n += 1
        ver = b.verdict(o)
        if not rep.ok(ver is not None, "result", "the broadcast does not say whether it succeeded", b.site): continue
        ops = [x for x in o.st.events() if x.k in OPS and x.k != "peek"]
        tl = [x for x in tail(o.st) if x.k in OPS and x.k != "peek"]
        if ver == "ok":
            rep.ok(len(tl) == 1 and tl[0].k == "dequeue" and tl[0].a[2] == 0, "ends", "the broadcast reports success although its input has not closed", b.site)
        else:
            rep.ok(tl and tl[-1].k in ("wait_until_available", "enqueue") and tl[-1].a[2] == 0, "fails", "the broadcast fails although no target closed", b.site)
    outer = [rec for rec in all_loops(b.outs) if has_ops(rec, ("dequeue",), False)]
    if not rep.ok(len(outer) == 1, "loop", "the broadcast does not take its elements in one loop", b.site): return
    rec = outer[0]
    targets = set()
    rep.ok(len(rec.iters) > 0, "never", "the broadcast never forwards an element", b.site)
    for s in rec.iters:
        n += 1
        evs = rec.iter_events(s)
        own_ops(rep, b, s, evs, "round")
        deq = [x for x in evs if x.k == "dequeue"]
        if not rep.ok(len(deq) == 1 and deq[0].a[2] == 1, "take", "a round of the broadcast does not take exactly one element", b.site): continue
        rep.ok(not any(x.k in ("enqueue", "wait_until_available") for x in evs), "outside", "the broadcast sends outside of its passes over the targets", b.site)
        el = deq[0].a[3]
        ti, di = element_fields(p, el.ty)
        loops = [x.a[0] for x in evs if x.k == "loop"]
        waits = [r for r in loops if has_ops(r, ("wait_until_available",))]
        sends = [r for r in loops if has_ops(r, ("enqueue",))]
        if not rep.ok(len(sends) == 1, "once", "the broadcast does not send each element in exactly one pass over its targets", b.site): continue
        snd = sends[0]
        d = Drive(snd, e)
        if not rep.ok(d.root is not None and ended(e, s, snd) and not len(d.root[4]) > len([q for q in d.root[4] if q in ("rev", "map", "copied", "byref", "enum", "inspect")]), "all", "the broadcast does not send to all of its targets", b.site): continue
        ts = d.root[3]
        targets.add(ts)
        rep.ok(ts.op == "fld" and ts.a[0] is b.self0, "targets", "the broadcast does not send to its registered targets", b.site)
        full = [r for r in waits if r is not snd and Drive(r, e).root is not None and Drive(r, e).root[3] is ts and ended(e, s, r) and loops.index(r) < loops.index(snd)
                and all(any(x.k == "wait_until_available" and x.a[2] == 1 and x.a[4] is item_value(e, q, Drive(r, e)) for x in r.iter_events(q)) for q in r.iters)]
        rep.ok(len(full) >= 1, "wait", "the broadcast sends before every target has space", b.site)
        stamps = set()
        k = deq[0].a[1]
        clk = snd.init.mem.get(k)
        for q in snd.iters:
            n += 1
            qe = snd.iter_events(q)
            own_ops(rep, b, q, qe, "send")
            en = [x for x in qe if x.k == "enqueue"]
            if not rep.ok(len(en) == 1 and not any(x.k == "loop" and has_ops(x.a[0], ("enqueue",)) for x in qe), "once", "the broadcast does not send each element exactly once per target", b.site): continue
            x = en[0]
            rep.ok(x.a[2] == 1, "ignored", "the broadcast goes on after a target closed", b.site)
            rep.ok(x.a[4] is item_value(e, q, d), "each", "the broadcast does not send to each target in turn", b.site)
            out = e.resolve(q, x.a[3])
            t, dat = e.resolve(q, e.step(q, out, ("f", 0, ti))), e.resolve(q, e.step(q, out, ("f", 0, di)))
            rep.ok(dat is e.resolve(q, e.step(q, el, ("f", 0, di))), "data", "the broadcast changes the data it forwards", b.site)
            rep.ok(older(t, snd.serial), "stamp:differs", "the broadcast's timestamp is not the same for all targets", b.site)
            rep.ok(clk is not None and prove_le(q, clk, t), "stamp:early", "the broadcast stamps its copies before every target has space", b.site)
            stamps.add(t)
        rep.ok(len(stamps) <= 1, "stamp:differs", "the broadcast's timestamp is not the same for all targets", b.site)
    # registration
    key = [x["key"] for x in p.roots if x["n"] == "add_target" and of_type(x, p, "BroadcastContext") and x["key"] in p.bodies]
    if rep.ok(len(key) == 1, "anchor:add_target", "targets cannot be registered"):
        e, tl, cl = chan_engine(rep)
        st = State()
        args = e.sym_args(key[0], st)
        me = e.deref(st, args[0])
        s0 = e.load(st, *me)
        site = body_site(p, key[0])
        for o in e.run_fn(key[0], args, st):
            n += 1
            if not rep.ok(o.kind == "ret", "register:panics", "registering a target can panic", site): continue
            s1 = e.load(o.st, *me)
            for ts in targets:
                f = ("f",) + tuple(ts.a[1:])
                old, new = e.step(o.st, s0, f), e.resolve(o.st, e.step(o.st, s1, f))
                rep.ok(new.op == "push" and alike(new.a[0], old) and alike(new.a[1], args[1]), "register:kept", "a registered target is not kept exactly once", site)
    rep.floor("broadcast paths", n, 6)


# ------------------------------------------------------------------ sinks and functions
@rule("U04")
def u04(rep):
    rep.rule("ConsumerContext and PrinterContext: each round dequeues exactly one element and moves the own clock by exactly one cycle; the run ends exactly when a dequeue finds the channel closed. FunctionContext: success exactly when the stored function was called, once, with the context's own clock; set_run stores the given function.")
    n = 0
    for name in ("ConsumerContext", "PrinterContext"):
        b = Body(rep, name)
        if b.key is None: continue
        for o in b.outs:
            n += 1
            tl = [x for x in tail(o.st) if x.k in OPS and x.k != "peek"]
            if not rep.ok(b.verdict(o) == "ok", name + ":fails", "%s does not end successfully" % name, b.site): continue
            rep.ok(len(tl) == 1 and tl[0].k == "dequeue" and tl[0].a[2] == 0, name + ":ends", "%s ends although its channel has not closed" % name, b.site)
        recs = [rec for rec in all_loops(b.outs) if has_ops(rec, ("dequeue",), False)]
        if not rep.ok(len(recs) == 1 and recs[0].iters, name + ":loop", "%s does not consume in one loop" % name, b.site): continue
        for s in recs[0].iters:
            n += 1
            evs = recs[0].iter_events(s)
            own_ops(rep, b, s, evs, name)
            deq = [x for x in evs if x.k == "dequeue"]
            rep.ok(len(deq) == 1 and not any(x.k == "loop" and has_ops(x.a[0], ("dequeue",)) for x in evs), name + ":one", "%s does not consume exactly one element per round" % name, b.site)
            rep.ok(all(x.a[2] == 1 for x in deq), name + ":closed", "%s goes on after its channel has closed" % name, b.site)
            inc = [x for x in evs if x.k == "incr"]
            rep.ok(len(inc) == 1 and isc(inc[0].a[1]) and inc[0].a[1].a[0] == 1 and b.clock_ok(inc[0].a[0]) and not any(x.k == "advance" for x in evs), name + ":pace", "%s does not take one cycle per element" % name, b.site)
    b = Body(rep, "FunctionContext")
    if b.key is not None:
        e, p = b.e, b.p
        slots = set()
        for o in b.outs:
            n += 1
            ver = b.verdict(o)
            ft = slot_calls(b, o.st)
            rep.ok(len(all_loops([o])) == 0, "function:loop", "the function may be called repeatedly", b.site)
            if ver == "ok":
                if rep.ok(len(ft) == 1, "function:once", "the function context succeeds without having called its function exactly once", b.site):
                    slots.add(ft[0].a[0])
                    a = ft[0].a[1]
                    a = e.resolve(o.st, a[0]) if a else None
                    if a is not None and a.op == "agg": a = a.a[1]
                    good = a is not None and a.op == "ref" and b.own(o.st, a) is not None and [b.own(o.st, a)] == own_clocks(p, b.self0.ty)
                    rep.ok(good, "function:clock", "the function is not given its own context's clock", b.site)
            else: rep.ok(not ft, "function:fails", "the function context reports an error although its function ran", b.site)
        rep.ok(len(slots) == 1, "function:never", "the function context never runs its function", b.site)
        key = [x["key"] for x in p.roots if x["n"] == "set_run" and of_type(x, p, "FunctionContext") and x["key"] in p.bodies]
        if rep.ok(len(key) == 1, "anchor:set_run", "a function cannot be given to a function context"):
            e, tl, cl = chan_engine(rep)
            st = State()
            args = e.sym_args(key[0], st)
            me = e.deref(st, args[0])
            for o in e.run_fn(key[0], args, st):
                n += 1
                if not rep.ok(o.kind == "ret", "set:panics", "setting the function can panic"): continue
                for f in slots:
                    v = at(e, o.st, e.load(o.st, *me), f, b.self0)
                    rep.ok(v is args[1], "set:kept", "the function that was set is not the one that runs", body_site(p, key[0]))
    rep.floor("sink paths", n, 6)


def at(e, st, v, f, self0):
    """The value that the projections of f (below self0) select in v."""
    ps = []
    while f is not self0 and f.op == "fld": ps.append(f); f = f.a[0]
    for q in reversed(ps):
        v = e.resolve(st, v)
        if v.op == "agg" and q.a[1] != v.a[0] and q.a[1] != 0: return None
        v = e.step(st, v, ("f",) + tuple(q.a[1:]))
    return e.resolve(st, v)


# ------------------------------------------------------------------ panics and second executions
@rule("S05")
def s05(rep):
    rep.rule("The default fallible entry point calls the plain run method exactly once; if that returns it reports success, if it panics it reports an error, and the panic goes no further. Every library context that takes a function out of a one-shot slot leaves the slot empty on every path that called it, and with an empty slot returns an error without touching a channel or its clock.")
    p = prog("main")
    n = 0
    key = next((x["key"] for x in p.roots if x["p"] == CTX + "::run_falliable" and x.get("self") is None and x["key"] in p.bodies), None)
    if rep.ok(key is not None, "anchor:run_falliable", "contexts have no fallible entry point"):
        e, tl, cl = chan_engine(rep, merge=False)

        def run(e, st, call):
            s2 = st.copy()
            e.emit(st, "ran", 1); e.emit(s2, "ran", 0)
            return [Out(st, "ret", mk("agg", (0,), call.dty)), panic_out(s2, "run")]
        e.h.insert(0, lambda eng, c: run if c.get("trait") == CTX and c["n"] == "run" or c["p"] == CTX + "::run" else None)
        st = State()
        args = e.sym_args(key, st)
        site = body_site(p, key)
        kinds = set()
        for o in e.run_fn(key, args, st):
            n += 1
            ran = [x for x in o.st.events() if x.k == "ran"]
            if not rep.ok(len(ran) == 1, "default:once", "the fallible entry point does not call the run method exactly once", site): continue
            if not rep.ok(o.kind == "ret", "default:escapes", "a panic in the run method escapes from the fallible entry point", site): continue
            v = e.resolve(o.st, o.val)
            kinds.add(ran[0].a[0])
            rep.ok(v.op == "agg" and (v.a[0] == 0) == (ran[0].a[0] == 1), "default:report", "the fallible entry point reports success for a run that panicked" if not ran[0].a[0] else "the fallible entry point reports an error for a run that returned", site)
        rep.ok(kinds == {0, 1}, "default:cover", "the fallible entry point does not distinguish a run that returned from one that panicked", site)
        rep.use(e)
    # one-shot slots
    names = sorted({p.adt(x["self"]).split("::")[-1] for x in p.roots if x.get("trait") == CTX and x.get("self") is not None and p.adt(x["self"]) and "::utility_contexts::" in "::" + p.adt(x["self"])})
    shots = 0
    for name in names:
        b = Body(rep, name)
        if b.key is None: continue
        e = b.e
        for o in b.outs:
            for x in slot_calls(b, o.st):
                f = x.a[0]
                if not (f.op == "fld" and (p.adt(f.a[0].ty) or "") == "core::option::Option"): continue
                slot = f.a[0]
                n += 1
                shots += 1
                after = at(e, o.st, e.load(o.st, *b.me), slot, b.self0)
                k = None if after is None else after.a[0] if after.op == "agg" else o.st.var.get(after)
                rep.ok(k == 0, name + ":kept", "%s can be executed a second time" % name, b.site)
        uses = {x.a[0].a[0] for o in b.outs for x in slot_calls(b, o.st) if x.a[0].op == "fld" and (p.adt(x.a[0].a[0].ty) or "") == "core::option::Option"}
        for slot in uses:
            refused = False
            for o in b.outs:
                if o.st.var.get(slot) != 0: continue
                n += 1
                refused = True
                rep.ok(o.kind == "ret" and b.falliable and b.verdict(o) == "err", name + ":again", "%s does not refuse a second execution with an error" % name, b.site)
                rep.ok(not any(x.k in OPS + ("incr", "advance") for x in o.st.events()), name + ":effects", "%s acts on its channel or clock in a second execution" % name, b.site)
            rep.ok(refused, name + ":again", "%s does not refuse a second execution with an error" % name, b.site)
    rep.floor("one-shot executions", shots, 5)
    rep.floor("paths", n, 10)


# ------------------------------------------------------------------ endpoints of the library's contexts
ENDPOINTS = {"channel::Sender": "attach_sender", "channel::Receiver": "attach_receiver"}


def ctx_types(p):
    return {p.adt(x["self"]) for x in p.roots if x.get("trait") == CTX and x.get("self") is not None and p.adt(x["self"])}


def endpoint_leaves(e, st, v, ty, depth=0):
    """Endpoints inside a value: (kind, term)."""
    p = e.p
    if p.adt(ty) in ENDPOINTS: yield p.adt(ty), e.resolve(st, v); return
    if depth > 3 or p.tk(ty) not in ("adt", "tuple") or p.is_enum(ty) or (p.tk(ty) == "adt" and not p.types[ty].get("local")): return
    for i in range(p.nfields(ty, 0)): yield from endpoint_leaves(e, st, e.step(st, v, ("f", 0, i)), p.field_ty(ty, 0, i), depth + 1)


def has_endpoint(p, ty, depth=0, seen=None):
    """Does a type hold endpoints (directly or in collections)?"""
    if ty is None or depth > 6: return False
    if p.adt(ty) in ENDPOINTS: return True
    t = p.types[ty]
    if t["k"] in ("tuple",): return any(has_endpoint(p, x, depth + 1) for x in t["ts"])
    if t["k"] in ("array", "slice"): return has_endpoint(p, t["t"], depth + 1)
    if t["k"] != "adt": return False
    if t.get("local"): return any(has_endpoint(p, f[1], depth + 1) for v in t.get("vs") or () for f in v[2])
    return any(has_endpoint(p, x, depth + 1) for x in t["a"] if isinstance(x, int))


def homes(e, st, v, leaf, ctxs, home=None, depth=0):
    """Innermost context values that hold the leaf inside a value."""
    if not isinstance(v, V) or depth > 12: return
    if (e.p.adt(v.ty) or "") in ctxs and v.ty is not None: home = v
    q = leaf
    while isinstance(q, V):
        if alike(v, q): yield home; return
        q = q.a[0] if q.op == "fld" else None
    if v.op in ("agg", "cell", "push", "upd"):
        for x in v.a: yield from homes(e, st, x, leaf, ctxs, home, depth + 1)


def ident_of(e, st, v, depth=0):
    """The identity stored in a context value (not those of contexts inside it)."""
    p = e.p
    if depth > 3 or p.tk(v.ty) != "adt": return None
    if depth and p.adt(v.ty) in ctx_types(p): return None
    if (p.adt(v.ty) or "").endswith("::Identifier"): return e.resolve(st, v)
    if p.is_enum(v.ty) or not p.types[v.ty].get("local"): return None
    for i in range(p.nfields(v.ty, 0)):
        r = ident_of(e, st, e.step(st, v, ("f", 0, i)), depth + 1)
        if r is not None: return r
    return None


@rule("U05")
def u05(rep):
    rep.rule("Every function of a library context that takes endpoints by value attaches each of them exactly once, senders as sender and receivers as receiver, to the innermost context whose value holds it afterwards (compared by the identity stored there), and keeps it exactly once. In the run method of every library context each channel operation is on an endpoint stored in that context and uses that context's one clock.")
    p = prog("main")
    ctxs = {t for t in ctx_types(p) if t}
    n = m = 0
    for x in p.roots:
        if x.get("trait") is not None or x.get("self") is None or p.adt(x["self"]) not in ctxs or x["key"] not in p.bodies: continue
        b = p.bodies[x["key"]]
        tys = b["l"][1:1 + b["argc"]]
        if not any(has_endpoint(p, t) for t in tys if p.tk(t) != "ref"): continue
        e, tl, cl = chan_engine(rep, merge=False)
        st = State()
        args = e.sym_args(x["key"], st)
        lab = (p.adt(x["self"]) or "").split("::")[-1] + "::" + x["n"]
        site = body_site(p, x["key"])
        leaves = [l for a, t in zip(args, tys) if p.tk(t) != "ref" and p.adt(t) not in ctxs for l in endpoint_leaves(e, st, a, t)]
        if not leaves and any(p.adt(t) in ctxs for t in tys): continue      # moves a whole context around
        if not rep.ok(leaves, lab + ":hidden", "%s takes endpoints in a collection, which is not covered" % lab, site): continue
        done = 0
        for o in e.run_fn(x["key"], args, st):
            if o.kind != "ret": continue
            done += 1
            att = [y for y in o.st.events() if y.k == "attach"]
            roots = [o.val] + [e.load(o.st, *e.deref(o.st, a)) for a, t in zip(args, tys) if p.tk(t) == "ref" and e.p.types[t].get("mut")]
            for rec in all_loops([o]): rep.ok(not has_ops(rec, ("attach",)), lab + ":loop", "%s attaches endpoints repeatedly" % lab, site)
            for kind, leaf in leaves:
                n += 1
                mine = [y for y in att if alike(e.resolve(o.st, y.a[2]), leaf)]
                what = "%s: the %s endpoint %s" % (lab, "sending" if "Sender" in kind else "receiving", show(leaf))
                if not rep.ok(len(mine) == 1, "%s:%s:attach" % (lab, show(leaf)), what + (" is attached more than once" if mine else " is never attached"), site): continue
                rep.ok(mine[0].a[0] == ENDPOINTS[kind], "%s:%s:side" % (lab, show(leaf)), what + " is attached on the wrong side", site)
                hs = [h for v in roots for h in homes(e, o.st, v, leaf, ctxs)]
                if not rep.ok(len(hs) == 1 and hs[0] is not None, "%s:%s:kept" % (lab, show(leaf)), what + " is not kept exactly once by the context", site): continue
                a, c = ident_of(e, o.st, hs[0]), ident_of(e, o.st, mine[0].a[4])
                rep.ok(a is not None and c is not None and alike(a, c), "%s:%s:whom" % (lab, show(leaf)), what + " is attached to another context than the one that holds it", site)
            rep.ok(len(att) <= len(leaves), lab + ":extra", "%s attaches endpoints it was not given" % lab, site)
        rep.ok(done > 0, lab + ":never", "%s never returns" % lab, site)
        rep.use(e)
    # operations in run bodies
    names = sorted({t.split("::")[-1] for t in ctxs if "Proxy" not in t})
    for name in names:
        ty = next((x["self"] for x in p.roots if x.get("trait") == CTX and of_type(x, p, name)), None)
        if ty is None or not any(x for x in p.roots if of_type(x, p, name) and x["key"] in p.bodies): continue
        if not has_endpoint(p, ty): continue
        b = Body(rep, name, merge=True)
        if b.key is None: continue
        e = b.e
        if len(own_clocks(p, ty)) != 1:
            # a composite: its parts are analysed on their own
            continue
        k = 0
        for kind, s, v in paths(b.outs, True):
            evs = s.events()
            for x in evs:
                if x.k in OPS:
                    k += 1
                    rep.ok(b.own(s, x.a[0]) is not None, name + ":endpoint", "%s uses a channel it does not own" % name, b.site)
                    if x.k != "peek": rep.ok(b.clock_ok(x.a[1]), name + ":clock", "%s operates a channel with another clock than its own" % name, b.site)
                if x.k in ("advance", "incr"): rep.ok(b.clock_ok(x.a[0]), name + ":moves", "%s moves another clock than its own" % name, b.site)
                if x.k == "usercall":
                    for y in x.a[1]:
                        y = e.resolve(s, y)
                        for z in (y.a[1:] if y.op == "agg" else (y,)):
                            if isinstance(z, V) and z.op == "ref" and z.ty is not None and e.p.adt(e.p.peel(z.ty)) in ("view::basic::TimeManager", "view::TimeManager"):
                                k += 1
                                q = b.own(s, z)
                                rep.ok(q is not None and q == own_clocks(p, ty)[0], name + ":given", "%s hands a user function another clock than its own" % name, b.site)
        m += k
    rep.floor("endpoints attached", n, 20)
    rep.floor("channel operations in run bodies", m, 30)
