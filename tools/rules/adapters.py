"""C11, C14: what is built on top of channel endpoints."""
from rules import rule
from rules.base import *
from layers import TimeLayer, ClockLayer, ChannelLayer

CHAN_OPS = ("peek", "peek_next", "dequeue", "enqueue", "wait_until_available", "attach")


def chan_engine(rep, config="main", merge=True):
    e = engine(rep, config)
    tl = TimeLayer(e)
    cl = ClockLayer(e, tl, quiet=True)
    ChannelLayer(e, cl)
    e.merge = merge
    return e, tl, cl


def impl_methods(p, trait, self_pred=lambda t: True):
    """{method: key} of the impls of a trait, per self type."""
    r = {}
    for x in p.roots:
        if x.get("trait") == trait and x["key"] in p.bodies and self_pred(x.get("self")):
            r.setdefault(x.get("self"), {})[x["n"]] = x["key"]
    return r


def converted(e, st, v, src):
    """Is v a conversion of src and of nothing else?"""
    v = e.resolve(st, v)
    return v.op == "op" and v.a[0] in ("convert", "tryconvert") and v.a[1] is src or v is src


@rule("C11")
def c11(rep):
    rep.rule("Every path of every adapter method performs exactly one channel operation: the one of the same name, on the adapter's own endpoint, with the caller's clock; what it returns is that operation's result with only the data converted (a panic only where the conversion failed). ChannelElement::convert and try_convert keep the time; update_time leaves exactly the later of the two times.")
    p = prog("main")
    n = 0
    for trait, side in (("channel::adapters::RecvAdapter", "Receiver"), ("channel::adapters::SendAdapter", "Sender")):
        found = impl_methods(p, trait)
        want = {"RecvAdapter": {"attach_receiver", "peek", "peek_next", "dequeue"}, "SendAdapter": {"attach_sender", "enqueue", "wait_until_available"}}[trait.split("::")[-1]]
        rep.ok(len(found) >= 1 and all(want <= set(m) for m in found.values()), "anchor:" + trait, "the adapter trait %s is not implemented for %s" % (trait, side))
        for ty, ms in found.items():
            for m, key in sorted(ms.items()):
                if m not in want: continue
                e, tl, cl = chan_engine(rep, merge=False)
                st = State()
                args = e.sym_args(key, st)
                me = e.deref(st, args[0])
                site = body_site(p, key)
                lab = side + ":" + m
                rets = 0
                outs = e.run_fn(key, args, st)
                rep.use(e)
                for k, s, v in paths(outs, True):
                    n += 1
                    evs = [x for x in s.events() if x.k in CHAN_OPS]
                    if k == "panic":
                        rep.ok(any(x.k == "tryconvert" and x.a[2] == 0 for x in s.events()), lab + ":panics", "the adapter's %s panics although the data could be converted" % m, site); continue
                    if not rep.ok(k == "ret", lab + ":loops", "the adapter's %s repeats operations on the channel" % m, site): continue
                    rets += 1
                    op = "attach" if m.startswith("attach") else m
                    if not rep.ok(len(evs) == 1 and evs[0].k == op, lab + ":once", "the adapter's %s does not perform exactly one %s on the channel (%s)" % (m, m, ", ".join(x.k for x in evs) or "none"), site): continue
                    x = evs[0]
                    if op == "attach":
                        rep.ok(x.a[0] == m and e.deref(s, x.a[1]) == me and e.deref(s, x.a[3]) == e.deref(s, args[1]), lab + ":whom", "the adapter attaches something else than the given context to its channel", site); continue
                    rep.ok(e.deref(s, x.a[0]) == me, lab + ":channel", "the adapter's %s works on another channel" % m, site)
                    if op != "peek": rep.ok(x.a[1] == cl.key(s, args[1]), lab + ":clock", "the adapter's %s uses another clock than the caller's" % m, site)
                    for y in s.events(): rep.ok(y.k not in ("advance", "incr"), lab + ":time", "the adapter's %s moves a clock itself" % m, site)
                    v = e.resolve(s, v)
                    if op == "peek": same_peek(rep, e, s, v, x.a[3], lab, site)
                    elif op in ("peek_next", "dequeue"):
                        good = v.op == "agg" and v.a[0] == (0 if x.a[2] else 1)
                        if rep.ok(good, lab + ":result", "the adapter's %s does not report what the channel reported" % m, site) and x.a[2]: same_element(rep, e, s, v.a[1], x.a[3], lab, site)
                    else:
                        good = v.op == "agg" and v.a[0] == (0 if x.a[2] else 1)
                        rep.ok(good, lab + ":result", "the adapter's %s does not report what the channel reported" % m, site)
                        if op == "enqueue": same_element(rep, e, s, x.a[3], args[2], lab, site)
                rep.ok(rets > 0, lab + ":never", "the adapter's %s never returns" % m, site)
    # elements
    elem = p.find_adt("channel::ChannelElement")
    for m in ("convert", "try_convert", "update_time", "new"):
        key = root(p, "channel::ChannelElement::<T>::" + m)
        if not rep.ok(key is not None, "anchor:" + m, "channel elements have no %s" % m): continue
        e, tl, cl = chan_engine(rep, merge=False)
        st = State()
        args = e.sym_args(key, st)
        site = body_site(p, key)
        before = e.load(st, *e.deref(st, args[0])) if m == "update_time" else None
        for o in e.run_fn(key, args, st):
            n += 1
            lab = "element:" + m
            if not rep.ok(o.kind == "ret", lab + ":panics", "%s of a channel element can panic" % m, site): continue
            v = e.resolve(o.st, o.val)
            if m == "convert": same_element(rep, e, o.st, v, args[0], lab, site)
            elif m == "new":
                ti, di = element_fields(e.p, v.ty)
                rep.ok(e.field_of(v, 0, ti) is args[0] and e.field_of(v, 0, di) is args[1], lab + ":made", "a new channel element does not hold the given time and data", site)
            elif m == "try_convert":
                if rep.ok(v.op == "agg", lab + ":result", "the outcome of try_convert is not known", site):
                    tried = [x for x in o.st.events() if x.k == "tryconvert"]
                    rep.ok(len(tried) == 1 and bool(tried[0].a[2]) == (v.a[0] == 0), lab + ":result", "try_convert does not succeed exactly when the data converts", site)
                    if v.a[0] == 0: same_element(rep, e, o.st, v.a[1], args[0], lab, site)
            else:
                after = e.load(o.st, *e.deref(o.st, args[0]))
                ti, di = element_fields(e.p, before.ty)
                t0, t1 = e.field_of(before, 0, ti), e.field_of(after, 0, ti)
                rep.ok(prove_le(o.st, t0, t1), lab + ":lowers", "raising an element's time can lower it", site)
                rep.ok(prove_le(o.st, args[1], t1), lab + ":raises", "raising an element's time leaves it before the new time", site)
                rep.ok(prove_le(o.st, t1, e.mxn(o.st, "max", t0, args[1])), lab + ":beyond", "raising an element's time takes it beyond both times", site)
                rep.ok(e.field_of(before, 0, di) is e.field_of(after, 0, di), lab + ":data", "raising an element's time changes its data", site)
    rep.floor("adapter paths", n, 14)


def element_fields(p, ty):
    ti = p.field_index(ty, "time")
    return ti, 1 - ti


def same_element(rep, e, st, out, src, lab, site):
    """out is src with converted data."""
    ti, di = element_fields(e.p, src.ty)
    out, src = e.resolve(st, out), e.resolve(st, src)
    t, d = e.resolve(st, e.step(st, out, ("f", 0, ti))), e.step(st, out, ("f", 0, di))
    t0, d0 = e.resolve(st, e.step(st, src, ("f", 0, ti))), e.resolve(st, e.step(st, src, ("f", 0, di)))
    rep.ok(t is t0 or eq_terms(st, t, t0), lab + ":stamp", "converting an element changes its timestamp", site)
    rep.ok(converted(e, st, d, d0), lab + ":data", "the converted element does not hold the original data", site)


def same_peek(rep, e, st, out, raw, lab, site):
    raw = e.resolve(st, raw)
    k = raw.a[0] if raw.op == "agg" else st.var.get(raw)
    if not rep.ok(out.op == "agg" and (k is None or out.a[0] == k) and k is not None, lab + ":result", "the adapter's peek does not report what the channel reported", site): return
    name = e.p.variants(raw.ty)[k][0]
    x = e.field_of(raw, k, 0) if name != "Closed" else None
    if name == "Something": same_element(rep, e, st, out.a[1], x, lab, site)
    elif name == "Nothing": rep.ok(e.resolve(st, out.a[1]) is e.resolve(st, x), lab + ":nothing", "the adapter's peek changes until when nothing arrives", site)


# ------------------------------------------------------------------ events
class Events:
    def __init__(self, p, tl):
        self.p, self.tl = p, tl
        self.ty = p.find_adt("channel::utils::EventTime")
        self.v = {x[0]: i for i, x in enumerate(p.variants(self.ty))} if self.ty is not None else {}

    def spread(self, e, st, v):
        """(kind, payload) of an event; the kind is None while it is not known on the path."""
        if v is None: return None, None
        v = e.resolve(st, v)
        k = v.a[0] if v.op == "agg" else st.var.get(v)
        if k is None or k == self.v["Closed"]: return k, None
        return k, e.resolve(st, v.a[1] if v.op == "agg" else e.field_of(v, k, 0))

    def same(self, e, st, a, b):
        if a is b: return True
        (ka, ta), (kb, tb) = self.spread(e, st, a), self.spread(e, st, b)
        return ka is not None and ka == kb and (ta is tb or eq_terms(st, ta, tb))

    def rank(self, e, st, v):
        """Rank of an event whose kind is known on the path."""
        v = e.resolve(st, v)
        k = v.a[0] if v.op == "agg" else st.var.get(v)
        if k is None: return None
        if k == self.v["Closed"]: return self.tl.inf
        t = e.resolve(st, v.a[1] if v.op == "agg" else e.field_of(v, k, 0))
        return t if k == self.v["Ready"] else self.tl.add(e, st, t, const(1, self.tl.ty))


@rule("C14")
def c14(rep):
    rep.rule("cmp and partial_cmp of events, per pair of kinds, are the comparison of rank(Ready t)=t, rank(Nothing t)=t+1, rank(Closed)=infinity. next_event of a receiver is ready/nothing/closed as its single peek says (nothing until infinity being closed). next_event of EventAll/EventAny is the maximum/minimum, over every element of the source, of that element's next_event, and closed for an empty source.")
    p = prog("main")
    e, tl, cl = chan_engine(rep)
    ev = Events(p, tl)
    if not rep.ok(set(ev.v) == {"Ready", "Nothing", "Closed"}, "anchor:EventTime", "event times are not ready, nothing or closed"): return
    n = 0
    order = {"cmp": "<channel::utils::EventTime as core::cmp::Ord>::cmp", "partial_cmp": "<channel::utils::EventTime as core::cmp::PartialOrd>::partial_cmp"}
    for m, path in order.items():
        key = root(p, path)
        if not rep.ok(key is not None, "anchor:" + m, "event times have no %s" % m): continue
        e, tl, cl = chan_engine(rep, merge=False)
        ev.tl = tl
        st0 = State()
        args = e.sym_args(key, st0)
        a, b = [e.load(st0, *e.deref(st0, x)) for x in args]
        site = body_site(p, key)
        for na, ka in ev.v.items():
            for nb, kb in ev.v.items():
                st = st0.copy()
                e.assume_variant(st, a, ka); e.assume_variant(st, b, kb)
                for o in e.run_fn(key, args, st):
                    n += 1
                    lab = "%s:%s:%s" % (m, na, nb)
                    if not rep.ok(o.kind == "ret", lab + ":panics", "comparing events can panic", site): continue
                    v = e.resolve(o.st, o.val)
                    if m == "partial_cmp":
                        if not rep.ok(v.op == "agg" and v.a[0] == 1, lab + ":none", "two events can be incomparable", site): continue
                        v = e.resolve(o.st, v.a[1])
                    ra, rb = ev.rank(e, o.st, a), ev.rank(e, o.st, b)
                    rep.ok(is_cmp(e, o.st, v, ra, rb), lab, "%s and %s events are not ordered by when they can happen" % (na.lower(), nb.lower()), site)
        rep.use(e)
    # operators used by max / min / sort: only the two functions above may order events
    for x in p.roots:
        if x.get("self") == ev.ty and x.get("trait") in ("core::cmp::Ord", "core::cmp::PartialOrd") and x["n"] not in order:
            rep.ok(False, "order:" + x["n"], "event times override %s" % x["n"], body_site(p, x["key"]) if x["key"] in p.bodies else None)
    # events themselves and receivers
    def peekable(name, pred):
        r = [x["key"] for x in p.roots if x.get("trait") == "channel::utils::Peekable" and x["n"] == "next_event" and x["key"] in p.bodies and pred(x)]
        if not rep.ok(len(r) == 1, "anchor:" + name, "%s does not report its next event" % name): return None
        return r[0]
    key = peekable("EventTime", lambda x: x.get("self") == ev.ty)
    if key:
        e, tl, cl = chan_engine(rep)
        st = State()
        args = e.sym_args(key, st)
        for o in e.run_fn(key, args, st): rep.ok(o.kind == "ret" and o.val is args[0], "event:self", "the next event of an event is not itself", body_site(p, key))
    key = peekable("Receiver", lambda x: "channel::Receiver<" in p.ts(x.get("self")))
    if key:
        e, tl, cl = chan_engine(rep, merge=False)
        ev.tl = tl
        st = State()
        args = e.sym_args(key, st)
        site = body_site(p, key)
        outs = e.run_fn(key, args, st)
        rep.use(e)
        for k, s, v in paths(outs, True):
            n += 1
            if not rep.ok(k == "ret", "receiver:panics", "asking a channel for its next event can panic or wait", site): continue
            pk = [x for x in s.events() if x.k in CHAN_OPS]
            if not rep.ok(len(pk) == 1 and pk[0].k == "peek", "receiver:peek", "asking a channel for its next event is not one peek", site): continue
            r = pk[0].a[3]
            kind = s.var.get(r)
            v = e.resolve(s, v)
            if not rep.ok(kind is not None and v.op == "agg", "receiver:blind", "a channel reports an event without looking at what the peek found", site): continue
            name = p.variants(r.ty)[kind][0]
            got = {i: x for x, i in ev.v.items()}[v.a[0]]
            if name == "Something":
                el = e.field_of(r, kind, 0)
                t = e.step(s, el, ("f", 0, p.field_index(el.ty, "time")))
                rep.ok(got == "Ready" and e.resolve(s, v.a[1]) is e.resolve(s, t), "receiver:something", "a channel with an element is not ready at the element's time", site)
            elif name == "Closed": rep.ok(got == "Closed", "receiver:closed", "a closed channel does not report closed", site)
            else:
                t = e.resolve(s, e.field_of(r, kind, 0))
                if got == "Closed": rep.ok(prove_le(s, tl.inf, t), "receiver:nothing", "a channel with nothing so far reports closed", site)
                else: rep.ok(got == "Nothing" and e.resolve(s, v.a[1]) is t, "receiver:nothing", "a channel with nothing until t does not report nothing until t", site)
    for name, which in (("EventAll", "max"), ("EventAny", "min")):
        key = peekable(name, lambda x: "channel::utils::%s<" % name in p.ts(x.get("self")))
        if key is None: continue
        e, tl, cl = chan_engine(rep, merge=False)
        ev.tl = tl
        st = State()
        args = e.sym_args(key, st)
        outs = e.run_fn(key, args, st)
        rep.use(e)
        site = body_site(p, key)
        some1 = 0
        for o in outs:
            n += 1
            if not rep.ok(o.kind == "ret", name + ":panics", "combining events can panic", site): continue
            some1 += combined(rep, e, ev, o, which, name, site)
        rep.ok(some1 > 0, name + ":never", "%s never yields an event of its source" % name, site)
    for m in ("all_events", "any_event"):
        key = [x["key"] for x in p.roots if x.get("trait") == "channel::utils::EventCollection" and x["n"] == m and x["key"] in p.bodies]
        if not rep.ok(len(key) >= 1, "anchor:" + m, "no collection of events has %s" % m): continue
        for k in key:
            e, tl, cl = chan_engine(rep)
            st = State()
            args = e.sym_args(k, st)
            for o in e.run_fn(k, args, st):
                n += 1
                its = [x for x in (o.val.a[1:] if o.kind == "ret" and o.val.op == "agg" else ()) if isinstance(x, V)]
                rep.ok(len(its) == 1 and its[0].op == "iter" and its[0].a[0][0] == "ext" and its[0].a[0][2] is args[0], m + ":source", "%s does not look at the whole collection" % m, body_site(p, k))
    rep.floor("event paths", n, 20)


def is_cmp(e, st, v, a, b):
    """Is v the comparison of a and b?"""
    if a is None or b is None: return False
    if v.op == "op" and v.a[0] == "Cmp":
        x, y = v.a[1], v.a[2]
        return eq_terms(st, x, a) and eq_terms(st, y, b)
    k = v.a[0] if v.op == "agg" else st.var.get(v)
    if k is None: return a is b and isc(v) and v.a[0] == 0
    if k == 0: return prove_le(st, a, b, 0, True)
    if k == 2: return prove_le(st, b, a, 0, True)
    return eq_terms(st, a, b)


def combined(rep, e, ev, o, which, name, site):
    """Is the outcome the extremum over all elements of the source (1), or closed for an empty source (0)?"""
    st, v = o.st, e.resolve(o.st, o.val)
    word = "latest" if which == "max" else "earliest"
    closed = v.op == "agg" and v.a[0] == ev.v["Closed"]
    red = [x for x in st.events() if x.k == "reduce"]
    rec = None
    if red:
        x = red[-1]
        rec = x.a[2]
        d = Drive(rec, e)
        whole(rep, e, rec, d, name, site)
        if x.a[3] is None: rep.ok(closed, name + ":empty", "%s of no sources is not closed" % name, site); return 0
        # the extremum of what each element reports
        rep.ok(x.a[0] == which and x.a[3] is v, name + ":pick", "%s does not pick the %s event" % (name, word), site)
        for s, val in rec.results: rep.ok(val is asked(e, rec, s, d), name + ":element", "%s does not compare its elements' next events" % name, site)
        return 1
    recs = [r for r in all_loops([o])]
    if not rep.ok(len(recs) == 1, name + ":loop", "%s does not go through its source once" % name, site): return 0
    rec = recs[0]
    d = Drive(rec, e)
    whole(rep, e, rec, d, name, site)
    # an accumulator: an event, or an optional event
    acc = v
    none = False
    if v.op == "agg" and closed:
        # never set: only when nothing was accumulated
        for ph, k in st.var.items():
            if k == 0 and ph.op == "phi" and ph.a[0][0] == rec.serial: none = True
        if none: return 0
        acc = None
        for ph, k in st.var.items():
            if ph.op in ("phi", "fld") and ev.ty == ph.ty: acc = ph
    ph = acc
    opt_acc = ph is not None and ph.op == "fld" and ph.a[0].op == "phi"
    if opt_acc: ph = ph.a[0]
    if not rep.ok(ph is not None and ph.op == "phi" and ph.a[0][0] == rec.serial, name + ":pick", "%s does not return what it accumulated" % name, site): return 0
    init = e.resolve(rec.init, e.subst_phi(rec.init, ph, rec))
    if opt_acc: rep.ok(init.op == "agg" and init.a[0] == 0, name + ":start", "%s starts with an event that no source reported" % name, site)
    else: rep.ok(which == "min" and init.op == "agg" and init.a[0] == ev.v["Closed"], name + ":start", "%s starts with an event that no source reported" % name, site)
    for s in rec.iters:
        got = asked(e, rec, s, d)
        new = e.resolve(s, e.subst_phi(s, ph, rec))
        old = ph
        if opt_acc:
            if new is ph: new = e.field_of(ph, 1, 0) if s.var.get(ph) == 1 else new
            elif new.op == "agg": new = new.a[1] if new.a[0] == 1 else None
            old = e.field_of(ph, 1, 0) if s.var.get(ph) == 1 else None
        if not rep.ok(got is not None and new is not None, name + ":element", "%s does not ask every element for its next event" % name, site): continue
        if opt_acc and s.var.get(ph) == 0: rep.ok(ev.same(e, s, new, got), name + ":pick", "%s does not start from its first element's event" % name, site); continue
        if not rep.ok(ev.same(e, s, new, got) or ev.same(e, s, new, old), name + ":pick", "%s yields an event that no element reported" % name, site): continue
        rn, ro, rg = ev.rank(e, s, new), ev.rank(e, s, old), ev.rank(e, s, got)
        good = rn is not None and all(x is not None for x in (ro, rg))
        if good: good = all(prove_le(s, x, rn) if which == "max" else prove_le(s, rn, x) for x in (ro, rg))
        rep.ok(good, name + ":pick", "%s does not pick the %s event" % (name, word), site)
    return 1


def whole(rep, e, rec, d, name, site):
    partial = False
    it = rec.src
    while it is not None and it.op == "iter":
        if it.a[0][0] in PARTIAL or it.a[0][0] == "adapt" and it.a[0][1] in PARTIAL or it.a[0][0] in ("filter", "filter_map"): partial = True
        it = next((x for x in it.a[0][2:] if isinstance(x, V) and x.op == "iter"), None)
    rep.ok(not partial, name + ":partial", "%s leaves elements of its source out" % name, site)
    early = [x for x in d.early if x[0] != "partial"]
    rep.ok(not early, name + ":early", "%s stops before the end of its source" % name, site)


def asked(e, rec, s, d):
    """What the element of an iteration answers when asked for its next event."""
    evs = rec.iter_events(s)
    items = [x.a[1] for x in evs if x.k == "next"]
    calls = [x for x in evs if x.k == "call" and x.a[0].endswith("::next_event")]
    if len(items) >= 1 and len(calls) == 1 and calls[0].a[1] and calls[0].a[1][0] is items[-1]: return calls[0].a[2]
    return None
