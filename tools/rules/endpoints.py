"""C07-C10, C13: life cycle and wiring of channel endpoints."""
from rules import rule
from rules.base import *
from rules.channels import *
from rules.channels import chan, ops, is_view, c01, c05

SIDE_OPS = (("snd", ("enqueue", "wait")), ("rcv", ("peek", "peek_next", "dequeue")))
MOVES = ("send", "recv", "try_recv", "advance", "incr", "view_wait")


def queue_type(p, ty): return (p.adt(ty) or "").startswith("crossbeam_channel::channel::")


def holds(p, ty, pred, seen=None):
    """Does a value of the type own something that satisfies pred?"""
    if seen is None: seen = set()
    if ty is None or ty in seen: return False
    seen.add(ty)
    if pred(ty): return True
    t = p.types[ty]
    if t["k"] == "adt":
        for v in t.get("vs") or ():
            if any(holds(p, f[1], pred, seen) for f in v[2]): return True
        return any(holds(p, a, pred, seen) for a in t["a"]) if (p.adt(ty) or "").split("::")[-1] in ("Box", "Arc", "Rc", "Vec", "Option", "ManuallyDrop", "MaybeUninit", "Mutex", "RefCell", "UnsafeCell", "Cell") else False
    if t["k"] in ("tuple", "closure"): return any(holds(p, x, pred, seen) for x in t["ts"])
    return False


@rule("C07")
def c07(rep):
    rep.rule("Dropping an endpoint, from every state its implementation can be in, leaves the terminated implementation (whose type owns no queue end) and runs the destructor of every queue end the old implementation owned. A failed send, a disconnected queue and a remembered disconnection each end the operation in an error (for a receive: closed), never in success or another wait.")
    for config in CONFIGS:
        o = ops(rep, config)
        if o is None: return
        c, p = o.c, o.p
        n = 0
        for t, op in (("snd", "drop_s"), ("rcv", "drop_r")):
            term = c.var[("terminated", t)]
            pay = p.variants(c.T[t])[term][2]
            rep.ok(not any(holds(p, f[1], lambda ty: queue_type(p, ty)) for f in pay), op + ":owns", "a terminated endpoint still owns an end of a queue", c.site(op))
            for f, b, v in c.live(t):
                r = c.run(op, t, v, b, merge=False)
                ends = r.leaves(lambda ty: queue_type(p, ty))
                rep.ok(len(ends) == (2 if b else 1), "%s:%s:ends" % (op, f), "a live endpoint does not own one data queue end (and one acknowledgement end if bounded)", r.site)
                for out in r.outs:
                    if not rep.ok(out.kind == "ret", "%s:%s:panic" % (op, f), "dropping an endpoint can panic", r.site): continue
                    n += 1
                    x = r.impl(out.st)
                    rep.ok(x.op == "agg" and x.a[0] == term, "%s:%s:left" % (op, f), "a dropped endpoint is not left terminated", r.site)
                    gone = [y.a[0] for y in out.st.events() if y.k == "drop_ext"]
                    for q in ends:
                        w = r.read(r.st0, q)
                        rep.ok(any(y is w for y in gone), "%s:%s:%s:leak" % (op, f, "data" if same_elem(p, c, w) else "resp"), "dropping an endpoint does not release its end of a queue, so the peer never learns of it", r.site)
        rep.floor("drops of live endpoints (%s)" % config, n, 6)
        n = 0
        for r in o.each("snd", ("enqueue", "wait")):
            segs = segments(r)
            cr = Credit(o, r, segs) if r.resp is not None else None
            gone = set()
            if cr is not None and cr.path is not None:
                for g in segs:
                    k1, _ = cr.at(g.st)
                    if k1 is not None and k1 >= 0 and lost(r, g.evs, r.resp) and k1 not in cr.avail: gone.add(k1)
            for g in segs:
                n += 1
                res = o.result(r, g.st, g.val)[0] if g.kind == "ret" else None
                failed = [x for x in g.evs if x.k == "send" and on(x, r.data) and x.a[2] == 0]
                if failed: rep.ok(res == "err", r.label + ":failed", "a send that fails because the receiver is gone is not reported as an error", failed[0].site)
                if r.resp is None:
                    if not failed: rep.ok(g.kind != "ret" or res == "ok", r.label + ":spurious", "%s fails although the channel is open" % r.label.split(":")[0], r.site)
                    continue
                dis = lost(r, g.evs, r.resp)
                k0 = k1 = None
                if cr is not None and cr.path is not None: (k0, _), (k1, _) = cr.at(g.st, g.base), cr.at(g.st)
                knows = k0 in gone
                if dis: rep.ok(res == "err" or k1 in gone, r.label + ":forgets", "a sender that finds the receiver gone neither fails nor remembers it", r.site)
                if knows:
                    rep.ok(k1 in gone, r.label + ":forgets", "a sender forgets that the receiver is gone", r.site)
                    rep.ok(g.kind == "ret", r.label + ":blocks", "a sender whose receiver is gone keeps waiting for space", r.site)
                    if res == "ok" and not any(x.k == "send" for x in g.evs):
                        d = r.read(g.st, o.delta(r))
                        rep.ok(prove_le(g.st, r.e.binop(g.st, "Add", d, const(1, d.ty), d.ty), r.param("capacity")), r.label + ":never", "a wait for space that can never come succeeds", r.site)
                if k1 in gone and not knows: rep.ok(dis, r.label + ":spurious", "a sender takes the receiver for gone although it is not", r.site)
                if res == "err": rep.ok(bool(failed or dis or knows), r.label + ":spurious", "%s fails although the channel is open" % r.label.split(":")[0], r.site)
        rep.floor("sender stretches (%s)" % config, n, 10)
        n = 0
        for r in o.each("rcv", ("peek", "peek_next", "dequeue")):
            hp = o.head(r)
            if not rep.ok(hp is not None, r.label + ":head", "the receiver has no single place for a peeked element", r.site): continue
            op = r.label.split(":")[0]
            for g in segments(r):
                n += 1
                res = None
                if g.kind == "ret":
                    if op == "peek": res = {"Closed": "err"}.get(o.peeked(r, g.st, g.val)[0], "ok")
                    else: res = o.result(r, g.st, g.val)[0]
                k0, _ = o.head_of(r, g.st, hp, g.base)
                k1, _ = o.head_of(r, g.st, hp)
                if k0 == "Closed":
                    rep.ok(g.kind == "ret" and res == "err" and k1 == "Closed", r.label + ":reopens", "a closed receiver does not report closed at once, or forgets that it is closed", r.site)
                if lost(r, g.evs, r.data):
                    rep.ok((res == "err" if g.kind == "ret" else k1 == "Closed") and k1 in ("Closed", None), r.label + ":open", "a receiver that finds the sender gone does not report the channel closed", r.site)
        rep.floor("receive stretches (%s)" % config, n, 20)


def same_elem(p, c, v):
    ty = v.ty
    return ty is not None and p.types[ty].get("a") and p.adt(p.types[ty]["a"][0]) == p.adt(c.T["elem"])


def lost(r, evs, q):
    """Did the last look at a queue find it disconnected?"""
    x = [y for y in evs if y.k in RECV and on(y, q)]
    return bool(x) and x[-1].a[1] == "disconnected"


@rule("C08")
def c08(rep):
    rep.rule("Every operation on an endpoint whose implementation is uninitialised or terminated panics on all paths, with no queue, clock or view operation before it. attach_* returns only for an uninitialised endpoint, and then stores view() and id() of the given context in the fields of the channel's specification that stand for that side; for any other endpoint it panics with nothing stored.")
    c = chan(rep)
    if c is None: return
    p = c.p
    n = 0
    for t, names in SIDE_OPS:
        for what in ("uninit", "terminated"):
            for op in names:
                r = c.run(op, t, c.var[(what, t)], None, merge=False)
                for k, st, v in paths(r.outs, True):
                    n += 1
                    rep.ok(k != "ret", "%s:%s:returns" % (op, what), "%s on an endpoint that is %s returns instead of panicking" % (op, "not initialised" if what == "uninit" else "terminated"), r.site)
                    rep.ok(not any(x.k in MOVES for x in st.events()), "%s:%s:acts" % (op, what), "%s on an endpoint that is %s does something before it panics" % (op, "not initialised" if what == "uninit" else "terminated"), r.site)
    rep.floor("operations at the wrong stage", n, 8)
    # attaching: what is recorded in the specification, for each side
    rec = {"att_s": c.attach("att_s"), "att_r": c.attach("att_r")}
    for a, side, who in (("att_s", "sender", "sview"), ("att_r", "receiver", "rview")):
        got = rec[a] or {}
        ids = [i for i, x in got.items() if x[0] == "id"]
        rep.ok(sorted(x[0] for x in got.values()) == ["id", "view"] and len(ids) == 1, a + ":records", "attaching a %s does not record exactly the context's view and identity" % side, c.site(a))
        # and the handle reports that identity as this side's
        key = root(p, "<channel::handle::ChannelData<T> as channel::handle::ChannelHandle>::" + side)
        if not rep.ok(key is not None, "anchor:" + side, "the channel handle does not report its " + side): continue
        e = c.eng()
        st = State()
        args = e.sym_args(key, st)
        outs = [x for x in e.run_fn(key, args, st) if x.kind == "ret"]
        ok1 = bool(outs) and len(ids) == 1
        for x in outs:
            locks = [y for y in x.st.events() if y.k == "lock"]
            ok1 = ok1 and len(locks) == 1 and any(z[:1] == ("f",) and z[2] == ids[0] for z in lock_path(locks[0])[-1:])
        rep.ok(ok1, "handle:" + side, "the %s a channel reports is not the context that was attached as its %s" % (side, side), body_site(p, key))
    for op, t, a in (("attach_sender", "snd", "att_s"), ("attach_receiver", "rcv", "att_r")):
        for what, v in [("uninit", c.var[("uninit", t)]), ("terminated", c.var[("terminated", t)])] + [(f, v) for f, b, v in c.live(t)] + [("Void", c.var[("Void", 1, t)])]:
            if what != "uninit" and v == c.var[("uninit", t)]: continue
            r = c.run(op, t, v, None, merge=False)
            for k, st, val in paths(r.outs, True):
                n += 1
                if what != "uninit":
                    rep.ok(k != "ret", op + ":late", "a context can be attached to an endpoint that is already initialised", r.site)
                    made = [x.a[2] for x in st.events() if x.k == "call" and x.a[1] and c.same_ctx(r.e, st, x.a[1][0], r.args[1])]
                    kept = [w for al, v in st.mem.items() if isinstance(v, V) for _, sp in find_typed(r.e, st, v, c.T["spec"]) for w in subterms(sp) if any(w is m for m in made)]
                    rep.ok(not kept, op + ":late", "attaching to an initialised endpoint changes the channel before it panics", r.site)
                    continue
                if k != "ret":
                    rep.ok(False, op + ":refuses", "attaching a context to a fresh endpoint can panic", r.site); continue
                e = r.e
                # the specification reached from the endpoint: its fields hold view() and id() of the argument
                sp = spec_of(c, r, st, t)
                if not rep.ok(sp is not None, op + ":spec", "a fresh endpoint does not lead to its channel's specification", r.site): continue
                new = {}
                for i, f in enumerate(p.variants(c.T["spec"])[0][2]):
                    y = e.field_of(sp, 0, i)
                    if y.op == "cell": new[i] = y.a[0]
                calls = {x.a[2]: x.a[0].split("::")[-1] for x in st.events() if x.k == "call" and x.a[1] and c.same_ctx(e, st, x.a[1][0], r.args[1])}
                got = {i: calls.get(w.a[1], "?") for i, w in new.items() if w.op == "agg" and len(w.a) == 2}
                want = {i: x[0] for i, x in (rec[a] or {}).items()}
                rep.ok(got == want, op + ":records", "attaching a context does not record exactly its view and identity for this side of the channel", r.site)
    # both endpoints of a new channel lead to the channel's own specification
    same = set()
    for t in ("snd", "rcv"):
        for path, x in find_typed(c.eng(), c.data0_st, c.data0, c.T[t]):
            for w in subterms(x):
                if w.ty is not None and is_spec_ref(c, w.ty): same.add(w)
    for x in c.data0.a[1:]:
        if isinstance(x, V) and x.ty is not None and is_spec_ref(c, x.ty): same.add(x)
    rep.ok(len(same) == 1, "new:spec", "the endpoints of a new channel do not share its specification", c.site("new"))


def lock_path(ev):
    for x in ev.a:
        if isinstance(x, V) and x.op == "guard": return x.a[1]
    return ()


def is_spec_ref(c, ty): return c.p.tk(ty) == "adt" and (c.p.adt(ty) or "").endswith("Arc") and c.p.types[ty]["a"][0] == c.T["spec"]


def subterms(v, seen=None):
    if not isinstance(v, V): return
    yield v
    if v.op in ("agg", "cell"):
        for x in v.a: yield from subterms(x)


def spec_of(c, r, st, t):
    """The channel's specification as reached from an uninitialised endpoint."""
    pay = r.e.field_of(r.impl0, r.variant, 0)
    ty = pay.ty
    for i in range(c.p.nfields(ty, 0)):
        if is_spec_ref(c, c.p.field_ty(ty, 0, i)):
            ref = r.e.field_of(pay, 0, i)
            al, path = r.e.deref(st, ref)
            return r.e.load(st, al, path)
    return None


BUILD = "simulation::building::ProgramBuilder::<'a>::"
# builder function -> (capacity, send latency, response latency) as argument positions (None: not given)
BUILDERS = {"bounded": (1, None, None), "bounded_with_latency": (1, 2, 3), "unbounded": (None, None, None), "unbounded_with_latency": (None, 1, 2), "void": (None, None, None)}


def build(c, n):
    """(engine, args, outcomes, site) of a channel constructor of the program builder."""
    key = root(c.p, BUILD + n)
    if not c.need(key is not None, "anchor:" + n, "the program builder has no %s" % n): return None
    e = c.eng()
    st = State()
    args = e.sym_args(key, st)
    outs = e.run_fn(key, args, st)
    c.rep.use(e)
    return e, args, outs, body_site(c.p, key)


def built_specs(c, e, st):
    """Channel specifications that exist in a state."""
    r = []
    for al, v in st.mem.items():
        if isinstance(v, V): r += [x for _, x in find_typed(e, st, v, c.T["spec"]) if x.op == "agg"]
    return r


@rule("C09")
def c09(rep):
    rep.rule("Every channel constructor of the program builder creates one channel specification whose capacity and latencies are the given arguments, no capacity for unbounded channels, and 1 for latencies not given; paths with a zero latency panic and no others do. The stamps that the endpoints apply (rules of C01, C05) use the specification's latencies.")
    c = chan(rep)
    if c is None: return
    p = c.p
    n = 0
    for name, pos in BUILDERS.items():
        b = build(c, name)
        if b is None: continue
        e, args, outs, site = b
        lats = [args[i] for i in pos[1:] if i is not None]
        for o in outs:
            n += 1
            if o.kind != "ret":
                zero1 = any(prove_le(o.st, l, const(0, l.ty)) for l in lats)
                rep.ok(zero1, name + ":refuses", "%s panics although no latency is zero" % name, site)
                continue
            for l in lats: rep.ok(prove_le(o.st, const(1, l.ty), l), name + ":zero", "%s accepts a latency of zero" % name, site)
            sp = built_specs(c, e, o.st)
            if not rep.ok(len(sp) == 1, name + ":one", "%s does not create exactly one channel" % name, site): continue
            sp = sp[0]
            cap = e.resolve(o.st, e.field_of(sp, 0, c.role["capacity"]))
            if pos[0] is None: rep.ok(cap.op == "agg" and cap.a[0] == 0, name + ":capacity", "%s creates a channel with a bound" % name, site)
            else: rep.ok(cap.op == "agg" and cap.a[0] == 1 and cap.a[1] is args[pos[0]], name + ":capacity", "%s creates a channel with another capacity than asked for" % name, site)
            for what, i in (("send", pos[1]), ("resp", pos[2])):
                v = e.resolve(o.st, e.field_of(sp, 0, c.role[what]))
                want = args[i] if i is not None else const(1, v.ty)
                rep.ok(v is want or eq_terms(o.st, v, want), "%s:%s" % (name, what), "%s creates a channel with another %s latency than %s" % (name, {"send": "send", "resp": "response"}[what], "asked for" if i is not None else "one cycle"), site)
        rep.ok(any(o.kind == "ret" for o in outs), name + ":never", "%s never creates a channel" % name, site)
    rep.floor("constructor paths", n, 7)
    # and the latencies of the specification are the ones the endpoints apply
    c01(rep)
    c05(rep)


@rule("C10")
def c10(rep):
    rep.rule("set_flavor, on a fresh channel of either kind of capacity: sender and receiver get the two ends of one data queue, bounded ones the two ends of one other queue for acknowledgements, each queue unbounded or at least as large as the capacity; both carry the channel's own capacity, latencies and views; nothing is counted, reserved or cached yet. The implementations installed for a cyclic channel never block on a queue, and an acyclic bounded channel has either two blocking or two non-blocking ends.")
    for config in CONFIGS:
        o = ops(rep, config)
        if o is None: return
        c, p = o.c, o.p
        n = 0
        for (f, b), (e, spec, res) in c.made.items():
            if f == "Void": continue
            site = c.site("flavor")
            lab = "%s:%s" % (f, "bounded" if b else "unbounded")
            good = [(x, d) for x, d in res if x.kind == "ret"]
            rep.ok(len(good) == len(res), lab + ":panics", "setting up a channel can panic", site)
            for x, d in good:
                n += 1
                st = x.st
                caps = {ev.a[0]: ev.a[1] for ev in st.events() if ev.k == "newqueue"}
                ends = {}
                for t in ("snd", "rcv"):
                    v = d.get(t)
                    if not rep.ok(v is not None and v.op == "agg", "%s:%s" % (lab, t), "setting up a channel does not install an endpoint implementation", site): continue
                    live = (f, b, v.a[0]) if v.a[0] not in (c.var[("uninit", t)], c.var[("terminated", t)]) else None
                    if not rep.ok(live is not None, "%s:%s:dead" % (lab, t), "setting up a channel leaves an end of it unusable", site): continue
                    pay = v.a[1]
                    qs = {}
                    for w in subterms(pay):
                        if w.op in ("tx", "rx") and w.ty is not None: qs.setdefault("data" if same_elem(p, c, w) else "resp", []).append((w.op, w.a[0]))
                    ends[t] = qs
                    # the channel's own parameters
                    sps = [w for w in subterms(pay) if w.ty == c.T["inline"] and w.op == "agg"]
                    if rep.ok(len(sps) == 1, "%s:%s:spec" % (lab, t), "an endpoint does not carry the channel's parameters", site):
                        for what, j in c.inl.items():
                            y = e.resolve(st, e.field_of(sps[0], 0, j))
                            z = e.field_of(spec, 0, c.role[what])
                            if z.op == "cell": z = z.a[0]
                            rep.ok(y == z or y is z, "%s:%s:%s" % (lab, t, what), "an endpoint gets another %s than its channel has" % {"send": "send latency", "resp": "response latency", "sview": "sender", "rview": "receiver"}.get(what, what), site)
                    # fresh bookkeeping
                    for path, ty in leaf_types(p, pay, c.T["inline"]):
                        w = pay
                        for i in path: w = e.resolve(st, e.field_of(w, 0, i))
                        if p_uint(p, ty): rep.ok(isc(w) and w.a[0] == 0, "%s:%s:count" % (lab, t), "a new sender starts with elements in flight", site)
                        if p.adt(ty) == "core::option::Option": rep.ok(w.op == "agg" and w.a[0] == 0, "%s:%s:cache" % (lab, t), "a new endpoint starts with something cached", site)
                if set(ends) != {"snd", "rcv"}: continue
                s, r = ends["snd"], ends["rcv"]
                dq = s.get("data", []) + r.get("data", [])
                rep.ok(sorted(k for k, _ in dq) == ["rx", "tx"] and [k for k, _ in s.get("data", [])] == ["tx"] and dq[0][1] is dq[1][1], lab + ":data", "the two ends of a channel are not the two ends of one data queue", site)
                if b:
                    rq = s.get("resp", []) + r.get("resp", [])
                    rep.ok(sorted(k for k, _ in rq) == ["rx", "tx"] and [k for k, _ in s.get("resp", [])] == ["rx"] and rq[0][1] is rq[1][1], lab + ":resp", "the two ends of a bounded channel are not the two ends of one acknowledgement queue", site)
                else: rep.ok(not s.get("resp") and not r.get("resp"), lab + ":resp", "an unbounded channel has an acknowledgement queue", site)
                cap = e.field_of(spec, 0, c.role["capacity"])
                for _, q in dq + (s.get("resp", []) if b else []):
                    room = caps.get(q)
                    rep.ok(room is not None and (room.op == "undef" or b and prove_le(st, cap.a[1], room)), lab + ":room", "a queue of a channel holds fewer elements than the channel's capacity", site)
        rep.floor("set-ups (%s)" % config, n, 4)
        # whom an endpoint waits for
        for t, names, peer in (("snd", SENDERS, "rview"), ("rcv", RECEIVERS, "sview")):
            for r in o.each(t, [x for x, _ in names]):
                for _, st, _ in paths(r.outs, True):
                    for x in st.events():
                        if x.k == "view_wait": rep.ok(is_view(r, x, peer), r.label + ":peer", "an endpoint waits for a context other than the one at the other end of its channel", x.site)
                        if x.k == "view_tlb": rep.ok(is_view(r, x, "sview") or is_view(r, x, "rview"), r.label + ":peer", "an endpoint looks at the clock of a context that is not on its channel", x.site)
        # who blocks on a queue
        blocks = {}
        for t, names in (("snd", ("enqueue", "wait")), ("rcv", ("peek", "peek_next", "dequeue"))):
            for f, b, v in c.live(t):
                hit = False
                for op in names:
                    r = c.run(op, t, v, b, setup=o.within if t == "snd" and b else None, merge=False)
                    hit = hit or any(x.k == "recv" for _, st, _ in paths(r.outs, True) for x in st.events())
                blocks[(t, v)] = hit
        for b in (1, 0):
            s, r = c.var.get(("Cyclic", b, "snd")), c.var.get(("Cyclic", b, "rcv"))
            for t, v in (("snd", s), ("rcv", r)):
                rep.ok(not blocks.get((t, v), True), "cyclic:%s:blocks" % t, "an end of a cyclic channel blocks until the peer acts, which deadlocks the cycle", c.site("flavor"))
        s, r = blocks.get(("snd", c.var.get(("Acyclic", 1, "snd")))), blocks.get(("rcv", c.var.get(("Acyclic", 1, "rcv"))))
        rep.ok(s is not None and s == r, "acyclic:kind", "the two ends of an acyclic channel are of different kinds", c.site("flavor"))
    # the parameters they carry are the ones they apply
    c01(rep)
    c05(rep)


def leaf_types(p, v, stop, path=(), d=0):
    """Option and integer fields of a value's type, outside the channel's parameters."""
    ty = v if isinstance(v, int) else v.ty
    if ty == stop or d > 4: return
    if p_uint(p, ty) or p.adt(ty) == "core::option::Option": yield path, ty; return
    if p.tk(ty) not in ("adt", "tuple") or p.is_enum(ty) or not p.types[ty].get("local"): return
    for i in range(p.nfields(ty, 0)): yield from leaf_types(p, p.field_ty(ty, 0, i), stop, path + (i,), d + 1)


@rule("C13")
def c13(rep):
    rep.rule("Setting up a channel as void installs a sender implementation of whose enqueue and wait_until_available every path returns Ok with no queue, clock or view operation.")
    c = chan(rep)
    if c is None: return
    n = 0
    for b in (1, 0):
        v = c.var.get(("Void", b, "snd"))
        if not rep.ok(v is not None and v not in (c.var[("uninit", "snd")], c.var[("terminated", "snd")]), "install", "a void channel gets no working sender", c.site("flavor")): continue
        for op in ("enqueue", "wait"):
            r = c.run(op, "snd", v, None, merge=False)
            for k, st, val in paths(r.outs, True):
                n += 1
                if not rep.ok(k == "ret", op + ":blocks", "%s on a void channel can panic or wait" % op, r.site): continue
                x = r.e.resolve(st, val)
                rep.ok(x.op == "agg" and x.a[0] == 0, op + ":fails", "%s on a void channel can fail" % op, r.site)
                rep.ok(not any(y.k in MOVES for y in st.events()), op + ":acts", "%s on a void channel moves data or a clock" % op, r.site)
                if r.clk_key: rep.ok(r.clock(st) is r.clk0, op + ":clock", "%s on a void channel changes the sender's clock" % op, r.site)
    rep.floor("void operations", n, 4)


# ------------------------------------------------------------------ C12
ENDS = ("channel::Sender", "channel::Receiver")
BITCOPY = {"read", "read_volatile", "read_unaligned", "transmute", "transmute_copy", "copy", "copy_nonoverlapping", "assume_init", "assume_init_read", "zeroed", "from_raw", "swap_nonoverlapping", "duplicate"}


def makers(p, adts):
    """Bodies that construct a value of one of the types."""
    r = {}
    for k, b in p.bodies.items():
        for bb in b["bb"]:
            for x in walk_aggs(bb[0]):
                if p.adt(x) in adts: r.setdefault(k, []).append(p.adt(x))
    return r


def walk_aggs(x):
    if isinstance(x, (list, tuple)):
        if len(x) == 3 and x[0] == "agg" and isinstance(x[1], list) and x[1] and x[1][0] == "adt": yield x[1][1]
        for y in x: yield from walk_aggs(y)


def ends_in(p, v, out):
    """Endpoint values inside a value, counted with repetition."""
    if not isinstance(v, V):
        if isinstance(v, tuple):
            for x in v: ends_in(p, x, out)
        return
    if v.op == "agg" and p.adt(v.ty) in ENDS: out.append(v); return
    if v.op in ("agg", "op"):
        for x in v.a[1:]: ends_in(p, x, out)


@rule("C12")
def c12(rep):
    rep.rule("Client programs that clone, copy, default-construct or build an endpoint, reach its fields or name the types behind it do not compile, while twins that do the same with public types do. Endpoints are constructed only in the program builder's channel constructors; on every path each of them returns one sender and at most one receiver, of a channel freshly created on that path, and keeps neither. No bitwise copy of an endpoint is made anywhere.")
    from witness import Witnesses
    p = prog("main")
    w = Witnesses(rep)
    head = "extern crate dam;\nuse dam::channel::*;\n"
    need = "fn need<T: %s>() {}\npub fn w() { need::<%s<i32>>() }\n"
    hidden = set()
    for adt in ENDS:
        ty = p.find_adt(adt)
        if not rep.ok(ty is not None, "anchor:" + adt, "there is no %s" % adt): return
        n = adt.split("::")[-1]
        for tr in ("Clone", "Copy", "Default"):
            w.rejected(head + need % (tr, n), ["E0277"], "%s:%s" % (n, tr), "clients can duplicate or create a %s: it implements %s" % (n, tr))
        fs = p.variants(ty)[0][2]
        for f in fs:
            w.rejected(head + "pub fn w(x: &%s<i32>) { let _ = &x.%s; }\n" % (n, f[0]), ["E0616", None], "%s:field" % n, "clients can reach the state behind a %s" % n)
            collect_hidden(p, f[1], hidden)
        lit = ", ".join("%s: todo!()" % f[0] for f in fs)
        w.rejected(head + "pub fn w() -> %s<i32> { %s { %s } }\n" % (n, n, lit), ["E0451", None], "%s:literal" % n, "clients can construct a %s" % n)
    w.builds(head + need % ("Clone", "ChannelElement") + "pub fn v(x: &ChannelElement<i32>) { let _ = &x.time; }\npub fn u(x: dam::structures::Time) -> ChannelElement<i32> { ChannelElement { time: x, data: 1 } }\n"
             + "pub fn t() { let mut b = dam::simulation::ProgramBuilder::default(); let (_s, _r): (Sender<i32>, Receiver<i32>) = b.bounded(1); let _v: Sender<i32> = b.void(); }\n",
             "twin", "ordinary client programs do not compile")
    # the kind of a channel: what the set-up takes
    for r in p.roots:
        if (r.get("trait") or "").endswith("handle::ChannelHandle") and r["n"] == "set_flavor" and r["key"] in p.bodies:
            for ty in p.bodies[r["key"]]["l"][1:p.bodies[r["key"]]["argc"] + 1]: collect_hidden(p, ty, hidden)
    reach = {x["p"]: x["reach"] for x in p.adts}
    hidden = {h for h in hidden if h in reach}
    rep.floor("internal types", len(hidden), 4)
    for h in sorted(hidden):
        rep.ok(not reach[h], "hidden:" + h.split("::")[-1], "clients can reach %s, which is behind the endpoints" % h)
        w.rejected("extern crate dam;\n#[allow(unused_imports)]\nuse dam::%s as W;\n" % h, ["E0603"], "name:" + h.split("::")[-1], "clients can name %s" % h)
    # no trait of the standard library that duplicates, whatever the element type
    for x in p.impls:
        if p.adt(x["self"]) in ENDS:
            rep.ok(x.get("trait") not in ("core::clone::Clone", "core::marker::Copy", "core::default::Default", "alloc::borrow::ToOwned", "core::convert::From"), "impl:%s" % x.get("trait"), "an endpoint implements %s" % x.get("trait"))
    # who constructs endpoints
    mk_ = makers(p, ENDS)
    rep.floor("endpoint constructions", sum(len(x) for x in mk_.values()), 2)
    by = roots_by_key(p)
    public = {k for k, r in by.items() if r["reach"] and (r["vis"] == "Public" or r.get("trait"))}
    entry = reaches(p, set(mk_), stop=public) | set(mk_)
    entry = {k for k in entry | {c for k in entry for c in callers(p).get(k, ())} if k in public}
    c = chan(rep)
    if c is None: return
    built = 0
    for k in sorted(entry):
        r = by[k]
        site = body_site(p, k)
        own = "ProgramBuilder" in p.ts(r.get("self")) and r.get("trait") is None
        if not any(x in mk_ for x in below(p, k, public)) and k not in mk_: continue
        if not rep.ok(own, "maker:" + r["p"], "endpoints can be obtained without the program builder", site): continue
        e = c.eng()
        st = State()
        args = e.sym_args(k, st)
        name = r["n"]
        for o in e.run_fn(k, args, st):
            if o.kind != "ret": continue
            built += 1
            out = []
            ends_in(p, o.val, out)
            snd = [v for v in out if p.adt(v.ty) == ENDS[0]]
            rcv = [v for v in out if p.adt(v.ty) == ENDS[1]]
            rep.ok(len(snd) == 1 and len(rcv) <= 1, name + ":once", "%s hands out %d senders and %d receivers" % (name, len(snd), len(rcv)), site)
            kept = []
            for x in o.st.events():
                if x.k not in ("next",): ends_in(p, tuple(x.a), kept)
            for al, v in o.st.mem.items():
                if isinstance(al, tuple) and al and al[0] in ("h", "static"): ends_in(p, v, kept)
            rep.ok(not kept, name + ":keeps", "%s keeps an endpoint that it hands out" % name, site)
            made = {x.a[0]: x.a[1] for x in o.st.events() if x.k == "alloc"}
            arcs = set()
            for v in out:
                t = e.resolve(o.st, v.a[1])
                al = e.deref(o.st, t)[0]
                arcs.add(al)
                if not rep.ok(al in made, name + ":fresh", "%s hands out an endpoint of a channel that already exists" % name, site): continue
                rep.ok(e.load(o.st, al, ()) is made[al], name + ":used", "%s changes a channel after creating it" % name, site)
            rep.ok(len(arcs) == 1, name + ":pair", "%s hands out two ends of different channels" % name, site)
        rep.use(e)
    rep.floor("builder paths", built, 5)
    # bitwise copies
    for b in p.bodies.values():
        for bb in b["bb"]:
            t = bb[1]
            if t[0] != "call" or not isinstance(t[1], int): continue
            cal = p.callees[t[1]]
            if cal["n"] in BITCOPY and not cal.get("rlocal") and any(holds(p, a, lambda q: p.adt(q) in ENDS) for a in cal["a"]) and (by.get(b["key"]) or {}).get("p") is not None:
                rep.fail("bitcopy:" + b["p"], "an endpoint is copied bitwise (%s)" % cal["n"], (b["p"], b["file"], b["ln"]))
    rep.count("witness programs", w.n)


def below(p, k, stop):
    """Bodies reached from k without entering another public function."""
    seen, work = {k}, [k]
    while work:
        for x in callees_of(p).get(work.pop(), ()):
            if x in seen or x in stop: continue
            seen.add(x); work.append(x)
    return seen


def collect_hidden(p, ty, out, depth=0):
    """Crate types behind a field, through references, smart pointers and cells, up to the first of the crate's module."""
    if ty is None or depth > 6: return
    t = p.types[ty]
    if t["k"] in ("ref", "ptr", "slice", "array"): collect_hidden(p, t["t"], out, depth + 1); return
    if t["k"] == "tuple":
        for x in t["ts"]: collect_hidden(p, x, out, depth + 1)
        return
    if t["k"] != "adt": return
    if t["p"].startswith("channel::") and t["p"] not in ENDS and t["p"] not in PUBLIC:
        if t["p"] in out: return
        out.add(t["p"])
        for v in t.get("vs") or ():
            for f in v[2]: collect_hidden(p, f[1], out, depth + 1)
    for a in t["a"]: collect_hidden(p, a, out, depth + 1)


PUBLIC = ("channel::ChannelElement", "channel::PeekResult", "channel::channel_id::ChannelID", "channel::DequeueError", "channel::EnqueueError", "channel::utils::EventTime")
