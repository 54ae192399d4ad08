"""L01-L04: logging."""
from rules import rule
from rules.base import *
from rules.clocks import Clock, clock_ops, TV, ops_ok
from rules.compute import complete, field
from rules.running import called, method, deep, sections, typed, alike, run_program, parts_of, taken_from, same_place, added
from layers import TimeLayer, LoggerLayer, OwnLayer
from rules.adapters import chan_engine

IFACE = "logging::log_interface::LogInterface"


def fn(p, name, *adt):
    """Body of a public function or inherent method of the logging module."""
    r = [x["key"] for x in p.roots if x["n"] == name and x.get("trait") is None and x["p"].startswith("logging::") and x["key"] in p.bodies
         and (("self" in x and x["self"] is not None and (p.adt(x["self"]) or "").split("::")[-1] == adt[0]) if adt else x.get("self") is None)]
    return r[0] if len(r) == 1 else None


class Log:
    """A run of a logging function without any layer over logging itself."""
    def __init__(self, rep, key, config="main"):
        self.e = engine(rep, config)
        self.e.merge = False
        tl = TimeLayer(self.e)
        self.st = State()
        self.args = self.e.sym_args(key, self.st)
        self.outs = self.e.run_fn(key, self.args, self.st)
        self.p = self.e.p
        self.site = body_site(self.p, key)
        rep.use(self.e)
        rep.count("paths", len(self.outs))


def ends(p, ty, name): return ty is not None and (p.adt(ty) or "").split("::")[-1] == name


def installed(p, st):
    """What this path knows about the logger of its thread: (term, 0 or 1) of the thread-local option."""
    r = {}
    for v, k in st.var.items():
        if v.ty is None or not ends(p, v.ty, "Option"): continue
        a = p.types[v.ty]["a"]
        if a and ends(p, a[0], "LogInterface"): r[v] = k
    return r


def allowed(e, st):
    """What the filter says about the type: True, False, None (not asked), with the filter asked."""
    p = e.p
    for v, k in st.var.items():
        if not ends(p, v.ty, "LogFilter"): continue
        if p.nfields(v.ty, k) == 0: return True, v
        for t, x in st.truth.items():
            if t.op == "op" and t.a[0] == "haskey" and inside(t.a[1], v) and is_name(e, t.a[2]): return bool(x), v
        return None, v
    return None, None


def inside(v, w):
    while v.op == "fld":
        if v is w: return True
        v = v.a[0]
    return v is w


def is_name(e, v):
    """The declared name of the event type the function is generic in."""
    while v.op == "fld" and v.a[1] == "*": v = v.a[0]
    if v.op != "sym" or not isinstance(v.a[0], str): return False
    n = v.a[0].split(",")
    return n[0] == "const:logging::LogEvent::NAME" and len(n) == 2


def whole(st):
    """Events of a path, with those of the loops in it."""
    for x in st.events():
        yield x
        if x.k == "loop":
            for z in x.a[0].iters: yield from deep(x.a[0], z)


def entries(p, evs):
    """Entries handed to a log queue."""
    return [x for x in evs if x.k == "send" and x.a[1].ty is not None and ends(p, x.a[1].ty, "LogEntry")]


def variant(st, v): return v.a[0] if v.op == "agg" else st.var.get(v)


def gave_up(r, o, evs):
    """Did the path fail to describe the event: a conversion that does not fit, or an event that cannot be serialised?"""
    if any(variant(o.st, x.a[2]) == 1 for x in called(evs, "bson::ser::to_bson")): return True
    return any(t.op == "op" and ((t.a[0] == "Lt" and isc(t.a[1])) == bool(x)) and any(y.op == "op" and y.a[0] == "as_micros" or "as_micros" in show(y) for y in t.a[1:] if isinstance(y, V)) for t, x in o.st.truth.items())


@rule("L01")
def l01(rep):
    rep.rule("On every path of log_event and log_event_cb: if the thread has no logger, or its filter (anything but AllowAll) does not contain the declared name of the type, nothing is sent, the callback does not run and the result is Ok; otherwise the callback runs exactly once, its result is what is serialised, exactly one entry is sent, and the result is Ok exactly if it was; only these two functions reach a send of an entry. Without the logging feature both do nothing and succeed.")
    p = prog("main")
    for n in ("log_event", "log_event_cb"):
        key = fn(p, n)
        if not rep.ok(key is not None, "anchor:" + n, "%s is gone" % n): continue
        r = Log(rep, key)
        one_log(rep, r, n)
    lets(rep, p)
    # nothing else logs
    cal = {k for k, b in p.bodies.items() if b.get("local") and sends_entries(p, b)}
    rep.floor("functions that send log entries", len(cal), 1)
    names = [p.bodies[k]["p"] for k in (fn(p, "log_event"), fn(p, "log_event_cb")) if k is not None]
    doors = {k for k, b in p.bodies.items() if b["p"] in names}
    rb = roots_by_key(p)
    for k in sorted(reaches(p, cal, doors)):
        x = rb.get(k)
        if x is None or k in doors or x["kind"] == "const": continue
        mine = x.get("self") is not None and ends(p, x["self"], "LogInterface")
        rep.ok(mine or not x.get("reach"), "door:" + x["p"], "%s logs without asking whether logging is enabled" % x["p"], body_site(p, k))
    p = prog("plain")
    for n in ("log_event", "log_event_cb"):
        key = fn(p, n)
        if not rep.ok(key is not None, "anchor:plain:" + n, "%s is gone without logging" % n): continue
        r = Log(rep, key, "plain")
        for o in r.outs:
            rep.ok(o.kind == "ret" and variant(o.st, r.e.resolve(o.st, o.val)) == 0, "plain:" + n, "%s does not succeed when logging is compiled out" % n, r.site)
            rep.ok(not any(x.k in ("usercall", "send", "call") for x in whole(o.st)), "plain:quiet:" + n, "%s does something when logging is compiled out" % n, r.site)


def sends_entries(p, b):
    for bb in b["bb"]:
        t = bb[1]
        if t[0] == "call" and isinstance(t[1], int):
            c = p.callees[t[1]]
            if c["p"].startswith("crossbeam_channel::") and "send" in c["n"] and any(ends(p, a, "LogEntry") for a in c["a"]): return True
    return False


def one_log(rep, r, n):
    e, p = r.e, r.p
    cb = n.endswith("_cb")
    seen = set()
    for o in r.outs:
        if not rep.ok(o.kind == "ret", n + ":panics", "%s can panic" % n, r.site): continue
        on = set(installed(p, o.st).values())
        yes, filt = allowed(e, o.st)
        evs = list(whole(o.st))
        sent, used = entries(p, evs), [x for x in evs if x.k == "usercall"]
        rep.ok(not any(z.k == "loop" and entries(p, [y for s in z.a[0].iters for y in deep(z.a[0], s)]) for z in o.st.events()), n + ":loop", "%s logs repeatedly" % n, r.site)
        res = variant(o.st, e.resolve(o.st, o.val))
        if not rep.ok(on == {1} and yes is not None or on == {0}, n + ":asks", "%s does not depend on the logger of the thread and its filter" % n, r.site): continue
        want = on == {1} and yes
        seen.add((on == {1}, yes))
        if not want:
            why = "no logger is installed" if on == {0} else "the filter does not enable the event"
            rep.ok(not sent, n + ":sent", "%s logs although %s" % (n, why), r.site)
            rep.ok(not used, n + ":ran", "%s runs its callback although %s" % (n, why), r.site)
            rep.ok(res == 0, n + ":error", "%s fails although %s" % (n, why), r.site)
            continue
        if not rep.ok(res in (0, 1), n + ":result", "the result of %s is unknown" % n, r.site): continue
        rep.ok(len(sent) <= 1, n + ":twice", "%s logs an event twice" % n, r.site)
        if cb:
            rep.ok(len(used) == 1 or (not used and not sent and res == 1), n + ":once", "an enabled callback does not run exactly once", r.site)
            rep.ok(not used or not sent or all(any(y is used[0].a[2] for y in x.a[4] if isinstance(y, V)) for x in called(evs, "bson::ser::to_bson")), n + ":what", "what a callback returned is not what is logged", r.site)
        if not sent:
            rep.ok(res == 1 and gave_up(r, o, evs), n + ":lost", "%s drops an enabled event" % n, r.site)
            continue
        rep.ok(same_logger(e, o.st, sent[0].a[3], filt), n + ":where", "%s sends to another logger than the one whose filter it asked" % n, r.site)
        rep.ok((res == 0) == (sent[0].a[2] == 1), n + ":reports", "%s does not report whether the entry was sent" % n, r.site)
    rep.floor("cases of " + n, len(seen), 3)


def same_logger(e, st, chan, filt):
    def base(v):
        while v.op == "fld" and not ends(e.p, v.ty, "LogInterface"): v = v.a[0]
        return v
    return base(chan) is base(filt)


def lets(rep, p):
    """LogFilter::enabled on its own."""
    key = fn(p, "enabled", "LogFilter")
    if not rep.ok(key is not None, "anchor:enabled", "LogFilter::enabled is gone"): return
    r = Log(rep, key)
    got = set()
    for o in r.outs:
        if not rep.ok(o.kind == "ret", "enabled:panics", "asking a filter can panic", r.site): continue
        for s, x in r.e.truth_split(o.st, r.e.resolve(o.st, o.val)):
            yes, filt = allowed(r.e, s)
            got.add(bool(x))
            rep.ok(yes is not None and yes == bool(x), "enabled:%d" % x, "a filter %s an event although it %s" % (("enables", "does not name it") if x else ("disables", "enables it")), r.site)
    rep.ok(got == {True, False}, "enabled:both", "filters never %s" % ("enable" if True not in got else "disable"), r.site)


# ---- L02
def equal(e, s, a, b):
    """The same value, part by part."""
    a, b = e.resolve(s, a), e.resolve(s, b)
    if alike(a, b) or eq_terms(s, a, b): return True
    if a.ty == e.p.bool_ty and b.ty == e.p.bool_ty:
        x = e.decide(s, a)
        return x is not None and x == e.decide(s, b)
    if a.op != "agg": a, b = b, a
    if a.op != "agg": return False
    if a.ty is not None and e.p.is_enum(a.ty) and variant(s, b) != a.a[0]: return False
    if len(a.a) == 1: return b.op == "agg" and len(b.a) == 1 or b.op != "agg"
    return all(equal(e, s, x, e.step(s, b, ("f", a.a[0], i))) for i, x in enumerate(a.a[1:]))


def local_log(e, st):
    """The logger option of this thread, wherever the thread-local keeps it."""
    def ok(t):
        if not ends(e.p, t, "Option"): return False
        a = e.p.types[t]["a"]
        return bool(a) and ends(e.p, a[0], "LogInterface")
    r = []
    for al, v in st.mem.items():
        if not (isinstance(al, tuple) and al and al[0] == "tls"): continue
        r += find_in(e, st, e.resolve(st, v), ok)
    return r[0] if len(r) == 1 else None


def find_in(e, st, v, ok, d=0):
    if not isinstance(v, V) or d > 6: return []
    if v.ty is not None and ok(v.ty): return [v]
    if v.op in ("agg",): return [y for x in v.a[1:] for y in find_in(e, st, x, ok, d + 1)]
    if v.op in ("cell", "upd", "put", "with"): return [y for x in v.a for y in find_in(e, st, x, ok, d + 1)]
    return []


@rule("L02")
def l02(rep):
    rep.rule("On every path of the logging functions, the entry sent has the identity and the cycle of the installed logger, the declared name of the type, and the value returned by serialising the event. After every operation that moves a clock, the logger installed on the thread, if any, holds the clock's new value. Installing stores exactly the given logger; copying returns the stored one. On the thread of every context that is run, and before it runs, exactly one logger is installed when the options ask for logging and none otherwise, with that context's identity, cycle zero, and the filter given for all or the one chosen for that identity; a context that runs parts on threads of their own installs there the logger it copied on its own thread, changed only to the part's identity.")
    p = prog("main")
    entry_fields(rep, p)
    moves(rep, p)
    storing(rep, p)
    owners(rep)
    heirs(rep, p)


def entry_fields(rep, p):
    lt = [a for a in p.adts if a["p"].endswith("::LogEntry")]
    for n in ("log_event", "log_event_cb"):
        key = fn(p, n)
        if not rep.ok(key is not None, "anchor:" + n, "%s is gone" % n): continue
        r = Log(rep, key)
        e = r.e
        c = 0
        for o in r.outs:
            evs = list(whole(o.st))
            for x in entries(p, evs):
                c += 1
                ent = e.resolve(o.st, x.a[1])
                _, filt = allowed(e, o.st)
                logger = filt
                while logger is not None and logger.op == "fld" and not ends(p, logger.ty, "LogInterface"): logger = logger.a[0]
                if not rep.ok(logger is not None and ends(p, logger.ty, "LogInterface"), n + ":logger", "the logger behind an entry is unknown", r.site): continue
                made = [y for y in called(evs, "bson::ser::to_bson")]
                time = TimeOf(e)

                def one(pred): return typed(e, o.st, ent, pred)
                ids = [y for y in one(lambda t: p.ts(t) == "usize")]
                mine = typed(e, o.st, logger, lambda t: ends(p, t, "Identifier"))
                rep.ok(len(ids) == 1 and len(mine) == 1 and inside(ids[0], mine[0]), n + ":who", "an entry does not carry the identity of the logger of its context", r.site)
                tk = one(time)
                now = typed(e, o.st, logger, time)
                rep.ok(len(tk) == 1 and len(now) == 1 and alike(tk[0], now[0]), n + ":when", "an entry does not carry the current cycle of its context", r.site)
                nm = one(lambda t: ends(p, t, "String"))
                rep.ok(len(nm) == 1 and below_text(e, nm[0]), n + ":name", "an entry does not carry the declared name of its event type", r.site)
                dat = one(lambda t: ends(p, t, "Bson"))
                rep.ok(len(made) == 1 and len(dat) == 1 and dat[0].op == "fld" and dat[0].a[0] is made[0].a[2], n + ":data", "an entry does not carry its serialised event", r.site)
                if n == "log_event" and made: rep.ok(same_ref(e, o.st, made[0].a[1][0], r.args[0]), n + ":event", "an entry carries another value than the event", r.site)
        for o in r.outs:
            if o.kind != "ret": continue
            evs = list(whole(o.st))
            failed = any(x.a[2] == 0 for x in entries(p, evs)) or gave_up(r, o, evs)
            if failed: rep.ok(variant(o.st, e.resolve(o.st, o.val)) == 1, n + ":errors", "%s does not report that it could not describe or send the event" % n, r.site)
        rep.floor("entries sent by " + n, c, 2)


def same_ref(e, st, a, b):
    return e.deref(st, a) == e.deref(st, b)


def TimeOf(e):
    ty = TIME_TY[0]
    return lambda t: t == ty


def below_text(e, v):
    while v.op == "op" and v.a[0] in ("fmt:to_string", "to_string", "to_owned", "convert", "fmt:from_str", "string", "fmt:format", "copied"): v = v.a[1]
    return is_name(e, v)


def moves(rep, p):
    """Every operation that moves a clock tells the logger of the thread."""
    ops = ops_ok(rep, p)
    if ops is None: return
    tv = TV(p)
    for name in ("advance", "incr_cycles", "cleanup", "drop"):
        site = body_site(p, ops[name])
        n = 0
        for d0 in (0, 1):
            e = engine(rep)
            e.merge = False
            ck = Clock(e, ops)
            c0 = ck.read(ck.st)
            if not rep.ok(c0 is not None, "tick", "reading the clock has no single value", site): return
            st = ck.st.copy()
            e.assume(st, tv.inf(c0), d0)
            arg = {"advance": tv.make("new", 0), "incr_cycles": named("cycles", p.u64_ty)}.get(name)
            outs = e.run_fn(ops[name], [ck.ref] + ([arg] if arg is not None else []), st)
            rep.count("paths", len(outs))
            rep.use(e)
            for o in outs:
                if o.kind != "ret": continue
                c1 = ck.read(o.st)
                if not rep.ok(c1 is not None, name + ":read", "clock unreadable after %s" % name, site): continue
                n += 1
                same = equal(e, o.st, c1, c0)
                on = set(installed(p, o.st).values())
                if on == {0}: continue
                if on != {1}:
                    rep.ok(same, name + ":tells", "%s moves the clock without telling the logger" % name, site)
                    continue
                lg = local_log(e, o.st)
                tk = typed(e, o.st, e.resolve(o.st, e.step(o.st, lg, ("f", 1, 0))), lambda t: t == tv.ty) if lg is not None else []
                if not tk and same: continue
                rep.ok(len(tk) == 1 and equal(e, o.st, tk[0], c1), name + ":tells", "%s leaves the logger with another cycle than the clock" % name, site)
        rep.floor("cases of " + name, n, 3)


def storing(rep, p):
    key = fn(p, "initialize_log")
    if rep.ok(key is not None, "anchor:initialize_log", "initialize_log is gone"):
        r = Log(rep, key)
        for o in r.outs:
            if not rep.ok(o.kind == "ret", "install:panics", "installing a logger can panic", r.site): continue
            lg = local_log(r.e, o.st)
            rep.ok(lg is not None and variant(o.st, r.e.resolve(o.st, lg)) == 1 and equal(r.e, o.st, r.e.step(o.st, r.e.resolve(o.st, lg), ("f", 1, 0)), r.args[0]), "install", "installing a logger does not make it the logger of the thread", r.site)
        rep.floor("paths of initialize_log", len(r.outs), 1)
    key = fn(p, "copy_log")
    if rep.ok(key is not None, "anchor:copy_log", "copy_log is gone"):
        r = Log(rep, key)
        for o in r.outs:
            if not rep.ok(o.kind == "ret", "copy:panics", "copying a logger can panic", r.site): continue
            v = r.e.resolve(o.st, o.val)
            k = variant(o.st, v)
            own = [t for t in installed(p, o.st) if t is not v]
            if k == 0 and v.op == "agg": rep.ok(own and all(o.st.var[t] == 0 for t in own), "copy", "copying the logger of a thread loses it", r.site)
            else: rep.ok(own and equal(r.e, o.st, v, own[0]), "copy", "copying the logger of a thread does not return that logger", r.site)
        rep.floor("paths of copy_log", len(r.outs), 1)


def owners(rep):
    """Every context logs under its own identity and filter."""
    got = run_program(rep, "mongo", LoggerLayer)
    if got is None: return
    e, cl, st0, args, outs, site = got
    p = e.p
    n = {0: 0, 1: 0}
    for rec in all_loops(outs):
        for s in rec.iters:
            for b, inner, end in sections(rec.iter_events(s)):
                runs = [x for x in inner if x.k == "part"]
                if len(runs) != 1: continue
                on = [k for v, k in s.var.items() if v.ty is not None and ends(p, v.ty, "LoggingOptions")]
                if not rep.ok(len(on) == 1, "own:asks", "installing loggers does not depend on the logging options", site): continue
                has = p.nfields(next(v.ty for v in s.var if v.ty is not None and ends(p, v.ty, "LoggingOptions")), on[0]) > 0
                n[int(has)] += 1
                ins = [x for x in inner if x.k == "install"]
                if not has:
                    rep.ok(not ins, "own:off", "a context gets a logger although logging is off", site)
                    continue
                if not rep.ok(len(ins) == 1 and inner.index(ins[0]) < inner.index(runs[0]), "own:none", "a context runs without a logger although logging is on", site): continue
                one_logger(rep, e, s, ins[0], runs[0], inner, site)
    rep.floor("contexts started with logging", n[1], 2)
    rep.floor("contexts started without logging", n[0], 1)


def one_logger(rep, e, s, ins, run, inner, site):
    p = e.p
    lg = e.resolve(s, ins.a[1])
    who = typed(e, s, lg, lambda t: ends(p, t, "Identifier"))
    rep.ok(len(who) == 1 and who[0].op == "op" and who[0].a[0] == "ctx_id" and same_place(e, s, who[0].a[1], run.a[0]), "own:id", "a context logs under another identity than its own", site)
    tk = typed(e, s, lg, TimeOf(e))
    rep.ok(len(tk) == 1 and isc(tk[0]) and tk[0].a[0] == 0, "own:zero", "a context's logger does not start at cycle zero", site)
    fl = typed(e, s, lg, lambda t: ends(p, t, "LogFilter"))
    kinds = [(v, k) for v, k in s.var.items() if v.ty is not None and ends(p, v.ty, "LogFilterKind")]
    if not rep.ok(len(fl) == 1 and len(kinds) == 1, "own:filter", "a context's filter does not come from the logging options", site): return
    v, k = kinds[0]
    pay = e.field_of(v, k, 0)
    if ends(p, pay.ty, "LogFilter"): rep.ok(equal(e, s, fl[0], pay), "own:blanket", "a context does not get the filter given for all", site)
    else:
        uc = [x for x in inner if x.k == "usercall" and (x.a[0] is pay or inside(x.a[0], v)) and inner.index(x) < inner.index(ins)]
        rep.ok(len(uc) == 1 and fl[0] is uc[0].a[2] and who and any(alike(y, who[0]) for y in uc[0].a[1]), "own:child", "a context does not get the filter chosen for it", site)


def heirs(rep, p):
    """Contexts that run their parts on threads of their own."""
    n = 0
    for x in p.roots:
        if x.get("trait") != "context::Context" or x["n"] not in ("run", "run_falliable") or x["key"] not in p.bodies: continue
        if not spawns(p, x["key"]): continue
        site = body_site(p, x["key"])
        e, tl, cl = chan_engine(rep, "main", False)
        OwnLayer(e)
        LoggerLayer(e)
        st = State()
        outs = e.run_fn(x["key"], e.sym_args(x["key"], st), st)
        rep.use(e)
        for o in outs:
            evs = list(whole(o.st))
            copies = [y.a[0] for y in evs if y.k == "copylog"]
            for b, inner, end in sections(evs):
                runs = [y for y in inner if y.k == "part"]
                if not runs: continue
                ins = [y for y in inner if y.k == "install"]
                known = [c for c in copies if variant(o.st, c) is not None]
                if not rep.ok(bool(copies), "heir:copy", "a composite context does not pass its logger on", site): continue
                if any(variant(o.st, c) == 0 for c in copies) and not ins: continue
                n += 1
                if not rep.ok(len(ins) == 1 and len(runs) == 1 and inner.index(ins[0]) < inner.index(runs[0]), "heir:none", "a part of a composite context runs without the logger of the composite", site): continue
                lg = e.resolve(o.st, ins[0].a[1])
                src = [c for c in copies if any(inside(y, c) for y in leaves(lg)) and not any(y.k == "copylog" and y.a[0] is c for y in inner)]
                if not rep.ok(len(src) == 1, "heir:from", "a part of a composite context gets another logger than the one of the composite", site): continue
                base = e.resolve(o.st, e.step(o.st, src[0], ("f", 1, 0)))
                who = typed(e, o.st, lg, lambda t: ends(p, t, "Identifier"))
                rep.ok(len(who) == 1 and who[0].op == "op" and who[0].a[0] == "ctx_id" and near(e, o.st, who[0].a[1], runs[0].a[0]), "heir:id", "a part of a composite context logs under another identity than its own", site)
                for i in range(p.nfields(lg.ty, 0)):
                    a, c = e.step(o.st, lg, ("f", 0, i)), e.step(o.st, base, ("f", 0, i))
                    if ends(p, a.ty, "Identifier"): continue
                    rep.ok(equal(e, o.st, a, c) or a.ty == TIME_TY[0] and isc(a) and a.a[0] == 0, "heir:field%d" % i, "a part of a composite context logs with another queue or filter", site)
    rep.floor("parts of composite contexts that inherit a logger", n, 2)


def near(e, st, a, b):
    """Is one of the two objects the other, or a part of it?"""
    x, y = e.deref(st, a), e.deref(st, b)
    k = min(len(x[1]), len(y[1]))
    return x[0] == y[0] and x[1][:k] == y[1][:k] and k > 0


def leaves(v, d=0):
    if v.op == "agg" and d < 6: return [y for x in v.a[1:] for y in leaves(x, d + 1)]
    return [v]


def spawns(p, key):
    seen, work = {key}, [key]
    while work:
        k = work.pop()
        for bb in p.bodies[k]["bb"]:
            t = bb[1]
            if t[0] == "call" and isinstance(t[1], int) and "spawn" in p.callees[t[1]]["n"] and "thread" in p.callees[t[1]]["p"]: return True
        for c in callees_of(p).get(k, ()):
            if c not in seen: seen.add(c); work.append(c)
    return False


# ---- L03
REGISTRY = "METRICS"


def text_of(p, key):
    """The string a constant or static is initialised with."""
    e = Engine(p, handlers=[std_models.lookup])
    st = State()
    outs = e.run_fn(key, [], st)
    if len(outs) != 1 or outs[0].kind != "ret": return None
    v = e.resolve(outs[0].st, outs[0].val)
    while v.op == "ref": v = e.load(outs[0].st, *e.deref(outs[0].st, v))
    return v.a[0] if v.op == "str" else None


@rule("L03")
def l03(rep):
    rep.rule("Every implementation of LogEvent has a constant name, no two types have the same, and a static placed in the registry's linker section holds exactly that name. LogFilter::check succeeds for AllowAll; otherwise it visits every name of the filter, collects exactly those that the registry does not contain, and fails with them if there are any and succeeds if there are none.")
    for config in ("main", "plain"):
        p = prog(config)
        secs = {x.get("sec") for x in p.roots if x["kind"] == "static" and x["p"].startswith("logging::registry::") and x.get("sec")}
        slots = {}
        for x in p.roots:
            if x["kind"] != "static" or x.get("sec") not in secs or x["key"] not in p.bodies: continue
            if x["p"].startswith("logging::registry::"): continue
            t = text_of(p, x["key"])
            if t is not None: slots.setdefault(t, []).append(x["p"])
        names = {}
        n = 0
        for im in p.impls:
            if im.get("trait") != "logging::LogEvent": continue
            n += 1
            who = im["selfs"]
            mine = [x["key"] for x in p.roots if x["kind"] == "const" and x["n"] == "NAME" and x.get("trait") == "logging::LogEvent" and x.get("self") == im["self"] and x["key"] in p.bodies]
            t = text_of(p, mine[0]) if len(mine) == 1 else None
            if not rep.ok(t is not None, "name:" + who, "the name of the event type %s is not a constant" % who): continue
            site = body_site(p, mine[0])
            rep.ok(t in slots, "registered:" + who, "events of type %s are logged as %r, which is not a registered name" % (who, t), site)
            names.setdefault(t, []).append(who)
            if n <= 4: rep.sample({"type": who, "name": t, "registered by": slots.get(t)})
        for t, ws in names.items(): rep.ok(len(ws) == 1, "shared:" + t, "the event types %s share the name %r" % (", ".join(ws), t))
        rep.floor("event types (%s)" % config, n, 3)
    p = prog("main")
    rejects(rep, p)


def known_name(e, st, key, evs=()):
    """Does the path know whether the registry contains key (any name, if None): True, False or None?"""
    for t, x in st.truth.items():
        if t.op != "op": continue
        if t.a[0] == "contains" and in_registry(t.a[1]) and (key is None or alike(plain(e, st, t.a[2]), key)): return bool(x)
        if x == 1 and same_name(e, st, t, key): return True
    for x in evs:
        if x.k != "loop": continue
        d = Drive(x.a[0], e)
        if d.root is None or not in_registry(d.root[3]) or any(n in PARTIAL or n == "filter" for n in d.root[4]): continue
        if any(y.k == "exhausted" and y.a[0] is d.src for y in evs) and x.a[0].iters and all(any(v == 0 and same_name(e, s, t, key) for t, v in s.truth.items()) for s in x.a[0].iters): return False
    return None


def same_name(e, st, t, key):
    """Is a fact the comparison of a registered name with key?"""
    if t.op != "op" or t.a[0] != "Eq": return False
    a, b = t.a[1], t.a[2]
    if not of_registry(a): a, b = b, a
    return of_registry(a) and not of_registry(b) and (key is None or alike(plain(e, st, b), key))


def of_registry(v):
    while v.op == "fld" and v.a[1] == "*": v = v.a[0]
    return v.op == "elt" and in_registry(v.a[0])


def in_registry(v):
    while v.op in ("fld", "cell"): v = v.a[0]
    return v.op in ("sym", "named") and "registry::" + REGISTRY in show(v) or "registry::" + REGISTRY in show(v)


def plain(e, st, v):
    for _ in range(6):
        v = e.resolve(st, v)
        if v.op == "ref": v = e.load(st, *e.deref(st, v))
        elif v.op == "fld" and v.a[1] == "*": v = v.a[0]
        elif v.op == "op" and v.a[0] in ("convert", "to_string", "fmt:to_string", "to_owned", "copied", "as_str"): v = v.a[1]
        else: break
    return v


def rejects(rep, p):
    key = fn(p, "check", "LogFilter")
    if not rep.ok(key is not None, "anchor:check", "LogFilter::check is gone"): return
    r = Log(rep, key)
    e, site = r.e, r.site
    n = set()
    for o in r.outs:
        if not rep.ok(o.kind == "ret", "check:panics", "checking a filter can panic", site): continue
        k = [(v, x) for v, x in o.st.var.items() if v.ty is not None and ends(p, v.ty, "LogFilter")]
        if not rep.ok(len(k) == 1, "check:asks", "checking a filter does not look at it", site): continue
        v, x = k[0]
        res = e.resolve(o.st, o.val)
        ok = variant(o.st, res)
        if p.nfields(v.ty, x) == 0:
            n.add("all")
            rep.ok(ok == 0, "check:all", "a filter that allows everything is rejected", site)
            continue
        names = e.field_of(v, x, 0)
        if ok == 0:
            n.add("ok")
            cand = {y for t in list(o.st.truth) + [f for f in o.st.ord] for y in lens(t)}
            good = any(prove_le(o.st, e.length(o.st, y), const(0, p.usize_ty)) and unknown_names(e, o, y, names) is None for y in cand)
            rep.ok(good or all_known(e, o, names), "check:accepts", "a filter is accepted without every name in it being known", site)
        else:
            n.add("err")
            if not rep.ok(ok == 1, "check:result", "the result of checking a filter is unknown", site): continue
            bad = [y for y in parts_of(e, o.st, res) if y.op in ("collect", "phi", "cell", "op")]
            why = [unknown_names(e, o, y, names) for y in bad]
            rep.ok(any(w is None for w in why), "check:names", "a rejected filter: %s" % next((w for w in why if w), "it does not report the unknown names"), site)
            rep.ok(any(w is None and prove_le(o.st, const(1, p.usize_ty), e.length(o.st, y)) for w, y in zip(why, bad)), "check:rejects", "a filter is rejected although all its names are known", site)
    rep.floor("cases of checking a filter", len(n), 3)


def lens(t, d=0):
    """Collections whose length a fact speaks of."""
    if isinstance(t, V):
        if t.op == "op" and t.a[0] == "len": return [t.a[1]]
        return [y for x in t.a for y in lens(x, d + 1)] if d < 5 else []
    if isinstance(t, tuple): return [y for x in t for y in lens(x, d + 1)]
    return []


def unknown_names(e, o, v, names):
    """None if v holds exactly the names of the filter that the registry does not contain, else what is wrong."""
    while v.op == "cell": v = v.a[0]
    if v.op == "collect":
        rec = e.loops.get(v.a[0])
        if rec is None: return "it does not report the unknown names"
        kept = [(s, [x]) for s, x in rec.results]
        seen = {id(s) for s, _ in kept}
        dropped = [s for q in [rec] + inner_loops(rec) for s in q.iters if id(s) not in seen and any(y.k == "filtered" for y in q.iter_events(s))]
    elif v.op == "phi" and v.a[0][0] in e.loops:
        rec = e.loops[v.a[0][0]]
        parts = added(e, rec, v)
        if parts is None or e.resolve(rec.init, e.subst_phi(rec.init, v, rec)).op != "empty": return "the unknown names are not collected from nothing"
        kept = [(s, xs) for s, xs in parts if xs]
        dropped = [s for s, xs in parts if not xs]
    else: return "it does not report the unknown names"
    d = Drive(rec, e)
    if d.root is None or not alike(d.root[3], names) or d.early: return "not every name of the filter is looked at"
    for s, xs in kept:
        if len(xs) != 1: return "a name is reported twice"
        x = plain(e, s, xs[0])
        it = [plain(e, s, y.a[1]) for y in walk_events(rec, s) if y.k == "next"]
        if not any(alike(x, i) for i in it): return "something else than a name of the filter is reported"
        if known_name(e, s, x, list(walk_events(rec, s))) is not False: return "a known name is reported as unknown"
    for s in dropped:
        if known_name(e, s, None) is not True: return "an unknown name is not reported"
    if not kept: return "unknown names are never reported"
    return None


def walk_events(rec, s):
    for y in rec.iter_events(s):
        yield y
        if y.k == "loop":
            for z in y.a[0].iters: yield from walk_events(y.a[0], z)


def inner_loops(rec):
    r = []
    for evs in [rec.iter_events(s) for s in rec.iters] + [since(o[1], rec) for o in rec.exits if o[1] is not None]:
        for y in evs:
            if y.k == "loop": r += [y.a[0]] + inner_loops(y.a[0])
    return r


def all_known(e, o, names):
    """Was every name of the filter found in the registry on this path?"""
    for rec in loops_of(o.st):
        d = Drive(rec, e)
        if d.root is None or not alike(d.root[3], names) or any(n in PARTIAL or n == "filter" for n in d.root[4]): continue
        if not any(x.k == "exhausted" for x in since(o.st, rec)): continue
        if rec.iters and all(known_name(e, s, None) is True for s in rec.iters): return True
    return False


# ---------------------------------------------------------------- L04: the log writer
@rule("L04")
def l04(rep):
    rep.rule("On every returning path of a run with logging: one log queue is made; one thread that runs the log processor holding the queue's receiving end is started before any context; every context gets a logger sending to that queue with its own identity and filter; the run drops each sending end it holds before it joins the writer, after all contexts ended, and keeps no receiving end. In the processor, along every stretch of every loop: each received entry and each batch carried so far is, exactly once, kept in the next batch or handed to a task that inserts the whole of it and is done only when the insertion is (an empty batch may be dropped); the receiving loop is left only when a receive found the queue closed, and always then; after it all tasks are run to completion before the connection is closed and the processor returns.")
    owners(rep)
    waits(rep)
    p = prog("mongo")
    n = 0
    for x in p.roots:
        if x.get("trait") != "logging::LogProcessor" or x["n"] != "spawn" or x["key"] not in p.bodies: continue
        if not any(holds_receiver(p, i) for i in range(len(p.types)) if p.types[i]["k"] == "adt" and p.types[i]["p"] == p.adt(x["self"])): continue
        n += 1
        writer(rep, p, x["key"])
    rep.floor("log writers", n, 1)


def holds_receiver(p, ty):
    return any("crossbeam_channel::channel::Receiver" in p.ts(p.field_ty(ty, 0, i)) for i in range(p.nfields(ty, 0) or 0))


def mentions(e, v, pred, d=0):
    """Does a value contain a part satisfying pred?"""
    if not isinstance(v, V): return any(mentions(e, y, pred, d + 1) for y in v) if isinstance(v, tuple) and d < 12 else False
    if pred(v): return True
    return d < 12 and any(mentions(e, y, pred, d + 1) for y in v.a)


def waits(rep):
    """The run starts the writer first, gives up its own end of the queue and then waits for the writer."""
    got = run_program(rep, "mongo", LoggerLayer)
    if got is None: return
    e, cl, st0, args, outs, site = got
    p = e.p
    n = 0
    for o in outs:
        if o.kind != "ret": continue
        on = [k for v, k in o.st.var.items() if v.ty is not None and ends(p, v.ty, "LoggingOptions")]
        if not rep.ok(len(on) == 1, "wait:asks", "the run does not look at the logging options", site): continue
        has = p.nfields(next(v.ty for v in o.st.var if v.ty is not None and ends(p, v.ty, "LoggingOptions")), on[0]) > 0
        evs = o.st.events()
        if not has: continue
        n += 1
        qs = [x for x in evs if x.k == "newqueue"]
        if not rep.ok(len(qs) == 1, "wait:queue", "a run with logging does not have exactly one log queue", site): continue
        q = qs[0].a[0]
        is_tx = lambda v: v.op == "tx" and v.a[0] is q
        is_rx = lambda v: v.op == "rx" and v.a[0] is q
        # the writer's thread
        wr = []
        for b, inner, end in sections(evs):
            calls = [x for x in inner if x.k == "call" and (x.a[3] or {}).get("n") == "spawn" and (x.a[3] or {}).get("trait") == "logging::LogProcessor"]
            own = [x for x in calls if mentions(e, x.a[4], is_rx)]
            if own: wr.append((b, inner, end, own))
        if not rep.ok(len(wr) == 1 and len(wr[0][3]) == 1, "wait:writer", "a run with logging does not start one writer on the receiving end of its log queue", site): continue
        b, inner, end, own = wr[0]
        loops = [i for i, x in enumerate(evs) if x.k == "loop" and any(y.k == "part" for y in walk_record(x.a[0]))]
        rep.ok(len(loops) == 1 and evs.index(b) < loops[0], "wait:first", "contexts are started before the log writer", site)
        rep.ok(b.a[0].startswith("std::thread"), "wait:scoped", "the log writer is not started on a thread of its own", site)
        sp = [x for x in evs[evs.index(end):] if x.k == "spawned"][:1]
        handle = sp[0].a[1] if sp else None
        joins = [i for i, x in enumerate(evs) if x.k == "join" and handle is not None and e.resolve(o.st, x.a[0]) is handle]
        if not rep.ok(len(joins) == 1, "wait:join", "a run with logging returns without waiting for the log writer", site): continue
        scopes = [i for i, x in enumerate(evs) if x.k == "scope_end"]
        rep.ok(scopes and joins[0] > scopes[-1], "wait:after", "the run waits for the log writer while contexts are still to finish", site)
        drops = [i for i, x in enumerate(evs) if x.k == "drop_ext" and mentions(e, x.a[0], is_tx)]
        rep.ok(drops and all(i < joins[0] for i in drops), "wait:close", "the run waits for the log writer while it holds a sending end of the log queue itself", site)
        rep.ok(not mentions(e, e.resolve(o.st, o.val), lambda v: is_tx(v) or is_rx(v)), "wait:keeps", "the result of a run holds an end of the log queue", site)
        start = [i for i, x in enumerate(evs) if x.k == "scope_begin"]
        extra = [i for i, x in enumerate(evs) if x.k == "drop_ext" and mentions(e, x.a[0], is_rx)]
        rep.ok(all(start and i < start[0] for i in extra), "wait:receiver", "the run keeps a receiving end of the log queue: contexts block once a writer that died leaves it full", site)
        for i in loops:
            rec = evs[i].a[0]
            for s in rec.iters:
                for sb, si, se in sections(rec.iter_events(s)):
                    for x in si:
                        if x.k == "install":
                            lg = e.resolve(s, x.a[1])
                            rep.ok(mentions(e, lg, is_tx), "wait:where", "a context logs to another queue than the writer reads", site)
    rep.floor("returning paths of a run with logging", n, 1)


def walk_record(rec):
    for s in rec.iters: yield from walk_events(rec, s)


def writer(rep, p, key):
    site = body_site(p, key)
    e = engine(rep, "mongo")
    e.merge = False
    st = State()
    outs = e.run_fn(key, e.sym_args(key, st), st)
    rep.use(e)
    n = sum(o.kind == "ret" for o in outs)
    rep.floor("returning paths of a log writer", n, 1)
    w = Writer(rep, e, site)
    w.every = {r.serial: r for o in all_loops(outs) for r in [o] + inner_loops(o)}.values()
    for rec in w.every:
        if not w.receives(rec): continue
        for s in rec.iters: w.level(s, list(rec.iter_events(s)), rec)
        w.leaves(rec)
    for o in outs:
        if o.kind != "ret": continue
        w.level(o.st, o.st.events(), None)
        w.finished(o)
    rep.floor("kinds of receive results seen", len(w.seen), 2)
    rep.floor("batches handed to the database", w.stores, 1)


SINKS = ("spawn_local", "spawn_local_obj", "spawn_local_with_handle", "block_on", "run_until")


class Writer:
    def __init__(self, rep, e, site):
        self.rep, self.e, self.p, self.site = rep, e, e.p, site
        self.seen, self.stores, self.bodies = set(), 0, {}

    def receives(self, rec): return any(x.k in ("recv", "try_recv") for x in walk_record(rec)) or any(x.k in ("recv", "try_recv") for o in rec.exits if o[1] is not None for x in since(o[1], rec))

    def batch(self, ty):
        if ty is None or not (self.p.tk(ty) in ("array", "slice") or (self.p.adt(ty) or "").split("::")[-1] in ("Vec", "VecDeque", "LinkedList", "SmallVec", "ArrayVec")): return False
        return self.e.elem_ty(ty) is not None and ends(self.p, self.e.elem_ty(ty), "LogEntry")

    def batches(self, st, skip=()):
        """Vectors of entries in memory with their values."""
        r = []
        for al, v in st.mem.items():
            r += [x for x in typed(self.e, st, v, self.batch)]
        return r

    def phis(self, rec):
        """What a loop carries of entries from one iteration to the next."""
        r = []
        for al, v in (rec.entry.mem.items() if rec.entry is not None else ()):
            for x in typed(self.e, rec.entry, v, self.batch):
                if x.op == "phi" and x.a[0][0] == rec.serial and x not in r: r.append(x)
        return r

    def contents(self, st, v, d=0):
        """The entries in a vector: elements and what loops put there. None if unknown."""
        v = self.e.resolve(st, v)
        if d > 40: return None
        if v.op == "empty" or v.op == "default": return []
        if v.op == "phi": return [v]
        if v.op == "cell": return self.contents(st, v.a[0], d + 1)
        if v.op in ("push", "pushb"):
            r = self.contents(st, v.a[0], d + 1)
            return None if r is None else r + [v.a[1]]
        return None

    def level(self, st, evs, rec):
        """Everything received in one stretch of the program is kept or handed to the database once."""
        e, rep = self.e, self.rep
        have = list(self.phis(rec)) if rec is not None else []
        for x in evs:
            if x.k in ("recv", "try_recv"):
                self.seen.add(x.a[1])
                if x.a[1] == "ok": have.append(x.a[2])
            if x.k == "loop" and self.receives(x.a[0]):
                ph = self.phis(x.a[0])
                have += ph
                # what a loop starts from goes on as what it ends with
                for v in ph:
                    c = self.contents(x.a[0].init, e.subst_phi(x.a[0].init, v, x.a[0]))
                    if rep.ok(c is not None, "store:init", "the writer collects entries on top of something unknown", self.site):
                        for y in c:
                            if y in have: have.remove(y)
                            else: rep.ok(False, "store:twice", "entries end up in two batches", self.site)
        out = []
        if rec is not None:
            for v in self.phis(rec):
                c = self.contents(st, e.subst_phi(st, v, rec))
                if not rep.ok(c is not None, "store:batch", "a batch of entries becomes something unknown", self.site): return
                out += c
        for x in evs:
            if x.k != "call": continue
            got = self.handed(st, x)
            if got is None: continue
            self.stores += 1
            out += got
        for v in have:
            if v.op == "phi" and any(t.op == "op" and t.a[0] == "Eq" and k == 1 and len_of(t.a[1]) is v and isc(t.a[2]) and t.a[2].a[0] == 0 for t, k in st.truth.items()): continue
            n = sum(y is v for y in out)
            rep.ok(n >= 1, "store:lost", "the writer drops entries that it received", self.site)
            rep.ok(n <= 1, "store:twice", "the writer stores an entry twice", self.site)
        for y in out: rep.ok(y in have, "store:foreign", "the writer stores something that it did not receive", self.site)

    def handed(self, st, x):
        """The entries that a call passes to the database, None if it is no such call."""
        n = (x.a[3] or {}).get("n")
        if n == "insert_many":
            for v in x.a[4]:
                c = self.whole(st, v)
                if c is not None: return c
            return None
        if n not in SINKS: return None
        for v in x.a[4]:
            v = self.e.resolve(st, v)
            if v.op != "agg" or v.ty is None or self.p.types[v.ty].get("ck") != "Coroutine": continue
            for i, u in enumerate(v.a[1:]):
                u = self.e.resolve(st, u)
                if not self.batch(u.ty): continue
                c = self.contents(st, u)
                if not self.rep.ok(c is not None, "store:batch", "a batch of entries becomes something unknown", self.site): return None
                if self.task(v.ty, i): return c
        return None

    def whole(self, st, v):
        """The entries of a vector passed whole: itself, a reference, or an iterator over all of it."""
        v = self.e.resolve(st, v)
        if v.op == "iter":
            r = coll_src(v)
            if r is None or any(n in PARTIAL or n in ("filter", "take_while", "map") for n in r[4]): return None
            v = self.e.resolve(st, r[3])
        if not self.batch(v.ty): return None
        return self.contents(st, v) if v.op != "param" else [v]

    def task(self, ty, i):
        """Does the task insert the whole of the i-th captured value, once, before it is done?"""
        if (ty, i) in self.bodies: return self.bodies[(ty, i)]
        p, t = self.p, self.p.types[ty]
        rep = self.rep
        r = False
        if rep.ok(t.get("b") in p.bodies, "task:body", "the code of the task that stores a batch is not available", self.site):
            e = engine(rep, "mongo")
            e.merge = False
            st = State()
            up = [named("captured%d" % j, x) for j, x in enumerate(t["ts"])]
            al = e.new_alloc(st, mk("agg", (0,) + tuple(up), ty))
            b = p.bodies[t["b"]]
            site = body_site(p, t["b"])
            outs = e.run_fn(t["b"], [mk("agg", (0, e.ref(al, ())), b["l"][1]), named("cx", b["l"][2])], st)
            rep.use(e)
            done = [o for o in outs if o.kind == "ret" and variant(o.st, e.resolve(o.st, o.val)) == 0]
            rep.floor("paths on which a storing task is done", len(done), 1)
            r = bool(done)
            for o in done:
                evs = o.st.events()
                ins = [x for x in evs if x.k == "call" and (x.a[3] or {}).get("n") == "insert_many"]
                full = [x for x in ins if any(self.same_batch(e, o.st, v, up[i]) for v in x.a[4])]
                ok = rep.ok(len(ins) == 1 and len(full) == 1, "task:whole", "a task does not store the whole batch that it was given exactly once", site)
                if ok: ok = rep.ok(self.awaited(e, o.st, evs, full[0]), "task:await", "a task is done before the database has taken its batch", site)
                r = r and ok
        self.bodies[(ty, i)] = r
        return r

    def same_batch(self, e, st, v, up):
        v = e.resolve(st, v)
        if v.op == "iter":
            r = coll_src(v)
            if r is None or any(n in PARTIAL or n in ("filter", "take_while") for n in r[4]): return False
            v = e.resolve(st, r[3])
        return v is up

    def awaited(self, e, st, evs, ins):
        """A future made from the insertion is polled and found ready."""
        t = [ins.a[2]]
        for x in evs[evs.index(ins) + 1:]:
            if x.k != "call" or not any(mentions(e, a, lambda v: any(v is y for y in t)) for a in x.a[4]): continue
            n = (x.a[3] or {}).get("n")
            if n == "block_on": return True
            if n == "poll" and st.var.get(x.a[2]) == 0: return True
            t.append(x.a[2])
        return False

    def leaves(self, rec):
        """The writer stops when the queue is closed, and only then."""
        e, rep = self.e, self.rep
        closes = lambda evs: any(x.k in ("recv", "try_recv") and x.a[1] == "disconnected" for x in evs)
        outer = not any(r is not rec and any(y is rec for y in inner_loops(r)) for r in self.every)
        flags = {}
        for o in rec.exits:
            if o[0] == "panic" or o[1] is None: continue
            if closes(since(o[1], rec)): continue
            fl = [(v, k) for m in (o[1].truth, o[1].var) for v, k in m.items() if v.op == "phi" and v.a[0][0] == rec.serial]
            good = [(v, k) for v, k in fl if self.means_closed(rec, v, k, closes)]
            if outer: rep.ok(bool(good), "stop:early", "the writer stops before the queue is closed", self.site)
            for v, k in good: flags[v] = k
        for s in rec.iters:
            if not closes(rec.iter_events(s)): continue
            vals = [self.final(s, v, rec) == k for v, k in flags.items()]
            rep.ok(any(vals), "stop:never", "the writer goes on after the queue is closed: the run never returns", self.site)

    def final(self, s, v, rec):
        x = self.e.resolve(s, self.e.subst_phi(s, v, rec))
        if isc(x): return x.a[0]
        if x.op == "agg": return x.a[0]
        for m in (s.truth, s.var):
            if x in m: return m[x]
        return None

    def means_closed(self, rec, v, k, closes):
        if self.final(rec.init, v, rec) in (None, k): return False
        for s in rec.iters:
            f = self.final(s, v, rec)
            if f == k or f is None:
                x = self.e.resolve(s, self.e.subst_phi(s, v, rec))
                if x is v: continue
                if not closes(rec.iter_events(s)): return False
        return True

    def finished(self, o):
        """Tasks are completed before the writer returns or closes its connection."""
        e, rep = self.e, self.rep
        evs = o.st.events()
        spawned = [i for i, x in enumerate(evs) if x.k == "call" and (x.a[3] or {}).get("n", "").startswith("spawn_local") or x.k == "loop" and any(y.k == "call" and (y.a[3] or {}).get("n", "").startswith("spawn_local") for y in walk_record(x.a[0]))]
        if not spawned: return
        runs = [i for i, x in enumerate(evs) if x.k == "call" and (x.a[3] or {}).get("p", "").endswith("LocalPool::run")]
        if not rep.ok(any(i > spawned[-1] for i in runs), "finish:run", "the writer returns before the tasks it started are complete", self.site): return
        shut = [i for i, x in enumerate(evs) if x.k == "call" and (x.a[3] or {}).get("n") == "shutdown"]
        rep.ok(all(i > runs[-1] for i in shut), "finish:shutdown", "the writer closes the connection before the tasks it started are complete", self.site)
        pools = [x for x in list(evs) if x.k == "call" and (x.a[3] or {}).get("p", "").endswith("LocalPool::spawner")]
        rep.ok(len(pools) == 1 and same_place(e, o.st, pools[0].a[1][0], evs[runs[-1]].a[1][0]), "finish:pool", "the writer completes the tasks of another pool than it started them on", self.site)

