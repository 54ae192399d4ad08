"""Abstraction layers: simulated time as an ordered scalar, clocks as state, channels as primitives.

Each layer replaces functions of the crate by their contract; the rules that decide the contract itself run without
that layer (time: T01/T02, clocks: K01-K04, channels: C01-C07).
"""
from engine import V, mk, const, sym, named, isc, show, uid, Out, UNDEF, TIME_TY, prove_le
from std_models import place, cont, opt, ok, err, unit, panic, CMPOP


class TimeLayer:
    """Times are scalars of an extended-natural order."""
    def __init__(self, eng):
        p = eng.p
        self.ty = p.find_adt("datastructures::time::Time")
        if self.ty is None: self.ty = p.find_adt("time::Time")
        TIME_TY[0] = self.ty
        eng.type_opaque[p.types[self.ty]["p"]] = "time"
        eng.h.insert(0, self.lookup)
        self.inf = mk("op", ("tinf",), self.ty)
        self.eng = eng

    def lookup(self, eng, c):
        a = c["a"]
        # methods of the time type: resolved self type
        sty = c.get("r_self")
        if sty is None: sty = c.get("impl_self")
        if sty is None and c.get("trait") and a: sty = a[0]
        if c.get("trait") == "core::convert::From" and a and a[0] == self.ty: return self.m_from
        if c.get("trait") == "core::convert::Into" and len(a) > 1 and a[1] == self.ty and a[0] != self.ty: return self.m_into
        if c.get("trait") in ("core::cmp::PartialEq", "core::cmp::PartialOrd", "core::cmp::Ord"):
            if a and eng.p.peel(a[0]) == self.ty: return self.m_cmp
            return None
        if c["p"] in ("core::cmp::max", "core::cmp::min") and a and a[0] == self.ty: return self.m_cmp
        if sty != self.ty and sty != eng.p.types[self.ty]["p"]: return None
        n = c["n"]
        if c.get("trait") is None and c.get("local"):
            return getattr(self, "f_" + n, None)
        t = c.get("trait") or ""
        if t.startswith("core::ops::arith::"): return self.m_arith
        if t == "core::default::Default": return lambda e, st, call: (st, const(0, self.ty))
        if t == "core::clone::Clone": return lambda e, st, call: (st, cont(e, st, call.args[0]))
        return None

    def wrap(self, v):
        if isc(v): return const(v.a[0], self.ty)
        return mk("op", ("time", v), self.ty)

    def f_new(self, eng, st, call): return st, self.wrap(call.args[0])
    def f_infinite(self, eng, st, call): return st, self.inf
    def f_time(self, eng, st, call):
        v = cont(eng, st, call.args[0])
        if isc(v): return st, const(v.a[0], call.dty)
        if v.op == "op" and v.a[0] == "time": return st, v.a[1]
        return st, mk("op", ("ticks", v), call.dty)

    def f_is_infinite(self, eng, st, call):
        v = cont(eng, st, call.args[0])
        if v is self.inf: return st, const(1, eng.p.bool_ty)
        if isc(v) or (v.op == "op" and v.a[0] == "time"): return st, const(0, eng.p.bool_ty)
        return st, eng.binop(st, "Eq", v, self.inf, eng.p.bool_ty)

    def f_set_infinite(self, eng, st, call):
        al, path = eng.deref(st, call.args[0])
        eng.write(st, al, path, self.inf)
        return st, unit(eng)

    def f_cmp(self, eng, st, call): return self.m_cmp(eng, st, call)

    def m_from(self, eng, st, call):
        v = call.args[0]
        if v.ty == self.ty: return st, v
        if v.ty is not None and eng.p.tk(v.ty) == "uint" or isc(v): return st, self.wrap(v)
        v = eng.resolve(st, v)
        if v.op == "agg" and isc(v.a[1]): return st, self.inf if v.a[1].a[0] else self.wrap(v.a[2])
        return st, mk("op", ("time_from", v), self.ty)

    def m_into(self, eng, st, call): return self.m_from(eng, st, call)

    def m_cmp(self, eng, st, call):
        n = call.name
        B = eng.p.bool_ty
        if n in ("max", "min"): return st, eng.mxn(st, n, call.args[0], call.args[1])
        a, b = place(eng, st, call.args[0])[2], place(eng, st, call.args[1])[2]
        if n in CMPOP: return st, eng.binop(st, CMPOP[n], a, b, B)
        oty = call.dty if n == "cmp" else eng.p.field_ty(call.dty, 1, 0)
        v = mk("op", ("Cmp", a, b), oty)
        return st, v if n == "cmp" else opt(eng, call.dty, v)

    def m_arith(self, eng, st, call):
        n = call.name
        op = {"add": "Add", "sub": "Sub"}[n.split("_")[0]]
        asg = n.endswith("_assign")
        a, b = call.args
        if asg:
            al, path = eng.deref(st, a)
            a = eng.load(st, al, path)
        outs = []
        if op == "Sub":
            for s, t in eng.truth_split(st, mk("op", ("Le", b, a), eng.p.bool_ty)):
                if t:
                    v = eng.binop(s, "Sub", a, b, self.ty)
                    if isc(b) and not isc(v): eng.le(s, a, v, b.a[0])
                    outs.append((s, v))
                else: outs.append(panic(s, "time subtraction"))
        else: outs.append((st, self.add(eng, st, a, b)))
        res = []
        for o in outs:
            if isinstance(o, Out): res.append(o); continue
            s, v = o
            if asg:
                eng.write(s, al, path, v)
                res.append(Out(s, "ret", unit(eng)))
            else: res.append(Out(s, "ret", v))
        return res

    def add(self, eng, st, a, b):
        if a is self.inf or b is self.inf: return self.inf
        if isc(a) and isc(b): return const(a.a[0] + b.a[0], self.ty)
        v = eng.binop(st, "Add", a, b, self.ty)
        return v if v.ty == self.ty else mk("op", v.a, self.ty) if v.op == "op" else v


LOGFNS = ("log_event", "log_event_cb", "update_ticks", "copy_log", "initialize_log")


class LogLayer:
    """Logging has no effect on the simulation (its own properties are L01-L04)."""
    def __init__(self, eng, quiet=False):
        self.quiet = quiet
        eng.h.insert(0, self.lookup)

    def lookup(self, eng, c):
        if c["p"].startswith("logging::log_functions::") and c["n"] in LOGFNS: return self.logfn
        return None

    def logfn(self, eng, st, call):
        if not self.quiet: eng.emit(st, "log", call.name)
        if eng.p.adt(call.dty) == "core::result::Result": return st, ok(eng, call.dty, unit(eng))
        return st, unit(eng) if eng.p.tk(call.dty) == "tuple" else sym("log", call.dty)


class LoggerLayer(LogLayer):
    """Installing and inheriting a logger are events, and so is running a part of a composite context."""
    def lookup(self, eng, c):
        if c.get("trait") == "context::Context" and c["n"] in ("run", "run_falliable"): return self.part
        if c.get("trait") == "context::Context" and c["n"] in ("cleanup", "init"): return lambda e, st, call: (st, unit(e))
        return super().lookup(eng, c)

    def part(self, eng, st, call):
        eng.emit(st, "part", call.args[0])
        return st, unit(eng) if eng.p.tk(call.dty) == "tuple" else sym("part", call.dty)

    def logfn(self, eng, st, call):
        if call.name == "initialize_log":
            eng.emit(st, "install", call.args[0], eng.seen_by(st, call.args[0]))
            return st, unit(eng)
        if call.name == "copy_log":
            r = sym("log", call.dty)
            eng.emit(st, "copylog", r)
            return st, r
        return super().logfn(eng, st, call)


class ClockLayer:
    """A context's clock is a scalar in a pseudo cell; views give lower bounds; logging has no effect."""
    MONO = True

    def __init__(self, eng, tl, views=True, log=True, quiet=False):
        self.eng, self.tl, self.views = eng, tl, views
        if log: LogLayer(eng, quiet)
        self.view_ty = eng.p.find_adt("view::TimeView")
        if views and self.view_ty is not None: eng.type_opaque[eng.p.types[self.view_ty]["p"]] = "view"
        eng.h.insert(0, self.lookup)
        eng.pseudo_init["clk"] = lambda al: self.init(al)
        eng.on_usercall.append(self.lent)
        self.mgr_ty = eng.p.find_adt("view::basic::TimeManager")

    def lookup(self, eng, c):
        p = c["p"]
        if c.get("trait") is None and p.split("::")[-2:-1] == ["TimeManager"]:
            return {"tick": self.tick, "advance": self.advance, "incr_cycles": self.incr, "view": self.view, "new": self.new}.get(c["n"])
        if c.get("trait") == "core::default::Default" and c["a"] and c["a"][0] == self.mgr_ty and self.mgr_ty is not None: return self.new
        if self.views and c.get("trait") == "core::clone::Clone" and c["n"] == "clone" and c["a"] and c["a"][0] == self.view_ty and self.view_ty is not None:
            return lambda e, st, call: (st, place(e, st, call.args[0])[2])
        if self.views and (c.get("trait") or "").endswith("view::ContextView"):
            return {"wait_until": self.wait, "tick_lower_bound": self.tlb}.get(c["n"])
        return None

    def key(self, st, r):
        al, path, v = place(self.eng, st, r)
        return ("clk", al, path)

    def init(self, key):
        return mk("clk0", (key,), self.tl.ty)

    def clock(self, st, key):
        v = st.mem.get(key)
        if v is None:
            v = self.init(key)
            st.mem[key] = v
        return v

    def tick(self, eng, st, call):
        k = self.key(st, call.args[0])
        v = self.clock(st, k)
        eng.emit(st, "tick", k, v)
        return st, v

    def advance(self, eng, st, call):
        k = self.key(st, call.args[0])
        old = self.clock(st, k)
        new = eng.mxn(st, "max", old, call.args[1])
        st.mem[k] = new
        eng.emit(st, "advance", k, call.args[1], old, new)
        return st, unit(eng)

    def incr(self, eng, st, call):
        k = self.key(st, call.args[0])
        old = self.clock(st, k)
        new = self.tl.add(eng, st, old, call.args[1])
        st.mem[k] = new
        eng.emit(st, "incr", k, call.args[1], old, new)
        return st, unit(eng)

    def lent(self, eng, st, args):
        """An unknown function that is given the clock may move it forward."""
        for a in args:
            if a.op != "ref" or self.mgr_ty is None: continue
            al, path, v = place(eng, st, a)
            if v.ty != self.mgr_ty: continue
            k = ("clk", al, path)
            old, new = self.bump(eng, st, k, "usercall")
            eng.emit(st, "lent", k, new, old)

    def bump(self, eng, st, k, what):
        """The clock moves forward by an unknown amount."""
        old = self.clock(st, k)
        new = sym("clk", self.tl.ty)
        eng.le(st, old, new)
        st.mem[k] = new
        return old, new

    def view(self, eng, st, call):
        k = self.key(st, call.args[0])
        eng.emit(st, "viewof", k, place(eng, st, call.args[0])[2])
        return st, mk("viewof", (k,), call.dty)

    def new(self, eng, st, call):
        return st, mk("mgr", (uid(),), call.dty)

    def wait(self, eng, st, call):
        r = sym("reached", self.tl.ty)
        when = call.args[1]
        eng.le(st, when, r)
        eng.emit(st, "view_wait", place(eng, st, call.args[0])[2], when, r)
        return st, r

    def tlb(self, eng, st, call):
        r = sym("tlb", self.tl.ty)
        eng.emit(st, "view_tlb", place(eng, st, call.args[0])[2], r)
        return st, r


class ChannelLayer:
    """Channel endpoint operations as primitives with the contracts C01-C07."""
    def __init__(self, eng, cl):
        self.cl = cl
        eng.h.insert(0, self.lookup)

    def lookup(self, eng, c):
        if c.get("trait") is not None: return None
        parts = [x for x in c["p"].split("::") if not x.startswith("<")]
        if len(parts) < 2: return None
        t = parts[-2]
        if c["p"].startswith("channel::Receiver::") or t == "Receiver" and c["p"].startswith("channel::"):
            return {"dequeue": self.take, "peek_next": self.take, "peek": self.peek, "attach_receiver": self.attach, "id": self.id}.get(c["n"])
        if c["p"].startswith("channel::Sender::") or t == "Sender" and c["p"].startswith("channel::"):
            return {"enqueue": self.enqueue, "wait_until_available": self.wait, "attach_sender": self.attach, "id": self.id}.get(c["n"])
        return None

    def chan(self, eng, st, r):
        al, path, v = place(eng, st, r)
        return eng.ref(al, path), v

    def take(self, eng, st, call):
        ch, v = self.chan(eng, st, call.args[0])
        k = self.cl.key(st, call.args[1])
        n = call.name
        ety = eng.p.field_ty(call.dty, 0, 0)
        s2 = st.copy()
        x = sym("element", ety)
        ti = eng.p.field_index(ety, "time")
        old, new = self.cl.bump(eng, st, k, n)
        t = eng.field_of(x, 0, ti)
        eng.le(st, t, new)
        eng.emit(st, n, ch, k, 1, x, v, new, old)
        old2, new2 = self.cl.bump(eng, s2, k, n)
        eng.emit(s2, n, ch, k, 0, None, v, new2, old2)
        ev = mk("agg", (0,), eng.p.field_ty(call.dty, 1, 0))
        return [(st, ok(eng, call.dty, x)), (s2, err(eng, call.dty, ev))]

    def peek(self, eng, st, call):
        ch, v = self.chan(eng, st, call.args[0])
        r = sym("peeked", call.dty)
        eng.emit(st, "peek", ch, None, 1, r, v)
        return st, r

    def enqueue(self, eng, st, call):
        ch, v = self.chan(eng, st, call.args[0])
        k = self.cl.key(st, call.args[1])
        before = self.cl.clock(st, k)
        s2 = st.copy()
        after = self.cl.bump(eng, st, k, "enqueue")[1]; after2 = self.cl.bump(eng, s2, k, "enqueue")[1]
        eng.emit(st, "enqueue", ch, k, 1, call.args[2], v, before, after)
        eng.emit(s2, "enqueue", ch, k, 0, call.args[2], v, before, after2)
        return [(st, ok(eng, call.dty, unit(eng))), (s2, err(eng, call.dty, mk("agg", (0,), eng.p.field_ty(call.dty, 1, 0))))]

    def wait(self, eng, st, call):
        ch, v = self.chan(eng, st, call.args[0])
        k = self.cl.key(st, call.args[1])
        s2 = st.copy()
        self.cl.bump(eng, st, k, "wait"); self.cl.bump(eng, s2, k, "wait")
        eng.emit(st, "wait_until_available", ch, k, 1, None, v)
        eng.emit(s2, "wait_until_available", ch, k, 0, None, v)
        return [(st, ok(eng, call.dty, unit(eng))), (s2, err(eng, call.dty, mk("agg", (0,), eng.p.field_ty(call.dty, 1, 0))))]

    def attach(self, eng, st, call):
        ch, v = self.chan(eng, st, call.args[0])
        who = call.args[1]
        if who.op == "ref": who = eng.load(st, *eng.deref(st, who))
        eng.emit(st, "attach", call.name, ch, v, call.args[1], eng.resolve(st, who))
        return st, unit(eng)

    def id(self, eng, st, call):
        ch, v = self.chan(eng, st, call.args[0])
        return st, mk("op", ("chan_id", v), call.dty)


class EventLayer:
    """What a channel reports as its next event is one opaque value (C14); events are ordered by when they can happen."""
    def __init__(self, eng, tl):
        self.eng, self.tl = eng, tl
        self.ty = eng.p.find_adt("channel::utils::EventTime")
        vs = eng.p.variants(self.ty) if self.ty is not None else []
        self.v = {x[0]: i for i, x in enumerate(vs)}
        eng.h.insert(0, self.lookup)
        if not hasattr(eng, "minmax_hook"): eng.minmax_hook = {}
        eng.minmax_hook[self.ty] = self.pick

    def lookup(self, eng, c):
        t, a, n = c.get("trait"), c["a"], c["n"]
        if t == "channel::utils::Peekable" and n == "next_event" and a and eng.p.peel(a[0]) is not None and (eng.p.adt(eng.p.peel(a[0])) or "").endswith("channel::Receiver"): return self.ask
        if self.ty is None or not a: return None
        if t in ("core::cmp::PartialOrd", "core::cmp::Ord") and eng.p.peel(a[0]) == self.ty: return self.m_cmp
        if c["p"] in ("core::cmp::max", "core::cmp::min") and a[0] == self.ty: return self.m_cmp
        return None

    def ask(self, eng, st, call):
        al, path, v = place(eng, st, call.args[0])
        r = mk("op", ("event", v, uid()), self.ty)
        eng.emit(st, "next_event", eng.ref(al, path), r, v)
        return st, r

    def key(self, eng, st, v):
        v = eng.resolve(st, v)
        if v.op == "agg":
            if v.a[0] == self.v["Closed"]: return self.tl.inf
            t = eng.resolve(st, v.a[1])
            return t if v.a[0] == self.v["Ready"] else self.tl.add(eng, st, t, const(1, self.tl.ty))
        if v.op == "op" and v.a[0] in ("emax", "emin"): return eng.mxn(st, v.a[0][1:], self.key(eng, st, v.a[1]), self.key(eng, st, v.a[2]))
        return mk("op", ("ekey", v), self.tl.ty)

    def pick(self, eng, st, n, a, b):
        if a is b: return a
        return mk("op", ("e" + n, a, b), self.ty)

    def m_cmp(self, eng, st, call):
        n = call.name
        B = eng.p.bool_ty
        if n in ("max", "min"): return st, self.pick(eng, st, n, *call.args)
        if n == "clamp": return None
        a, b = [self.key(eng, st, place(eng, st, x)[2]) for x in call.args]
        if n in CMPOP: return st, eng.binop(st, CMPOP[n], a, b, B)
        oty = call.dty if n == "cmp" else eng.p.field_ty(call.dty, 1, 0)
        v = mk("op", ("Cmp", a, b), oty)
        return st, v if n == "cmp" else opt(eng, call.dty, v)

    def learn(self, st):
        """States what a path's known event kinds mean for their order."""
        eng = self.eng
        for v, k in list(st.var.items()):
            if v.ty != self.ty or v.op == "agg": continue
            key = self.key(eng, st, v)
            if k == self.v["Closed"]: r = self.tl.inf
            else:
                t = eng.resolve(st, eng.field_of(v, k, 0))
                r = t if k == self.v["Ready"] else self.tl.add(eng, st, t, const(1, self.tl.ty))
            eng.le(st, key, r); eng.le(st, r, key)


class StoreLayer:
    """The datastore as a recorded history (M01, M02)."""
    def __init__(self, eng):
        eng.h.insert(0, self.lookup)

    def lookup(self, eng, c):
        if c.get("trait") is not None or not c["p"].startswith("templates::datastore::Datastore::"): return None
        return {"read": self.read, "write": self.write}.get(c["n"])

    def read(self, eng, st, call):
        al, path, v = place(eng, st, call.args[0])
        r = sym("stored", call.dty)
        eng.emit(st, "store_read", eng.ref(al, path), call.args[1], call.args[2], r, v)
        return st, r

    def write(self, eng, st, call):
        al, path, v = place(eng, st, call.args[0])
        eng.emit(st, "store_write", eng.ref(al, path), call.args[1], call.args[2], call.args[3], v)
        return st, unit(eng)


class StageLayer:
    """One pipeline stage as a function of its input and output registers (M06 decides it separately)."""
    def __init__(self, eng):
        eng.h.insert(0, self.lookup)

    def lookup(self, eng, c):
        if c.get("trait") is None and c["p"].startswith("templates::pcu::PipelineStage::") and c["n"] == "run": return self.run
        return None

    def run(self, eng, st, call):
        r = sym("stage", call.dty)
        eng.emit(st, "stage_run", *[eng.seen_by(st, x) for x in call.args], r)
        return st, r


class ContextLayer:
    """A context from outside: its identity and name are functions of it; what it is told to do stays a recorded call."""
    def __init__(self, eng):
        eng.h.insert(0, self.lookup)

    def lookup(self, eng, c):
        if c.get("trait") == "datastructures::identifier::Identifiable" and c["k"] in ("unresolved", "virtual") and c["n"] in ("id", "name", "verbose"): return self.ident
        return None

    def who(self, eng, st, v):
        """The context behind a reference, whatever it is reached through."""
        al, path = eng.deref(st, v)
        return eng.ref(al, path)

    def ident(self, eng, st, call):
        who = self.who(eng, st, call.args[0])
        if call.name != "verbose": return st, mk("op", ("ctx_" + call.name, who), call.dty)
        f = [mk("op", ("ctx_" + n, who), eng.p.field_ty(call.dty, 0, i)) for i, n in enumerate(("id", "name"))]
        return st, mk("agg", (0,) + tuple(f), call.dty)


class OwnLayer(ContextLayer):
    """Identity, name and view of a context or of a part of it, as functions of the object asked."""
    def lookup(self, eng, c):
        if c.get("trait") == "datastructures::identifier::Identifiable" and c["n"] in ("id", "name"): return self.ident
        if c.get("trait") == "datastructures::identifier::Identifiable" and c["n"] == "verbose": return self.ident
        if c.get("trait") == "view::TimeViewable" and c["n"] == "view": return self.view
        if c["p"].startswith("context::proxy::ProxyContext::") and c["n"] == "summarize": return self.summary
        if c["p"] == "context::summary::ContextSummary::max_time": return self.latest
        return None

    def view(self, eng, st, call): return st, mk("op", ("ctx_view", self.who(eng, st, call.args[0])), call.dty)
    def summary(self, eng, st, call): return st, mk("op", ("ctx_summary", self.who(eng, st, call.args[0])), call.dty)
    def latest(self, eng, st, call): return st, mk("op", ("max_time", self.who(eng, st, call.args[0])), call.dty)


class PartLayer(ContextLayer):
    """Running and summing up a context are events."""
    def lookup(self, eng, c):
        if c.get("trait") != "context::Context": return None
        if c["n"] in ("run", "run_falliable"): return self.part
        if c["n"] == "summarize": return self.summed
        return None

    def part(self, eng, st, call):
        eng.emit(st, "part", call.args[0])
        return st, unit(eng) if eng.p.tk(call.dty) == "tuple" else sym("part", call.dty)

    def summed(self, eng, st, call):
        eng.emit(st, "summed", call.args[0])
        return st, mk("op", ("ctx_summary", self.who(eng, st, call.args[0])), call.dty)


class SelfLayer:
    """A generic method run for one implementing type: calls on the type parameter go to that type's own methods."""
    def __init__(self, eng, ty, param="T"):
        self.e, self.ty, self.param = eng, ty, param
        eng.h.insert(0, self.lookup)

    def lookup(self, eng, c):
        p = eng.p
        if c.get("trait") is None or c["k"] not in ("unresolved", "virtual") or not c.get("a"): return None
        if p.ts(c["a"][0]) not in (self.param, "Self"): return None
        adt = p.adt(self.ty)
        own = [x["key"] for x in p.roots if x.get("trait") == c["trait"] and x["n"] == c["n"] and x.get("self") is not None and p.adt(x["self"]) == adt and x["key"] in p.bodies]
        if not own: own = [x["key"] for x in p.roots if x["p"] == c["trait"] + "::" + c["n"] and x["key"] in p.bodies and x["kind"] == "provided"]
        if not own: own = [x["key"] for x in p.roots if x["p"] == c["trait"] + "::" + c["n"] and x["key"] in p.bodies]
        if not own: return None

        def go(eng, st, call):
            if any(f == own[0] for f, _ in st.stack):
                return st, eng.recur(st, c["p"], call.args, call.dty)
            return eng.run_body(st, own[0], call.args, call.line)
        return go


class EdgeLayer(ContextLayer):
    """Channels and contexts of a program from outside: what they answer is a function of the object asked."""
    def lookup(self, eng, c):
        r = ContextLayer.lookup(self, eng, c)
        if r: return r
        if c.get("trait") == "channel::handle::ChannelHandle" and c["k"] in ("unresolved", "virtual"):
            if c["n"] in ("id", "sender", "receiver", "spec"): return self.edge
        if c["n"] == "tick_lower_bound" and c["p"].startswith(("view::", "<view::")): return self.tlb
        return None

    def edge(self, eng, st, call):
        who = self.who(eng, st, call.args[0])
        if call.name == "spec":
            k = ("spec", who)
            if eng.p.tk(call.dty) == "ref":
                st.mem.setdefault(k, mk("op", ("edge_spec", who), eng.p.pointee(call.dty)) if hasattr(eng.p, "pointee") else mk("op", ("edge_spec", who), eng.pointee(call.dty)))
                return st, eng.ref(k, (), call.dty)
        return st, mk("op", ("edge_" + call.name, who), call.dty)

    def tlb(self, eng, st, call): return st, mk("op", ("view_tlb", self.who(eng, st, call.args[0])), call.dty)


class ProgramLayer(EdgeLayer):
    """The graph library and the contexts' own parts of initialisation, as events."""
    GRAPH = "petgraph::graph_impl::Graph::"

    def lookup(self, eng, c):
        r = EdgeLayer.lookup(self, eng, c)
        if r: return r
        if c.get("trait") == "channel::handle::ChannelHandle" and c["k"] in ("unresolved", "virtual") and c["n"] == "set_flavor": return self.flavor
        if c.get("trait") == "context::Context" and c["k"] in ("unresolved", "virtual"):
            if c["n"] in ("ids", "edge_connections"): return self.of_context
            if c["n"] == "init": return self.init
        if c["p"].startswith("petgraph::") and c["n"] in ("tarjan_scc", "kosaraju_scc"): return self.scc
        if c["p"].startswith("petgraph::"):
            f = getattr(self, "g_" + c["n"], None)
            if f: return f
        return None

    def flavor(self, eng, st, call):
        eng.emit(st, "flavor", self.who(eng, st, call.args[0]), eng.resolve(st, call.args[1]))
        return st, unit(eng)

    def of_context(self, eng, st, call):
        return st, mk("op", ("ctx_" + call.name, self.who(eng, st, call.args[0])), call.dty)

    def init(self, eng, st, call):
        eng.emit(st, "init", self.who(eng, st, call.args[0]))
        return st, unit(eng)

    def scc(self, eng, st, call):
        r = sym("scc", call.dty)
        al, path, v = place(eng, st, call.args[0])
        eng.emit(st, "scc", (al, path), r, v)
        return st, r

    def g_new(self, eng, st, call): return st, mk("graph", (uid(),), call.dty)

    def g_add_node(self, eng, st, call):
        r = sym("vertex", call.dty)
        eng.emit(st, "add_node", place(eng, st, call.args[0])[:2], call.args[1], r)
        return st, r

    def g_add_edge(self, eng, st, call):
        eng.emit(st, "add_edge", place(eng, st, call.args[0])[:2], call.args[1], call.args[2])
        return st, sym("arc", call.dty)
