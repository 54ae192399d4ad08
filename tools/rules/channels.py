"""C01-C14: channels."""
from rules import rule
from rules.base import *
from layers import TimeLayer, ClockLayer, ChannelLayer

SND = "channel::Sender::<T>::"
RCV = "channel::Receiver::<T>::"


def find_typed(e, st, v, ty, path=()):
    """Places of the values of a type inside a value."""
    if v is None or not isinstance(v, V): return
    if v.ty == ty: yield path, v; return
    if v.op == "agg" and v.ty is not None and e.p.tk(v.ty) in ("adt", "tuple", "closure"):
        for i, x in enumerate(v.a[1:]): yield from find_typed(e, st, x, ty, path + (("f", v.a[0], i, x.ty if isinstance(x, V) else None),))
    elif v.op == "cell": yield from find_typed(e, st, v.a[0], ty, path + (("in", e.inner_ty(v.ty)),))


def some(ty, v): return mk("agg", (1, v), ty)


class Chan:
    """Where things are in a channel: layouts of its specification and of both endpoints, found by running the constructors."""
    def __init__(self, rep, config="main"):
        self.rep, self.config = rep, config
        p = self.p = prog(config)
        self.good = True
        self.T = {}
        for n, path in (("spec", "channel_spec::ChannelSpec"), ("inline", "channel_spec::InlineSpec"), ("data", "handle::ChannelData"), ("flavor", "flavors::ChannelFlavor"),
                        ("snd", "sender::SenderImpl"), ("rcv", "receiver::ReceiverImpl"), ("elem", "channel::ChannelElement"), ("peek", "channel::PeekResult"), ("time", "time::Time"), ("view", "view::TimeView")):
            self.T[n] = p.find_adt(path)
            self.need(self.T[n] is not None, "type:" + n, "the channel type %s was not found" % path)
        self.fn = {}
        for n, path in (("spec_new", "channel::channel_spec::ChannelSpec::new"), ("inline", "channel::channel_spec::ChannelSpec::make_inline"),
                        ("att_s", "channel::channel_spec::ChannelSpec::attach_sender"), ("att_r", "channel::channel_spec::ChannelSpec::attach_receiver"),
                        ("new", "channel::handle::ChannelData::<T>::new"), ("flavor", "<channel::handle::ChannelData<T> as channel::handle::ChannelHandle>::set_flavor"),
                        ("enqueue", SND + "enqueue"), ("wait", SND + "wait_until_available"), ("dequeue", RCV + "dequeue"), ("peek", RCV + "peek"), ("peek_next", RCV + "peek_next"),
                        ("attach_sender", SND + "attach_sender"), ("attach_receiver", RCV + "attach_receiver"),
                        ("drop_s", "<channel::Sender<T> as core::ops::drop::Drop>::drop"), ("drop_r", "<channel::Receiver<T> as core::ops::drop::Drop>::drop")):
            self.fn[n] = root(p, path)
            self.need(self.fn[n] is not None, "anchor:" + n, "the channel operation %s was not found" % path)
        if self.good: self.layout()

    def need(self, c, key, msg, site=None):
        if not self.rep.ok(c, key, msg, site): self.good = False
        return c

    def eng(self, channel=False):
        e = engine(self.rep, self.config)
        self.tl = TimeLayer(e)
        self.cl = ClockLayer(e, self.tl, quiet=True)
        return e

    def body(self, n): return self.p.bodies[self.fn[n]]
    def site(self, n): return body_site(self.p, self.fn[n])

    def layout(self):
        p = self.p
        # the specification's fields by role
        e = self.eng()
        b = self.body("spec_new")
        l = b["l"]
        cap = named("capacity", l[1])
        s, r = named("send", p.field_ty(l[2], 1, 0)), named("resp", p.field_ty(l[3], 1, 0))
        outs = [o for o in e.run_fn(self.fn["spec_new"], [cap, some(l[2], s), some(l[3], r)], State()) if o.kind == "ret"]
        self.role = {}
        for o in outs:
            if o.val.op != "agg": continue
            for i, x in enumerate(o.val.a[1:]):
                for n, y in (("capacity", cap), ("send", s), ("resp", r)):
                    if x is y: self.role[n] = i
        self.need(set(self.role) == {"capacity", "send", "resp"}, "layout:spec", "a channel specification does not keep the capacity and latencies it is given", self.site("spec_new"))
        vs = p.variants(self.T["spec"])[0][2]
        for n, who in (("att_s", "sview"), ("att_r", "rview")):
            got = self.attach(n)
            v = [i for i, x in (got or {}).items() if x[0] == "view"]
            if len(v) == 1: self.role[who] = v[0]
        self.need("sview" in self.role and "rview" in self.role and self.role["sview"] != self.role["rview"], "layout:views", "attaching a context does not record its view for its side of the channel", self.site("att_s"))
        # the inline specification
        e = self.eng()
        fs = []
        for i, f in enumerate(vs):
            q = p.adt(f[1]) or ""
            if q.endswith("Mutex") and self.T["view"] in p.types[p.types[f[1]]["a"][-1]].get("a", []):
                fs.append(mk("cell", (some(p.types[f[1]]["a"][-1], named("view%d" % i, self.T["view"])),), f[1]))
            else: fs.append(named("spec%d" % i, f[1]))
        st = State()
        al = e.new_alloc(st, mk("agg", (0,) + tuple(fs), self.T["spec"]))
        outs = [o for o in e.run_fn(self.fn["inline"], [e.ref(al, ())], st) if o.kind == "ret"]
        self.need(len(outs) == 1 and outs[0].val.op == "agg", "layout:inline", "the inline specification is not built from the specification", self.site("inline"))
        self.inl = {}
        if not self.good: return
        for j, x in enumerate(outs[0].val.a[1:]):
            for n, i in self.role.items():
                y = fs[i]
                if x is y or y.op == "cell" and x is y.a[0]: self.inl[n] = j
        self.need(set(self.inl) == set(self.role), "layout:inline", "the inline specification does not carry every parameter of the channel", self.site("inline"))
        self.inline_result = outs[0].val
        # where the endpoint implementations live, and which variant is which
        self.home, self.var = {}, {}
        for n, t in (("drop_s", "snd"), ("drop_r", "rcv")):
            e = self.eng()
            st = State()
            args = e.sym_args(self.fn[n], st)
            found = set()
            for o in e.run_fn(self.fn[n], args, st):
                for al, v in o.st.mem.items():
                    if al[0] != "h": continue
                    for path, x in find_typed(e, o.st, v, self.T[t]):
                        if x.op == "agg": found.add((al, path, x.a[0]))
            self.need(len(found) == 1, "layout:" + n, "dropping an endpoint does not replace its implementation by one terminated state", self.site(n))
            if len(found) == 1:
                al, path, v = found.pop()
                self.home[t] = (al, path)
                self.var[("terminated", t)] = v
        e = self.eng()
        st = State()
        args = e.sym_args(self.fn["new"], st)
        outs = e.run_fn(self.fn["new"], args, st)
        if self.need(len(outs) == 1 and outs[0].kind == "ret", "layout:new", "channel construction is not a single path", self.site("new")):
            self.data0, self.data0_st = outs[0].val, outs[0].st
            for t in ("snd", "rcv"):
                x = [x for path, x in find_typed(e, outs[0].st, outs[0].val, self.T[t])]
                if self.need(len(x) == 1 and x[0].op == "agg", "layout:new", "a new channel has no endpoint implementation", self.site("new")): self.var[("uninit", t)] = x[0].a[0]
        if not self.good: return
        self.flavors()

    def attach(self, n):
        """Which fields of a specification an attachment writes, and with what."""
        p = self.p
        e = self.eng()
        st = State()
        fs = []
        for i, f in enumerate(p.variants(self.T["spec"])[0][2]):
            if (p.adt(f[1]) or "").endswith("Mutex"): fs.append(mk("cell", (named("old%d" % i, p.types[f[1]]["a"][-1]),), f[1]))
            else: fs.append(named("spec%d" % i, f[1]))
        al = e.new_alloc(st, mk("agg", (0,) + tuple(fs), self.T["spec"]))
        ctx = named("ctx", self.body(n)["l"][2])
        outs = [o for o in e.run_fn(self.fn[n], [e.ref(al, ()), ctx], st)]
        if len(outs) != 1 or outs[0].kind != "ret": return None
        o = outs[0]
        new = e.load(o.st, al, ())
        calls = {x.a[2]: x.a[0].split("::")[-1] for x in o.st.events() if x.k == "call" and x.a[1] and self.same_ctx(e, o.st, x.a[1][0], ctx)}
        r = {}
        for i, x in enumerate(fs):
            y = e.field_of(new, 0, i)
            if y is x: continue
            w = y.a[0] if y.op == "cell" else y
            if w.op == "agg" and len(w.a) == 2 and w.a[0] == 1: r[i] = (calls.get(w.a[1], "?"), p.ts(w.a[1].ty) if w.a[1].ty is not None else "")
            else: r[i] = ("?", "")
        return r

    def same_ctx(self, e, st, v, ctx):
        a, b = e.deref(st, v), e.deref(st, ctx)
        return a == b

    def flavors(self):
        """Runs set_flavor on a fresh channel for every flavour and both kinds of capacity."""
        p = self.p
        self.made = {}
        for fi, f in enumerate(p.variants(self.T["flavor"])):
            for bounded in (1, 0):
                e = self.eng()
                st = self.data0_st.copy()
                al = e.new_alloc(st, self.data0)
                # the spec the channel was built with
                sp = None
                for i, x in enumerate(self.data0.a[1:]):
                    if isinstance(x, V) and "ChannelSpec" in p.ts(x.ty or 0) and x.op != "agg": sp = x
                fs = []
                for i, ft in enumerate(p.variants(self.T["spec"])[0][2]):
                    if i == self.role["capacity"]: fs.append(some(ft[1], named("cap", p.field_ty(ft[1], 1, 0))) if bounded else mk("agg", (0,), ft[1]))
                    elif i in (self.role["sview"], self.role["rview"]): fs.append(mk("cell", (some(p.types[ft[1]]["a"][-1], named("view%d" % i, self.T["view"])),), ft[1]))
                    else: fs.append(named("spec%d" % i, ft[1]))
                spec = mk("agg", (0,) + tuple(fs), self.T["spec"])
                if sp is not None:
                    sal, spath = e.deref(st, sp)
                    e.store(st, sal, spath, spec)
                outs = e.run_fn(self.fn["flavor"], [e.ref(al, ()), mk("agg", (fi,), self.T["flavor"])], st)
                res = []
                for o in outs:
                    d = {}
                    if o.kind == "ret":
                        v = e.load(o.st, al, ())
                        for t in ("snd", "rcv"):
                            x = [x for _, x in find_typed(e, o.st, v, self.T[t])]
                            d[t] = x[0] if len(x) == 1 else None
                    res.append((o, d))
                self.made[(f[0], bounded)] = (e, spec, res)
                for o, d in res:
                    for t in ("snd", "rcv"):
                        if d.get(t) is not None and d[t].op == "agg": self.var.setdefault((f[0], bounded, t), d[t].a[0])

    # ---- running an endpoint operation on a live endpoint
    def live(self, t):
        """[(flavour, bounded, variant)] of the implementations that move data."""
        seen, r = set(), []
        for (k, v) in self.var.items():
            if len(k) == 3 and k[2] == t and v not in (self.var[("uninit", t)], self.var[("terminated", t)]) and k[0] != "Void" and v not in seen:
                seen.add(v); r.append((k[0], k[1], v))
        return r

    def place_of(self, t, me):
        """Place of the endpoint implementation for an endpoint reached through `me` (the place was found for Drop, whose self is another symbol)."""
        al, path = self.home[t]

        def re(v):
            if v.op == "sym": return me
            return mk(v.op, (re(v.a[0]),) + tuple(v.a[1:]), v.ty)
        return (al[0], re(al[1])), path

    def run(self, op, t, variant, bounded, setup=None, merge=True):
        """All outcomes of an endpoint operation on an implementation in an arbitrary state."""
        e = self.eng()
        e.merge = merge
        st = State()
        snaps = {}

        def snap(s, ev): snaps[ev] = s.copy()
        for k in ("send", "recv", "try_recv"): e.hooks[k] = snap
        args = e.sym_args(self.fn[op], st)
        al, path = self.place_of(t, args[0])
        r = Run(self, e, st, args, t, al, path, variant, bounded)
        r.snaps = snaps
        r.st0 = st
        if setup: setup(r)
        r.st0 = st.copy()
        r.outs = e.run_fn(self.fn[op], args, st)
        r.site = self.site(op)
        self.rep.use(e)
        self.rep.count("paths", len(r.outs))
        return r


class Run:
    def __init__(self, c, e, st, args, t, al, path, variant, bounded):
        self.c, self.e, self.st, self.args, self.t, self.variant = c, e, st, args, t, variant
        self.al, self.path, self.bounded = al, path, bounded
        self.impl0 = e.load(st, al, path)
        e.assume_variant(st, self.impl0, variant)
        self.pay0 = e.field_of(self.impl0, variant, 0)
        p = c.p
        # the inline specification inside the implementation
        self.specs = list(self.typed_places(p.variants(c.T[t])[variant][2][0][1], c.T["inline"]))
        self.mgr = args[1] if len(args) > 1 else None
        self.clk_key = c.cl.key(st, self.mgr) if self.mgr is not None and "TimeManager" in p.ts(self.mgr.ty) else None
        self.clk0 = c.cl.clock(st, self.clk_key) if self.clk_key else None
        if len(self.specs) == 1:
            sp = self.spec()
            for n in ("sview", "rview") + (("capacity",) if bounded else ()):
                e.assume_variant(st, e.field_of(sp, 0, c.inl[n]), 1)
            if not bounded: e.assume_variant(st, e.field_of(sp, 0, c.inl["capacity"]), 0)

    def typed_places(self, ty, want, path=(), d=0):
        p = self.c.p
        if ty == want: yield path; return
        if d > 4 or p.tk(ty) not in ("adt", "tuple") or p.is_enum(ty) or not p.types[ty].get("local"): return
        for i in range(p.nfields(ty, 0)): yield from self.typed_places(p.field_ty(ty, 0, i), want, path + (i,), d + 1)

    def at(self, base, path):
        for i in path: base = self.e.field_of(base, 0, i)
        return base

    def spec(self): return self.at(self.pay0, self.specs[0])

    def param(self, n):
        """Send latency, response latency, capacity or view of this channel."""
        x = self.e.field_of(self.spec(), 0, self.c.inl[n])
        return x if n in ("send", "resp") else self.e.field_of(x, 1, 0)

    def clock(self, st): return self.c.cl.clock(st, self.clk_key)

    def impl(self, st): return self.e.resolve(st, self.e.load(st, self.al, self.path))

    def payload(self, st):
        v = self.impl(st)
        if v.op == "agg": return v.a[1] if v.a[0] == self.variant and len(v.a) > 1 else None
        return self.e.field_of(v, self.variant, 0)

    def leaves(self, pred):
        """Paths of the fields of the implementation (outside its specification) that satisfy pred(type)."""
        p = self.c.p
        res = []

        def go(ty, path, d):
            if path in self.specs: return
            if pred(ty): res.append(path); return
            if d > 4 or p.tk(ty) not in ("adt", "tuple") or p.is_enum(ty) or not p.types[ty].get("local"): return
            for i in range(p.nfields(ty, 0)): go(p.field_ty(ty, 0, i), path + (i,), d + 1)
        go(p.variants(self.c.T[self.t])[self.variant][2][0][1], (), 0)
        return res

    def read(self, st, path):
        v = self.payload(st)
        if v is None: return None
        for i in path:
            v = self.e.resolve(st, v)
            v = self.e.field_of(v, 0, i)
        return self.e.resolve(st, v)


def chan(rep, config="main"):
    c = Chan(rep, config)
    return c if c.good else None


class Seg:
    """A loop-free stretch of a path: from the start or a loop head (base state) to a loop head, the end of an iteration, or the end of the operation."""
    def __init__(self, kind, base, evs, st, val): self.kind, self.base, self.evs, self.st, self.val = kind, base, evs, st, val


def segments(r, panics=False):
    seen = set()
    res = []

    def walk(kind, st, val, stop, base):
        chain = []
        x = st.ev
        while x is not None and x is not stop:
            chain.append(x[1]); x = x[0]
        chain.reverse()
        cur = []
        for x in chain:
            if x.k != "loop": cur.append(x); continue
            rec = x.a[0]
            if rec.serial not in seen:
                seen.add(rec.serial)
                res.append(Seg("init", base, cur, rec.init, None))
                for s in rec.iters: walk("iter", s, None, rec.entry.ev, rec.entry)
                if panics:
                    for o in rec.exits:
                        if isinstance(o, tuple) and o[0] == "panic": walk("panic", o[1], o[2], rec.entry.ev, rec.entry)
            base, cur = rec.entry, []
        res.append(Seg(kind, base, cur, st, val))
    for o in r.outs:
        if o.kind == "ret" or panics: walk(o.kind, o.st, o.val, None, r.st0)
    return res


RECV = ("recv", "try_recv")
SENDERS = (("enqueue", "snd"), ("wait", "snd"))
RECEIVERS = (("peek", "rcv"), ("peek_next", "rcv"), ("dequeue", "rcv"))


class Ops:
    """The runs of the endpoint operations, and the roles of the fields of each implementation."""
    def __init__(self, rep, config="main"):
        self.c = chan(rep, config)
        self.rep = rep
        self.good = self.c is not None
        if not self.good: return
        p = self.p = self.c.p
        self.ti = [i for i, f in enumerate(p.variants(self.c.T["elem"])[0][2]) if f[1] == self.c.T["time"]]
        self.di = [i for i, f in enumerate(p.variants(self.c.T["elem"])[0][2]) if f[1] != self.c.T["time"]]
        self.good = rep.ok(len(self.ti) == 1 and len(self.di) == 1, "layout:element", "a channel element is not a time and a datum")
        if self.good: self.ti, self.di = self.ti[0], self.di[0]
        pk = p.variants(self.c.T["peek"])
        self.pk = {v[0]: i for i, v in enumerate(pk)}
        self.good = self.good and rep.ok(set(self.pk) == {"Something", "Nothing", "Closed"}, "layout:peek", "the outcomes of a peek are not something, nothing and closed")
        self.cache = {}

    def each(self, t, ops, bounded=None):
        """[(label, Run)] of operations over every implementation that moves data."""
        for f, b, v in self.c.live(t):
            if bounded is not None and b != bounded: continue
            for op in ops:
                if (op, v) not in self.cache: self.cache[(op, v)] = self.c.run(op, t, v, b, setup=self.within if t == "snd" and b else None, merge=False)
                r = self.cache[(op, v)]
                r.label = "%s:%s:%s" % (op, f, "bounded" if b else "unbounded")
                r.data = self.queue(r, "elem")
                r.resp = self.queue(r, "time")
                if not self.rep.ok(r.data is not None and (r.resp is not None) == bool(b), r.label + ":queues", "the endpoint does not have one data queue (and one acknowledgement queue if bounded)", r.site): continue
                yield r

    def within(self, r):
        """Invariants of a bounded sender: no more unacknowledged elements than the capacity (established and kept, see C04); an acknowledgement answers an element that was sent and not yet counted as acknowledged (C02, C05)."""
        d = self.delta(r)
        cap = r.param("capacity")
        if d is not None: r.e.le(r.st, r.read(r.st, d), cap)
        r.e.le(r.st, const(1, cap.ty), cap)
        resp = self.queue(r, "time")

        def acked(s, ev):
            r.snaps[ev] = s.copy()
            if ev.a[1] != "ok" or not on(ev, resp): return
            now = r.read(s, d)
            if now is not None: r.e.le(s, const(1, now.ty), now)
        if d is not None:
            for k in RECV: r.e.hooks[k] = acked

    def queue(self, r, what):
        """Value of the endpoint's data ('elem') or acknowledgement ('time') queue."""
        p = self.p

        def pred(ty):
            q = p.adt(ty) or ""
            if not q.startswith("crossbeam_channel::channel::"): return False
            a = p.types[ty]["a"][0]
            return p.adt(a) == p.adt(self.c.T[what])
        x = r.leaves(pred)
        return r.read(r.st0, x[0]) if len(x) == 1 else None

    def head(self, r):
        p = self.p
        x = r.leaves(lambda ty: p.adt(ty) == "core::option::Option" and p.adt(p.types[ty]["a"][0]) == p.adt(self.c.T["peek"]))
        return x[0] if len(x) == 1 else None

    def delta(self, r):
        x = r.leaves(lambda ty: p_uint(self.p, ty))
        return x[0] if len(x) == 1 else None

    def credit(self, r):
        """The field that holds what a cyclic sender knows about its next slot."""
        p = self.p
        x = r.leaves(lambda ty: p.adt(ty) == "core::option::Option" and p.is_enum(p.types[ty]["a"][0]) and p.types[p.types[ty]["a"][0]].get("local"))
        return x[0] if len(x) == 1 else None

    def time_of(self, r, st, x): return r.e.resolve(st, r.e.step(st, r.e.resolve(st, x), ("f", 0, self.ti)))

    def data_of(self, r, st, x): return r.e.resolve(st, r.e.step(st, r.e.resolve(st, x), ("f", 0, self.di)))

    def same(self, r, st, a, b):
        return a is b or (self.time_of(r, st, a) is self.time_of(r, st, b) and self.data_of(r, st, a) is self.data_of(r, st, b))

    def result(self, r, st, v):
        """('ok', value) or ('err', value) of a Result."""
        v = r.e.resolve(st, v)
        if v.op == "agg": return ("ok" if v.a[0] == 0 else "err"), (v.a[1] if len(v.a) > 1 else None)
        return None, None

    def peeked(self, r, st, v):
        """(variant name, payload) of a PeekResult, None when unknown."""
        v = r.e.resolve(st, v)
        for n, i in self.pk.items():
            if v.op == "agg" and v.a[0] == i: return n, (v.a[1] if len(v.a) > 1 else None)
            if st.var.get(v) == i: return n, (r.e.field_of(v, i, 0) if n != "Closed" else None)
        return None, None

    def head_of(self, r, st, path, base=None):
        """(None|'Something'|'Nothing'|'Closed'|'?', payload) cached at the head of a receiver (in an earlier state, with what is known later)."""
        h = r.read(base or st, path)
        h = r.e.resolve(st, h)
        if h.op == "agg":
            if h.a[0] == 0: return None, None
            n, x = self.peeked(r, st, h.a[1])
            return (n or "?"), (x if n else h)
        k = st.var.get(h)
        if k == 0: return None, None
        if k == 1:
            n, x = self.peeked(r, st, r.e.field_of(h, 1, 0))
            return (n or "?"), (x if n else h)
        return "?", h


def p_uint(p, ty): return ty is not None and p.tk(ty) in ("uint", "int")


def on(ev, q): return ev.a[-1] is q


def ops(rep, config="main"):
    o = Ops(rep, config)
    return o if o.good else None


@rule("C01")
def c01(rep):
    rep.rule("On every path of enqueue in every sender flavour, the element handed to the data queue is stamped max(its own time, the sender's clock when enqueue returns + the send latency).")
    for config in CONFIGS:
        o = ops(rep, config)
        if o is None: return
        n = 0
        for r in o.each("snd", ("enqueue",)):
            e, tl = r.e, o.c.tl
            for out in r.outs:
                if out.kind != "ret": continue
                for x in out.st.events():
                    if x.k != "send" or not on(x, r.data): continue
                    n += 1
                    st = out.st
                    own = o.time_of(r, st, r.args[2])
                    got = o.time_of(r, st, x.a[1])
                    due = tl.add(e, st, r.clock(st), r.param("send"))
                    rep.ok(prove_le(st, due, got), r.label + ":early", "an element is sent with a time before the sender's clock plus the channel's send latency", x.site)
                    rep.ok(prove_le(st, own, got), r.label + ":own", "an element is sent with a time before the time it already had", x.site)
                    rep.ok(prove_le(st, got, own) or prove_le(st, got, due) or prove_le(st, got, e.mxn(st, "max", own, due)), r.label + ":late", "an element is stamped later than its own time and the sender's clock plus latency", x.site)
        rep.floor("sends (%s)" % config, n, 3)


@rule("C02")
def c02(rep):
    rep.rule("enqueue: one send of the given data on paths that return Ok, none on paths that return Err; every loop-free stretch of a receive operation conserves the sequence (cached head, received elements) = (returned element, cached head).")
    for config in CONFIGS:
        o = ops(rep, config)
        if o is None: return
        n = 0
        for r in o.each("snd", ("enqueue", "wait")):
            for g in segments(r):
                sent = [x for x in g.evs if x.k == "send" and on(x, r.data) and x.a[2] == 1]
                if r.label.startswith("wait"):
                    rep.ok(not sent, r.label + ":sends", "waiting for space sends data", r.site); continue
                if g.kind != "ret": rep.ok(not sent, r.label + ":again", "an element can be sent more than once by one enqueue", r.site); continue
                n += 1
                k, _ = o.result(r, g.st, g.val)
                if not rep.ok(k is not None, r.label + ":result", "the result of enqueue is not known on some path", r.site): continue
                if k == "ok":
                    if not rep.ok(len(sent) == 1, r.label + ":once", "a successful enqueue does not send exactly one element (%d)" % len(sent), r.site): continue
                    rep.ok(o.data_of(r, g.st, sent[0].a[1]) is o.data_of(r, g.st, r.args[2]), r.label + ":data", "enqueue sends other data than it was given", sent[0].site)
                else: rep.ok(not sent, r.label + ":failed", "a failed enqueue still sent the element", r.site)
        rep.floor("enqueue results (%s)" % config, n, 6)
        n = 0
        for r in o.each("rcv", ("peek", "peek_next", "dequeue")):
            hp = o.head(r)
            if not rep.ok(hp is not None, r.label + ":head", "the receiver has no single place for a peeked element", r.site): continue
            op = r.label.split(":")[0]
            for g in segments(r):
                n += 1
                have = []
                k0, x0 = o.head_of(r, g.st, hp, g.base)
                h0, h1 = r.read(g.base, hp), r.read(g.st, hp)
                h0 = r.e.resolve(g.st, h0)
                got = [x.a[2] for x in g.evs if x.k in RECV and on(x, r.data) and x.a[1] == "ok"]
                ret = None
                if g.kind == "ret":
                    if op == "peek":
                        k, v = o.peeked(r, g.st, g.val)
                        if not rep.ok(k is not None, r.label + ":result", "what peek reports is not known on some path", r.site): continue
                        if k == "Something": ret = v
                    else:
                        k, v = o.result(r, g.st, g.val)
                        if not rep.ok(k is not None, r.label + ":result", "the result of a receive is not known on some path", r.site): continue
                        if k == "ok": ret = v
                took = op == "dequeue" and ret is not None
                if k0 == "?":
                    rep.ok(h1 is h0 and not got and not took, r.label + ":blind", "a receive changes the cached element without looking at it", r.site)
                    continue
                before = ([x0] if k0 == "Something" else []) + got
                k1, x1 = o.head_of(r, g.st, hp)
                if k1 == "?":
                    rep.ok(False, r.label + ":head", "the cached element is not known at the end of a path", r.site); continue
                after = ([ret] if took else []) + ([x1] if k1 == "Something" else [])
                same = len(before) == len(after) and all(o.same(r, g.st, a, b) for a, b in zip(before, after))
                what = "lost" if len(before) > len(after) else "made up or repeated" if len(before) < len(after) else "changed or reordered"
                rep.ok(same, r.label + ":conserve", "an element is %s by %s" % (what, op), r.site)
                if ret is not None and not took: rep.ok(k1 == "Something" and o.same(r, g.st, ret, x1), r.label + ":shown", "%s shows an element that is not the next one" % op, r.site)
        rep.floor("receive stretches (%s)" % config, n, 20)


@rule("C03")
def c03(rep):
    rep.rule("On every path of dequeue and peek_next that returns an element, the final clock is provably at least the element's time; no path of peek touches a clock.")
    for config in CONFIGS:
        o = ops(rep, config)
        if o is None: return
        n = 0
        for r in o.each("rcv", ("peek_next", "dequeue")):
            for out in r.outs:
                if out.kind != "ret": continue
                k, v = o.result(r, out.st, out.val)
                if not rep.ok(k is not None, r.label + ":result", "the result of a receive is not known on some path", r.site): continue
                if k != "ok": continue
                n += 1
                rep.ok(prove_le(out.st, o.time_of(r, out.st, v), r.clock(out.st)), r.label + ":behind", "an element is returned while the receiver's clock may still be before the element's time", r.site)
        rep.floor("returned elements (%s)" % config, n, 8)
        for r in o.each("rcv", ("peek",)):
            for k, st, v in paths(r.outs, True):
                rep.ok(not any(x.k in ("advance", "incr") for x in st.events()), r.label + ":clock", "peek moves a clock", r.site)


CONFIGS = ("main", "unbounded")



def is_view(r, ev, who): return ev.a[0] is r.param(who) or r.e.resolve(r.st0, ev.a[0]) is r.param(who)


def same_count(r, st, end, base, k):
    """Is end = base + k provable?"""
    e = r.e
    if k == 0 and end is base: return True
    if k >= 0: return eq_terms(st, end, e.binop(st, "Add", base, const(k, base.ty), base.ty))
    return eq_terms(st, e.binop(st, "Add", end, const(-k, end.ty), end.ty), base) or eq_terms(st, end, e.binop(st, "Sub", base, const(-k, base.ty), base.ty))


class Credit:
    """What a sender holds in reserve: the variant of its credit field that stands for one acknowledgement already taken off the queue."""
    def __init__(self, o, r, segs):
        self.o, self.r = o, r
        self.path = o.credit(r)
        self.avail = set()
        if self.path is None: return
        for g in segs:
            k, v = self.at(g.st)
            acks = [x.a[2] for x in g.evs if x.k in RECV and on(x, r.resp) and x.a[1] == "ok"]
            if k is not None and k >= 0 and any(v is a for a in acks): self.avail.add(k)

    def at(self, st, base=None):
        """(-1 none, variant number, None unknown; payload)"""
        r, e = self.r, self.r.e
        h = e.resolve(st, r.read(base or st, self.path))
        if h.op == "agg":
            if h.a[0] == 0: return -1, None
            v = e.resolve(st, h.a[1])
        else:
            k = st.var.get(h)
            if k == 0: return -1, None
            if k != 1: return None, h
            v = e.field_of(h, 1, 0)
        if v.op == "agg": return v.a[0], (v.a[1] if len(v.a) > 1 else None)
        k = st.var.get(v)
        if k is None: return None, v
        return k, e.field_of(v, k, 0)


@rule("C04")
def c04(rep):
    rep.rule("In every loop-free stretch of enqueue and wait_until_available of a bounded sender, the count of unacknowledged elements (less an acknowledgement held in reserve) changes by exactly sends minus acknowledgements received; at each send, and whenever a wait succeeds, the count is provably below the capacity; every acknowledgement used is provably no later than the clock, and the clock moves only to acknowledgement times.")
    for config in CONFIGS:
        o = ops(rep, config)
        if o is None: return
        n = ns = 0
        for r in o.each("snd", ("enqueue", "wait"), 1):
            e, tl = r.e, o.c.tl
            dp = o.delta(r)
            if not rep.ok(dp is not None, r.label + ":count", "the sender has no single count of unacknowledged elements", r.site): continue
            segs = segments(r)
            cr = Credit(o, r, segs)
            cap = r.param("capacity")
            op = r.label.split(":")[0]
            for x, st in r.snaps.items():
                if x.k != "send" or not on(x, r.data): continue
                ns += 1
                d = r.read(st, dp)
                rep.ok(prove_le(st, e.binop(st, "Add", d, const(1, d.ty), d.ty), cap), r.label + ":full", "an element is sent although the channel may already hold its capacity", x.site)
            for g in segs:
                n += 1
                sent = sum(1 for x in g.evs if x.k == "send" and on(x, r.data) and x.a[2] == 1)
                acks = [(i, x) for i, x in enumerate(g.evs) if x.k in RECV and on(x, r.resp) and x.a[1] == "ok"]
                d0, d1 = r.read(g.base, dp), r.read(g.st, dp)
                want = sent - len(acks)
                k0 = k1 = None
                if cr.path is not None:
                    c0, c1 = e.resolve(g.st, r.read(g.base, cr.path)), e.resolve(g.st, r.read(g.st, cr.path))
                    if c0 is not c1:
                        (k0, v0), (k1, v1) = cr.at(g.st, g.base), cr.at(g.st)
                        if not rep.ok(k0 is not None and k1 is not None, r.label + ":reserve", "a sender forgets what it knew about its next slot without looking at it", r.site): continue
                        want += (k1 in cr.avail) - (k0 in cr.avail)
                        if k0 in cr.avail: rep.ok(k1 in cr.avail and v1 is v0 or prove_le(g.st, v0, r.clock(g.st)), r.label + ":early", "a slot is used before the acknowledgement that freed it", r.site)
                        if k1 in cr.avail: rep.ok(any(v1 is x.a[2] for _, x in acks) or (k0 in cr.avail and v1 is v0), r.label + ":madeup", "a sender keeps a free slot for a time that no acknowledgement carried", r.site)
                rep.ok(same_count(r, g.st, d1, d0, want), r.label + ":account", "the number of unacknowledged elements is not changed by sends minus acknowledgements (%d sent, %d acknowledged on some path)" % (sent, len(acks)), r.site)
                rep.ok(prove_le(g.st, d1, cap), r.label + ":over", "more elements than the capacity can be unacknowledged", r.site)
                for i, x in acks:
                    t = x.a[2]
                    good = prove_le(g.st, t, r.clock(g.st)) or (k1 in cr.avail and v1 is t)
                    good = good or any(y.k == "view_tlb" and is_view(r, y, "sview") and prove_le(g.st, t, y.a[-1]) for y in g.evs[:i])
                    rep.ok(good or own_tlb(r, g, t), r.label + ":ahead", "an acknowledgement from the future frees a slot at once", x.site)
                # the clock moves only to the time of an acknowledgement, or to when one may arrive
                known = [x.a[2] for _, x in acks]
                if cr.path is not None: known += [v for k, v in (cr.at(g.st, g.base), cr.at(g.st)) if k is not None and k >= 0 and v is not None]
                for x in g.evs:
                    if x.k == "incr": rep.ok(False, r.label + ":clock", "a stalled sender's clock is moved by a fixed amount", x.site)
                    if x.k == "advance": rep.ok(any(x.a[1] is t for t in known), r.label + ":clock", "a stalled sender's clock moves to a time other than an acknowledgement's", x.site)
                # a time to look again: the receiver was seen there, and nothing had been acknowledged
                if k1 is not None and k1 >= 0 and k1 not in cr.avail and v1 is not None and cr.at(g.st, g.base)[1] is not v1 and e.p.nfields(v_ty(r, g, cr), k1):
                    rep.ok(checked_back(r, g, v1, tl), r.label + ":again", "a stalled sender skips to a time before which the receiver may still acknowledge something", r.site)
                if op == "wait" and g.kind == "ret":
                    k, _ = o.result(r, g.st, g.val)
                    if k == "ok": rep.ok(prove_le(g.st, e.binop(g.st, "Add", d1, const(1, d1.ty), d1.ty), cap), r.label + ":wait", "waiting for space succeeds while the channel may be full", r.site)
        rep.floor("sender stretches (%s)" % config, n, 10)
        rep.floor("bounded sends (%s)" % config, ns, 2)


def v_ty(r, g, cr):
    return r.c.p.types[r.e.resolve(g.st, r.read(g.st, cr.path)).ty]["a"][0]


def own_tlb(r, g, t):
    """Is the time at most a reading of the sender's own clock taken earlier in the operation?"""
    return any(y.k == "view_tlb" and is_view(r, y, "sview") and prove_le(g.st, t, y.a[-1]) for y in g.st.events())


def checked_back(r, g, t, tl):
    for i, x in enumerate(g.st.events()):
        if x.k == "view_wait" and is_view(r, x, "rview"):
            later = [y for y in g.st.events()[i + 1:] if y.k in RECV and on(y, r.resp)]
            if eq_terms(g.st, t, tl.add(r.e, g.st, x.a[-1], r.param("resp"))) and later and later[-1].a[1] == "empty" and all(y.a[1] == "empty" for y in later): return True
    return False


@rule("C05")
def c05(rep):
    rep.rule("dequeue on a bounded channel sends exactly one acknowledgement on paths that return an element, stamped the clock at return (shown to be at least the element's time) plus the response latency; no other receive path sends any.")
    for config in CONFIGS:
        o = ops(rep, config)
        if o is None: return
        n = 0
        for r in o.each("rcv", ("peek", "peek_next", "dequeue")):
            e, tl = r.e, o.c.tl
            op = r.label.split(":")[0]
            for g in segments(r):
                sends = [x for x in g.evs if x.k == "send"]
                if r.resp is None or op != "dequeue" or g.kind != "ret":
                    rep.ok(not sends, r.label + ":extra", "%s acknowledges an element that is not removed" % op, r.site); continue
                k, v = o.result(r, g.st, g.val)
                if not rep.ok(k is not None, r.label + ":result", "the result of dequeue is not known on some path", r.site): continue
                if k == "err":
                    rep.ok(not sends, r.label + ":failed", "a failed dequeue acknowledges an element", r.site); continue
                n += 1
                if not rep.ok(len(sends) == 1 and on(sends[0], r.resp), r.label + ":once", "a dequeue does not acknowledge the element exactly once (%d)" % len(sends), r.site): continue
                at = e.mxn(g.st, "max", o.time_of(r, g.st, v), r.clock(g.st))
                rep.ok(eq_terms(g.st, sends[0].a[1], tl.add(e, g.st, at, r.param("resp"))), r.label + ":stamp", "an acknowledgement is not stamped with the time of the removal plus the response latency", sends[0].site)
        rep.floor("acknowledged removals (%s)" % config, n, 4)


@rule("C06")
def c06(rep):
    rep.rule("Every peek that reports nothing until t, and every such answer kept for later, is justified on its path: the data queue was found empty after a read of the sender's clock that is provably at least t and at least the receiver's clock, or the kept answer still covers the receiver's clock. Every closed answer follows a disconnected queue, an empty queue after an infinite sender clock, or an earlier closed answer.")
    for config in CONFIGS:
        o = ops(rep, config)
        if o is None: return
        n = 0
        for r in o.each("rcv", ("peek", "peek_next", "dequeue")):
            hp = o.head(r)
            if not rep.ok(hp is not None, r.label + ":head", "the receiver has no single place for a peeked element", r.site): continue
            op = r.label.split(":")[0]
            for g in segments(r):
                n += 1
                k1, x1 = o.head_of(r, g.st, hp)
                k0, x0 = o.head_of(r, g.st, hp, g.base)
                same = r.e.resolve(g.st, r.read(g.base, hp)) is r.e.resolve(g.st, r.read(g.st, hp))
                if k1 == "Nothing" and not same and not (k0 == "Nothing" and x1 is x0):
                    rep.ok(zero(o.c.tl, x1) or empty_after(o, r, g, x1), r.label + ":keeps", "the receiver remembers that nothing arrives until a time it has not checked", r.site)
                if k1 == "Closed" and not same and k0 != "Closed":
                    rep.ok(closed(o, r, g, k0), r.label + ":closed", "a channel is taken for closed while elements may still arrive", r.site)
                if g.kind != "ret": continue
                if op == "peek":
                    k, v = o.peeked(r, g.st, g.val)
                    if not rep.ok(k is not None, r.label + ":result", "what peek reports is not known on some path", r.site): continue
                    if k == "Nothing":
                        now = [y.a[-1] for y in g.st.events() if y.k == "view_tlb" and is_view(r, y, "rview")]
                        fresh = any(prove_le(g.st, y, v) for y in now)
                        rep.ok(fresh, r.label + ":stale", "peek reports that nothing arrives until a time that the receiver has already passed", r.site)
                        if k0 == "Nothing" and v is x0: continue
                        rep.ok(empty_after(o, r, g, v), r.label + ":guess", "peek reports that nothing arrives until a time it has not checked with the sender", r.site)
                    if k == "Closed": rep.ok(closed(o, r, g, k0), r.label + ":closed", "peek reports a channel closed while elements may still arrive", r.site)
                else:
                    k, v = o.result(r, g.st, g.val)
                    if not rep.ok(k is not None, r.label + ":result", "the result of a receive is not known on some path", r.site): continue
                    if k == "err": rep.ok(closed(o, r, g, k0), r.label + ":closed", "%s reports a channel closed while elements may still arrive" % op, r.site)
        rep.floor("receive stretches (%s)" % config, n, 20)


def zero(tl, t): return isc(t) and t.a[0] == 0


def tries(r, evs): return [(i, x) for i, x in enumerate(evs) if x.k in RECV and on(x, r.data)]


def empty_after(o, r, g, t):
    """Was the queue empty, after the sender's clock was seen at t or later (or at infinity)?"""
    evs = g.st.events()
    tr = tries(r, evs)
    if not tr or tr[-1][1].a[1] != "empty": return False
    return any(y.k in ("view_wait", "view_tlb") and is_view(r, y, "sview") and prove_le(g.st, t, y.a[-1]) for y in evs[:tr[-1][0]])


def closed(o, r, g, k0):
    evs = g.st.events()
    tr = tries(r, g.evs)
    if not tr and k0 == "Closed": return True
    tr = tries(r, evs)
    if not tr: return False
    i, x = tr[-1]
    if x.a[1] == "disconnected": return True
    if x.a[1] != "empty": return False
    return any(y.k in ("view_wait", "view_tlb") and is_view(r, y, "sview") and prove_le(g.st, o.c.tl.inf, y.a[-1]) for y in evs[:i])
