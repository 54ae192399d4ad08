"""M03-M05: the pipelines of the memory unit and the DRAM bank."""
from rules import rule
from rules.base import *
from rules.contexts import Body, OPS, alike, walk, own_clocks, of_type, CTX
from rules.adapters import chan_engine, element_fields
from rules.templates import strictly, rebuild
from layers import EventLayer, StoreLayer

PIPES = ("ReadPipeline", "WritePipeline", "DRAM")


def endpoint(p, ty):
    """'recv' / 'send' for a channel endpoint type."""
    n = p.adt(ty) or ""
    return "recv" if n == "channel::Receiver" else "send" if n == "channel::Sender" else None


class Leaf:
    def __init__(self, side, name, ty): self.side, self.name, self.ty = side, name, ty


def kinds(p, ty, path=(), depth=0):
    """The kinds of port a type stands for: one {path: Leaf} per combination of enum variants."""
    if depth > 4: return [{}]
    if endpoint(p, ty): return [{path: Leaf(endpoint(p, ty), None, ty)}]
    t = p.types[ty]
    if t["k"] not in ("adt", "tuple"): return [{}]
    if t["k"] == "adt" and not t.get("local"): return [{}]
    res = []
    vs = t.get("vs") or ([["", 0, [[str(i), x, ""] for i, x in enumerate(t["ts"])]]] if t["k"] == "tuple" else [])
    for vi, v in enumerate(vs):
        cur = [{}]
        for i, f in enumerate(v[2]):
            sub = kinds(p, f[1], path + ((vi, i),), depth + 1)
            for q in sub:
                for l in q.values():
                    if l.name is None: l.name = f[0]
            cur = [{**a, **b} for a in cur for b in sub]
        res += cur
    return res or [{}]


class Pipe(Body):
    """All iterations of a memory pipeline's loop, with ports, events and the datastore as primitives."""
    def __init__(self, rep, name):
        self.ports = None
        super().__init__(rep, name, layers=self.layers)
        if self.key is None: return
        p, e = self.p, self.e
        ty = self.self0.ty
        for i in range(p.nfields(ty, 0)):
            t = p.field_ty(ty, 0, i)
            el = e.elem_ty(t)
            if el is None or p.tk(t) not in ("adt", "slice", "array") or p.adt(t) in ("core::option::Option",): continue
            ks = kinds(p, el)
            if any(ks[0].values()) or any(k for k in ks): self.ports, self.kinds = i, [k for k in ks if k]
        self.good = self.ports is not None and len(own_clocks(p, ty)) == 1
        if not rep.ok(self.good, "ports:" + name, "the ports or the clock of %s cannot be found" % name, self.site): return
        self.clk = self.cl_key()
        self.coll = e.step(self.st, self.self0, ("f", 0, self.ports))
        self.main = []
        for o in self.outs:
            for rec in loops_of(o.st):
                if not any(True for s in rec.iters for x in self.ops(rec.iter_events(s)) if x[0].k in ("dequeue", "enqueue")): continue
                if rec not in self.main: self.main.append(rec)
                break
        if not rep.ok(len(self.main) == 1, "loop:" + name, "%s does not serve its ports in one loop" % name, self.site): self.good = False; return
        self.loop = self.main[0]
        for s in self.loop.iters: self.evl.learn(s)
        for o in self.outs: self.evl.learn(o.st)
        for s in self.loop.iters: self.settle(s)

    def layers(self, b):
        self.evl = EventLayer(self.e, self.tl)
        StoreLayer(self.e)

    def cl_key(self):
        return ("clk", self.me[0], self.me[1] + own_clocks(self.p, self.self0.ty)[0])

    def ops(self, evs, chain=()):
        """(event, state of the inner iteration or None, enclosing inner loops) including what happens inside inner loops."""
        for x in evs:
            if x.k == "loop":
                for s in x.a[0].iters:
                    for y in self.ops(x.a[0].iter_events(s), chain + ((x.a[0], s),)): yield y
            else: yield x, chain

    def port(self, st, ref):
        """(port index, path of the endpoint inside the port) of a reference to one of the ports' endpoints."""
        path = self.own(st, ref)
        if path is None or len(path) < 2 or path[0][:3] != ("f", 0, self.ports) or path[1][0] != "ix": return None
        if any(x[0] != "f" for x in path[2:]): return None
        return path[1][1], tuple((x[1], x[2]) for x in path[2:])

    def kind(self, leaves):
        """The kind of port that has all these endpoints."""
        r = [k for k in self.kinds if set(leaves) <= set(k)]
        return r[0] if len(r) == 1 else None

    def clock_at(self, rec, s, evs, i):
        """The clock's value when event i of an iteration happens."""
        for x in evs[i:]:
            if x.k == "loop":
                v = x.a[0].init.mem.get(self.clk)
                return v if v is not None else self.cl.init(self.clk)
            if len(x.a) < 2 or x.a[0] != self.clk and x.a[1] != self.clk: continue
            if x.k == "tick": return x.a[1]
            if x.k in ("advance", "incr"): return x.a[2]
            if x.k in ("dequeue", "peek_next"): return x.a[6]
            if x.k == "enqueue": return x.a[5]
            return None
        return self.clock_end(s)

    def clock_end(self, s):
        v = s.mem.get(self.clk)
        return v if v is not None else self.cl.init(self.clk)

    def settle(self, s):
        """Taking the element that a port's event promised does not move the clock once it has reached it (C03, C05)."""
        e = self.e
        evs = self.loop.iter_events(s)
        taken = set()
        for x in evs:
            if x.k not in ("dequeue", "peek_next") or x.a[1] != self.clk: continue
            pt = self.port(s, x.a[0])
            if pt is None or x.a[2] != 1: continue
            if (id(pt[0]), pt[1]) in taken: continue
            if x.k == "dequeue": taken.add((id(pt[0]), pt[1]))
            for c in self.choices(s, evs):
                if c.index is None or c.event is None or not eq_terms(s, c.index, pt[0]): continue
                kd, t = self.happens(s, c.event)
                if kd != self.evl.v["Ready"]: continue
                k = self.kind([pt[1]]) if len(self.kinds) == 1 else None
                if k is None or sum(1 for l in k.values() if l.side == "recv") != 1: continue
                if prove_le(s, t, x.a[6]): e.le(s, x.a[5], x.a[6])

    # ---- which port is looked at next
    def choices(self, s, evs):
        """The (port, event) pairs that a path picked as the earliest."""
        e = self.e
        r = []
        for x in evs:
            if x.k != "reduce" or not x.a[0].startswith("min") or len(x.a) < 5: continue
            c = Choice(x.a[2])
            if x.a[3] is None: c.empty = True; r.append(c); continue
            self.take(s, c, e.resolve(s, x.a[3]))
            if c.event is None:                       # the compared collection is gone by now
                for z, w in x.a[2].results:
                    if c.event is None and (w is x.a[3] or w.op == "agg" and any(y is x.a[3] for y in w.a)): s2 = z; self.take(s2, c, x.a[3])
            if x.a[0] == "min_by_key":
                k = self.value(s, x.a[4])
                if k is not c.event and k.op == "undef" or k is UNDEF:
                    for z, w in x.a[2].results: k = self.value(z, x.a[4])
                c.keyed = k is c.event or c.event is not None and k.ty == self.tl.ty and eq_terms(s, k, self.evl.key(e, s, c.event))
            elif x.a[0] == "min_by": c.keyed = len(x.a) > 5 and self.by_key(s, x)
            else: c.keyed = c.index is None
            r.append(c)
        if not r: r = self.best(s, evs)
        return r

    def by_key(self, s, x):
        """Does the comparison given by the pipeline compare the events of two ports?"""
        e = self.e
        for st, a, b, v in x.a[5]:
            p, q = Choice(None), Choice(None)
            self.take(st, p, a); self.take(st, q, b)
            v = e.resolve(st, v)
            if p.event is None or q.event is None or v.op != "op" or v.a[0] != "Cmp": return False
            if not (eq_terms(st, v.a[1], self.evl.key(e, st, p.event)) and eq_terms(st, v.a[2], self.evl.key(e, st, q.event))): return False
        return bool(x.a[5])

    def value(self, s, v):
        e = self.e
        for _ in range(4):
            w = e.resolve(s, v)
            if w.op != "ref": break
            v = e.load(s, *e.deref(s, w))
        return v

    def happens(self, s, ev):
        """(kind of an event on a path, its time)."""
        w = self.e.resolve(s, ev)
        if w.op == "agg": return w.a[0], self.e.resolve(s, w.a[1]) if len(w.a) > 1 else None
        k = s.var.get(ev)
        return k, self.e.resolve(s, self.e.field_of(ev, k, 0)) if k is not None and k != self.evl.v["Closed"] else None

    def take(self, s, c, v):
        """Index and event of a chosen element."""
        v = self.value(s, v)
        w = self.e.resolve(s, v)
        if w.ty != self.evl.ty and w.op == "agg" and len(w.a) == 3:
            v = w
            for y in v.a[1:]:
                y = self.value(s, y)
                if y.ty == self.evl.ty: c.event = y
                elif y.ty is not None and self.p.tk(y.ty) == "uint": c.index = y
        elif v.ty == self.evl.ty: c.event = v
        if c.event is not None and c.event.op == "elt" and c.event.a[0].op == "collect" and c.index is None: c.index = c.event.a[1]

    def best(self, s, evs):
        """A running earliest pair kept by a loop over the ports."""
        e = self.e
        r = []
        for x in evs:
            if x.k != "loop": continue
            rec = x.a[0]
            for v, k in s.var.items():
                if v.ty != self.evl.ty: continue
                ph = [y for y in walk([v], 5) if y.op == "phi" and y.a[0][0] == rec.serial]
                if not ph: continue
                c = Choice(rec)
                c.event, c.running = v, True
                # the index kept alongside: part of the same pair, or another running value
                for q, z, chain in [(y, None, None) for y in evs if y.k in ("dequeue",)]:
                    pt = self.port(s, q.a[0])
                    if pt is not None and any(y.op == "phi" and y.a[0][0] == rec.serial for y in walk([pt[0]], 5)): c.index = pt[0]
                r.append(c)
            for v, k in s.var.items():
                if k == 0 and v.op == "phi" and v.a[0][0] == rec.serial and (self.p.adt(v.ty) or "") == "core::option::Option" and self.mentions_event(v.ty):
                    c = Choice(rec)
                    c.empty, c.running, c.acc = True, True, v
                    r.append(c)
        return r

    def mentions_event(self, ty):
        return self.p.types[self.evl.ty]["p"] in self.p.ts(ty)

    # ---- what a poll of all ports has asked
    def polled(self, lab, c):
        """Every port was asked about every request endpoint, and the value compared is the latest of its answers."""
        rep, e = self.rep, self.e
        rec = c.rec
        name = self.name
        root = coll_src(rec.src) if rec.src is not None else None
        d = Drive(rec, e)
        if not rep.ok(d.root is not None, lab + ":poll", "%s does not look at its ports as one collection" % name, self.site): return
        ok = not d.early and not any(n in ("filter", "filter_map") for n in d.root[4])
        rep.ok(ok, lab + ":skips", "%s does not look at every port before it decides" % name, self.site)
        src = d.root[3]
        if src.op == "collect" and src.a[0] in e.loops:
            inner = e.loops[src.a[0]]
            di = Drive(inner, e)
            ok = di.root is not None and self.is_ports(di.root) and not di.early and not set(di.root[4]) - {"map", "copied", "inspect", "byref", "enum"}
            rep.ok(ok, lab + ":skips", "%s does not look at every port before it decides" % name, self.site)
            for s, v in inner.results: self.asked(lab, inner, s, self.value(s, v), None)
            return
        rep.ok(self.is_ports(d.root), lab + ":ports", "%s looks at something else than its ports" % name, self.site)
        if c.running: self.running(lab, c, rec, d); return
        for s, v in rec.results:
            v = e.resolve(s, v)
            if v.op == "agg" and len(v.a) == 3 and v.ty is None: v = v.a[1]     # (element, key)
            q = Choice(rec)
            self.take(s, q, v)
            self.asked(lab, rec, s, q.event, q.index)

    def is_ports(self, root):
        if root[0] is None: return alike(root[3], self.coll)
        al, path = root[0], root[1]
        return al == self.me[0] and path[:len(self.me[1])] == self.me[1] and len(path) == len(self.me[1]) + 1 and path[-1][:3] == ("f", 0, self.ports)

    def asked(self, lab, rec, s, ev, index):
        rep, e, name = self.rep, self.e, self.name
        self.evl.learn(s)
        got = {}
        idx = []
        for x in rec.iter_events(s):
            if x.k != "next_event": continue
            pt = self.port(s, x.a[0])
            if pt is None: continue
            got.setdefault(pt[1], []).append(x.a[1])
            idx.append(pt[0])
        if not rep.ok(bool(got) and ev is not None, lab + ":asks", "%s does not ask a port for its next event" % name, self.site): return
        rep.ok(all(i is idx[0] for i in idx) and (index is None or eq_terms(s, index, idx[0])), lab + ":index", "%s mixes up which port an event belongs to" % name, self.site)
        pos = [x.a[2] for x in rec.iter_events(s) if x.k == "next" and x.a[2] is not None]
        rep.ok(idx[0] in pos or rec.src is None, lab + ":index", "%s mixes up which port an event belongs to" % name, self.site)
        k = self.kind(got)
        if not rep.ok(k is not None, lab + ":kind", "%s does not know what kind of port it asks" % name, self.site): return
        key = self.evl.key(e, s, ev)
        top = None
        for q, l in k.items():
            if l.side != "recv": continue
            if not rep.ok(q in got, "%s:asks:%s" % (lab, l.name), "%s does not wait for the %s of a request before it serves it" % (name, l.name), self.site): continue
            for y in got[q]:
                ky = self.evl.key(e, s, y)
                rep.ok(prove_le(s, ky, key), "%s:waits:%s" % (lab, l.name), "%s does not wait for the %s of a request before it serves it" % (name, l.name), self.site)
                top = ky if top is None else e.mxn(s, "max", top, ky)
        if top is not None: rep.ok(prove_le(s, key, top), lab + ":late", "%s takes a port's request for later than all of its parts are there" % name, self.site)

    def running(self, lab, c, rec, d):
        """The kept pair is at every step that of an earliest port so far."""
        rep, e, name = self.rep, self.e, self.name
        ev, ix = c.event, c.index
        if c.empty and ev is None: return
        def new(s, v):
            return self.re(s, v, rec)
        # nothing kept before the first port
        for s in rec.iters:
            self.evl.learn(s)
            asked = [x for x in rec.iter_events(s) if x.k == "next_event" and self.port(s, x.a[0]) is not None]
            n = new(s, ev)
            self.evl.learn(s)
            kept = self.is_old(s, ev, rec)
            pos = [x.a[2] for x in rec.iter_events(s) if x.k == "next" and x.a[2] is not None]
            mine = n if not kept else None
            evs = [x.a[1] for x in asked]
            if not rep.ok(bool(evs), lab + ":asks", "%s does not ask a port for its next event" % name, self.site): continue
            this = evs[0]
            for y in evs[1:]: this = self.evl.pick(e, s, "max", this, y)
            if kept:
                rep.ok(prove_le(s, self.evl.key(e, s, ev), self.evl.key(e, s, this)), lab + ":earliest", "%s can pass over the port with the earliest event" % name, self.site)
                if ix is not None: rep.ok(new(s, ix) is ix, lab + ":index", "%s mixes up which port an event belongs to" % name, self.site)
                self.asked(lab, rec, s, this, None)
            else:
                self.asked(lab, rec, s, mine, None)
                if ix is not None: rep.ok(any(new(s, ix) is q for q in pos), lab + ":index", "%s mixes up which port an event belongs to" % name, self.site)
                first = any(k == 0 and y.op == "phi" and y.a[0][0] == rec.serial for y, k in s.var.items())
                rep.ok(first or prove_le(s, self.evl.key(e, s, mine), self.evl.key(e, s, ev)), lab + ":earliest", "%s can pass over the port with the earliest event" % name, self.site)

    def re(self, s, v, rec):
        """A value in terms of what the loop carries, one step later."""
        e = self.e
        if v.op == "phi" and v.a[0][0] == rec.serial: return e.resolve(s, e.subst_phi(s, v, rec))
        if v.op == "fld":
            b = self.re(s, v.a[0], rec)
            return v if b is v.a[0] else e.resolve(s, e.step(s, b, ("f", v.a[1], v.a[2])))
        return v

    def is_old(self, s, v, rec): return self.re(s, v, rec) is v

    # ---- iterations
    def rounds(self):
        """(state, its events, all channel and store operations) per iteration of the main loop."""
        for s in self.loop.iters:
            evs = self.loop.iter_events(s)
            yield s, evs, [(x, ch) for x, ch in self.ops(evs) if x.k in ("dequeue", "peek_next", "enqueue", "store_read", "store_write")]


class Choice:
    def __init__(self, rec):
        self.rec = rec
        self.index = self.event = self.acc = None
        self.empty, self.keyed, self.running = False, True, False


def pipes(rep, names=PIPES):
    if not hasattr(pipes, "memo") or pipes.memo[0] is not rep: pipes.memo = (rep, {})
    r = []
    for n in names:
        b = Pipe(rep, n)
        if b.key is not None and b.good: r.append(b)
    return r


def stamp(b, s, v):
    """(time, data) of an element."""
    v = b.e.resolve(s, v)
    ti, di = element_fields(b.p, v.ty)
    return b.e.resolve(s, b.e.step(s, v, ("f", 0, ti))), b.e.resolve(s, b.e.step(s, v, ("f", 0, di)))


# ------------------------------------------------------------------ M03
@rule("M03")
def m03(rep):
    rep.rule("Every datastore read of the read pipeline happens after a wait on the recorded view of the write side for a cycle later than the read's time (or after its lower bound was seen to be later). Every datastore write of the write pipeline is made at a time not before its clock and before the acknowledgement is sent, which carries the write's time. PMU::new gives the reader the view of its own writer's clock and both the same datastore.")
    p = prog("main")
    n = 0
    for b in pipes(rep, ("ReadPipeline", "WritePipeline")):
        e, name = b.e, b.name
        reads = writes = 0
        for s, evs, ops in b.rounds():
            for x, ch in ops:
                if x.k == "store_read":
                    reads += 1; n += 1
                    st = ch[-1][1] if ch else s
                    rep.ok(synced(b, s, st, evs, x, ch), name + ":unsynced", "the memory unit reads before the write side has moved past the read's cycle", b.site)
                if x.k == "store_write":
                    writes += 1; n += 1
                    if not rep.ok(not ch, name + ":loop", "the memory unit records a write more than once", b.site): continue
                    i = evs.index(x)
                    rep.ok(prove_le(s, b.clock_at(b.loop, s, evs, i), x.a[3]), name + ":past", "the memory unit records a write at a cycle that its clock has already passed", b.site)
                    acks = [y for y in evs if y.k == "enqueue"]
                    for y in acks:
                        rep.ok(evs.index(y) > i, name + ":early", "the memory unit acknowledges a write before it has recorded it", b.site)
                        rep.ok(eq_terms(s, stamp(b, s, y.a[3])[0], x.a[3]), name + ":stamp", "the memory unit acknowledges a write at another cycle than it was recorded at", b.site)
        if name == "ReadPipeline": rep.ok(reads > 0 and writes == 0, name + ":reads", "the memory unit's read pipeline does not read", b.site)
        else: rep.ok(writes > 0, name + ":writes", "the memory unit's write pipeline does not write", b.site)
    built(rep, p)
    rep.floor("memory accesses", n, 2)


def watched(b, v):
    """Is the view one that the context was given?"""
    return any(y.op == "fld" and y.a[0] is b.self0 and "TimeView" in b.p.ts(y.ty) for y in walk([v], 6))


def synced(b, s, st, evs, x, chain):
    e, t = b.e, x.a[2]
    before = []
    for y in evs:
        if y is x or chain and y.k == "loop" and y.a[0] is chain[0][0]: break
        before.append(y)
    for rec, s2 in chain: before += [y for y in rec.iter_events(s2)[:rec.iter_events(s2).index(x) if x in rec.iter_events(s2) else None]]
    for y in before:
        if y.k == "view_wait" and watched(b, y.a[0]) and strictly(e, st, t, y.a[1]): return True
        if y.k in ("view_wait", "view_tlb") and watched(b, y.a[0]) and strictly(e, st, t, y.a[-1]): return True
    return False


def built(rep, p):
    """What a new memory unit is made of."""
    key = [x["key"] for x in p.roots if x["n"] == "new" and x.get("trait") is None and of_type(x, p, "PMU") and x["key"] in p.bodies]
    if not rep.ok(len(key) == 1, "anchor:new", "the memory unit has no constructor"): return
    e, tl, cl = chan_engine(rep)
    st = State()
    args = e.sym_args(key[0], st)
    site = body_site(p, key[0])
    outs = e.run_fn(key[0], args, st)
    rep.use(e)
    rets = [o for o in outs if o.kind == "ret"]
    rep.ok(len(rets) >= 1, "new:returns", "a memory unit cannot be made", site)
    for o in rets:
        v = e.resolve(o.st, o.val)
        rd, wr = part(e, o.st, v, "ReadPipeline"), part(e, o.st, v, "WritePipeline")
        if not rep.ok(rd is not None and wr is not None, "new:parts", "a new memory unit has no read and write pipeline", site): continue
        views = [y for y in members(e, o.st, rd) if y.op == "viewof"]
        ck = own_clocks(p, wr.ty)
        mgr = wr
        for q in ck[0]: mgr = e.resolve(o.st, e.step(o.st, mgr, q))
        seen = {y.a[0]: y.a[1] for y in o.st.events() if y.k == "viewof"}
        rep.ok(len(views) == 1 and seen.get(views[0].a[0]) is mgr, "new:view", "the memory unit's reader does not watch the clock of its writer", site)
        ds = [stores(e, o.st, y) for y in (rd, wr)]
        rep.ok(len(ds[0]) == 1 and len(ds[1]) == 1 and ds[0][0] == ds[1][0], "new:store", "the memory unit's reader and writer do not share one datastore", site)


def part(e, st, v, name, depth=0):
    """The member of a composite whose type has this name."""
    v = e.resolve(st, v)
    if (e.p.adt(v.ty) or "").split("::")[-1] == name: return v
    if v.op != "agg" or depth > 4: return None
    for x in v.a[1:]:
        if isinstance(x, V):
            r = part(e, st, x, name, depth + 1)
            if r is not None: return r
    return None


def members(e, st, v, depth=0):
    v = e.resolve(st, v)
    yield v
    if v.op == "agg" and depth < 5:
        for x in v.a[1:]:
            if isinstance(x, V): yield from members(e, st, x, depth + 1)


def stores(e, st, v):
    """Identities of the datastores that a value points to."""
    r = []
    for y in members(e, st, v):
        if y.ty is not None and e.p.tk(y.ty) == "adt" and "Datastore" in e.p.ts(y.ty) and (e.p.adt(y.ty) or "").startswith("alloc::"):
            r.append(e.deref(st, y))
    return list(dict.fromkeys(r))


# ------------------------------------------------------------------ requests
class Request:
    """What one iteration does for the port it serves."""
    def __init__(self, b, s, evs, ops):
        self.b, self.s, self.evs, self.ops = b, s, evs, ops
        e = b.e
        self.leaf, self.index, self.loops = {}, None, {}
        self.foreign, self.mixed = [], False
        for x, ch in ops:
            if x.k in ("store_read", "store_write"): continue
            st = ch[-1][1] if ch else s
            pt = b.port(st, x.a[0])
            if pt is None: self.foreign.append(x); continue
            if self.index is None: self.index = pt[0]
            elif not eq_terms(st, self.index, pt[0]): self.mixed = True
            self.leaf.setdefault(pt[1], []).append((x, ch))
        self.kind = b.kind(self.leaf)
        self.calls = {}
        for x, ch in b.ops(evs):
            if x.k == "call" and isinstance(x.a[2], V): self.calls[x.a[2]] = (x, ch[-1][1] if ch else s)
        # data of each element taken
        self.taken = {}
        for q, l in self.leaf.items():
            for x, ch in l:
                if x.k == "dequeue" and x.a[2] == 1: self.taken[x.a[3]] = (q, ch)

    def role(self, name, side="recv"):
        return [q for q, l in self.kind.items() if l.side == side and (name in (l.name or ""))]

    def source(self, s, v):
        """Leaf whose element's payload a value is."""
        b, e = self.b, self.b.e
        v = b.value(s, v)
        for el, (q, ch) in self.taken.items():
            if v is stamp(b, s, el)[1]: return q, ch
        return None, None

    def lin(self, s, v, chain, depth=0):
        """A value as a sum of known quantities: ('of', leaf) a request's number, ('pos', loop) the position of an iteration."""
        b, e = self.b, self.b.e
        v = e.resolve(s, v)
        if v.op == "int": return norm({(): v.a[0]})
        if depth > 12: return norm({v: 1})
        if v.op == "op" and v.a[0] in ("Add", "Sub"):
            x, y = self.lin(s, v.a[1], chain, depth + 1), self.lin(s, v.a[2], chain, depth + 1)
            k = 1 if v.a[0] == "Add" else -1
            return norm({t: x.get(t, 0) + k * y.get(t, 0) for t in set(x) | set(y)})
        if v.op == "op" and v.a[0] == "cast": return self.lin(s, v.a[1], chain, depth + 1)
        if v in self.calls:
            x, st = self.calls[v]
            if x.a[0].endswith("to_usize"):
                q, _ = self.source(st, x.a[4][0])
                if q is not None: return {("of", q): 1}
        for rec, st in chain:
            if any(x.k == "reversed" for x in rec.iter_events(st)): continue
            for x in rec.iter_events(st):
                if x.k != "next": continue
                it = x.a[0]
                if x.a[1] is v and v.op == "sym":
                    lo = low(it)
                    if lo is not None:
                        r = dict(self.lin(s, lo, chain, depth + 1))
                        r[("pos", rec.serial)] = r.get(("pos", rec.serial), 0) + 1
                        return norm(r)
                if x.a[2] is v: return {("pos", rec.serial): 1}
            if v.op == "phi" and v.a[0][0] == rec.serial:
                i0, i1 = e.subst_phi(rec.init, v, rec), [e.subst_phi(z, v, rec) for z in rec.iters]
                if all(eq_terms(z, w, e.binop(z, "Add", v, const(1, v.ty), v.ty)) for z, w in zip(rec.iters, i1)):
                    r = dict(self.lin(s, i0, chain[:[c[0] for c in chain].index(rec)], depth + 1))
                    r[("pos", rec.serial)] = r.get(("pos", rec.serial), 0) + 1
                    return norm(r)
        n = len_of(v)
        if n is not None:
            c = self.size_of(s, n)
            if c is not None: return c
        return {v: 1}

    def size_of(self, s, coll):
        """Number of elements of something collected by a loop."""
        b, e = self.b, self.b.e
        if coll.op == "collect" and coll.a[0] in e.loops: return self.count(e.loops[coll.a[0]])
        if coll.op == "phi" and coll.a[0][0] in e.loops:
            rec = e.loops[coll.a[0][0]]
            if pushed(b, rec, coll) is not None: return self.count(rec)
        return None

    def count(self, rec):
        """How often a loop runs, or None."""
        b, e = self.b, self.b.e
        if rec.serial in self.loops: return self.loops[rec.serial]
        self.loops[rec.serial] = None
        d = Drive(rec, e)
        r = None
        done = [o for o in rec.exits if o[0] != "panic"]
        if d.src is not None:
            names = adapters(d.src)
            if not (names & PARTIAL) and not (names & {"filter", "filter_map", "rev", "flat_map", "flatten", "zip", "adapt"}) and all(o[0] == "done" or has_exhausted(o[1], rec, d.src) for o in done):
                root = coll_src(d.src)
                if root is not None: r = self.lin(rec.init, e.length(rec.init, root[3]), ())
                else:
                    n = e.iter_len(rec.init, d.src)
                    if n is not None: r = self.lin(rec.init, n, ())
        else: r = self.counted(rec)
        self.loops[rec.serial] = r
        return r

    def counted(self, rec):
        """A loop that counts from 0 up to a fixed bound."""
        e = self.b.e
        for z in rec.iters[:1]:
            for t, k in z.truth.items():
                if t.op != "op" or t.a[0] != "Lt" or k != 1: continue
                i, n = t.a[1], t.a[2]
                if i.op != "phi" or i.a[0][0] != rec.serial or not older(n, rec.serial): continue
                i0 = e.subst_phi(rec.init, i, rec)
                if not (isc(i0) and i0.a[0] == 0): continue
                if not all(eq_terms(y, e.subst_phi(y, i, rec), e.binop(y, "Add", i, const(1, i.ty), i.ty)) and y.truth.get(t) == 1 for y in rec.iters): continue
                if not all(prove_le(o[1], n, i) for o in rec.exits if o[0] != "panic"): continue
                return self.lin(rec.init, n, ())
        return None

    def content(self, s, v, chain, depth=0):
        """What a stored or sent value is: ('read', event, position chain) or ('taken', leaf, chain), for the word at the loop's position."""
        b, e = self.b, self.b.e
        v = b.value(s, v)
        for x, ch in self.ops:
            if x.k == "store_read" and (x.a[3] is v or e.resolve(s, x.a[3]) is v): return "read", x, ch
        q, ch = self.source(s, v)
        if q is not None: return "taken", q, ch
        if v.op == "elt" and depth < 3 and chain:
            pos = self.lin(s, v.a[1], chain)
            if pos != {("pos", chain[-1][0].serial): 1}: return None
            c = v.a[0]
            if c.op == "collect" and c.a[0] in e.loops:
                rec = e.loops[c.a[0]]
                r = [self.content(z, w, chain + ((rec, z),), depth + 1) for z, w in rec.results]
                if r and all(r) and self.count(rec) is not None: return r[0] if len(r) == 1 else None
            if c.op == "phi" and c.a[0][0] in e.loops:
                rec = e.loops[c.a[0][0]]
                ps = pushed(b, rec, c)
                if ps and len(ps) == 1 and self.count(rec) is not None: return self.content(ps[0][0], ps[0][1], chain + ((rec, ps[0][0]),), depth + 1)
        return None


def norm(r): return {k: n for k, n in r.items() if n != 0}


def low(it):
    while it is not None and it.op == "iter":
        if it.a[0][0] == "range": return it.a[0][2]
        if it.a[0][0] not in ("map", "inspect", "byref", "copied"): return None
        it = it.a[0][2]
    return None


def adapters(it):
    r = set()
    while it is not None and it.op == "iter":
        d = it.a[0]
        r.add(d[1] if d[0] == "adapt" else d[0])
        it = d[2] if len(d) > 2 and isinstance(d[2], V) else None
    return r


def pushed(b, rec, ph):
    """[(iteration, value)] when every iteration of a loop adds exactly one value to the end of a vector that starts empty."""
    e = b.e
    al, path = ph.a[0][1], ph.a[0][2]
    i0 = e.subst_phi(rec.init, ph, rec)
    n = e.length(rec.init, i0)
    if not (isc(n) and n.a[0] == 0): return None
    r = []
    for s in rec.iters:
        mine = [x for x in rec.iter_events(s) if x.k in ("push", "pop", "insert", "resize") and e.deref(s, x.a[0])[0] == al and tuple(y for y in e.deref(s, x.a[0])[1]) == path]
        if len(mine) != 1 or mine[0].k != "push": return None
        r.append((s, mine[0].a[1]))
    return r


def strict(b, s, x, y): return strictly(b.e, s, x, y)


# ------------------------------------------------------------------ M04
@rule("M04")
def m04(rep):
    rep.rule("Per iteration of a memory pipeline's loop: the port served is one whose event is the minimum over all ports, where a port's event is the latest of all receivers that its requests need. A served iteration takes one element from each request receiver of that port (for a burst: one data element per requested word), sends one response on that port (for a burst read: one per word), and moves the clock past the access or occupies one request slot. An idle iteration never moves the clock past the earliest event. The loop returns only when the earliest event is that nothing more can arrive, or there is no port. A read's response carries what the datastore held at the requested address (plus the word's position), a write records the received data there.")
    served = 0
    for b in pipes(rep):
        e, name, tl = b.e, b.name, b.tl
        seen = set()
        slots = {b.own(s, x.a[0]) for s in b.loop.iters for x in b.loop.iter_events(s) if x.k == "pop"} - {None}
        kinds_served = []
        for s, evs, ops in b.rounds():
            cs = b.choices(s, evs)
            asks = any(x.k == "next_event" for x, ch in b.ops(evs))
            if not cs:
                ok = not ops and (not asks) and any(x.k == "pop" for x in evs)
                rep.ok(ok, name + ":unchosen", "%s serves a port without looking for the earliest request" % name if ops else "%s can repeat without serving a port or moving on" % name, b.site)
                continue
            c = cs[-1]
            if not rep.ok(len(cs) == 1 and c.keyed and c.event is not None, name + ":earliest", "%s does not pick the port with the earliest event" % name, b.site): continue
            if id(c.rec) not in seen:
                seen.add(id(c.rec))
                b.polled(name, c)
            kd, t = b.happens(s, c.event)
            key = b.evl.key(e, s, c.event)
            if not rep.ok(kd is not None and kd != b.evl.v["Closed"], name + ":closed", "%s does not stop when nothing more can arrive" % name, b.site): continue
            rep.ok(all(bounded(b, s, evs, x, key) for x in before(evs)), name + ":passes", "%s can move its clock past the earliest event" % name, b.site)
            if not ops:
                end = b.clock_end(s)
                if kd == b.evl.v["Nothing"]: rep.ok(prove_le(s, key, end), name + ":spins", "%s does not move on to the next cycle at which something can arrive" % name, b.site)
                else: rep.ok(strict(b, s, mk("phi", ((b.loop.serial,) + tuple([b.clk, ()]),), tl.ty), end), name + ":dropped", "%s looks at a request without serving it" % name, b.site)
                continue
            served += 1
            rep.ok(kd == b.evl.v["Ready"], name + ":unready", "%s serves a port before its request is there" % name, b.site)
            r = Request(b, s, evs, ops)
            ready = next((x for x in evs if x.k in ("dequeue", "loop") and (x.k == "dequeue" or any(y.k == "dequeue" for z in x.a[0].iters for y in x.a[0].iter_events(z)))), None)
            if ready is not None: rep.ok(prove_le(s, t, b.clock_at(b.loop, s, evs, evs.index(ready))), name + ":soon", "%s takes a request before the cycle at which it arrives" % name, b.site)
            serve(rep, b, c, r, slots, kinds_served)
        for k in b.kinds: rep.ok(any(k is x for x in kinds_served), name + ":kinds", "%s never serves one of its kinds of port" % name, b.site)
        for o in b.outs:
            evs = [x for x in since(o.st, b.loop)]
            cs = b.choices(o.st, evs)
            if o.kind == "panic":
                if len(cs) == 1 and cs[0].event is not None and [x.a[0] for x in evs if x.k == "loop"][-1] is cs[0].rec:
                    rep.ok(b.happens(o.st, cs[0].event)[0] != b.evl.v["Closed"], name + ":drains", "%s fails instead of stopping when nothing more can arrive" % name, b.site)
                continue
            if not cs and any(prove_empty(b, o.st, x) for x in [b.coll]): continue
            if not rep.ok(len(cs) == 1, name + ":stops", "%s can stop while a request can still arrive" % name, b.site): continue
            c = cs[0]
            if id(c.rec) not in seen:
                seen.add(id(c.rec))
                b.polled(name, c)
            ok = c.empty and c.event is None or c.keyed and c.event is not None and b.happens(o.st, c.event)[0] == b.evl.v["Closed"]
            rep.ok(ok, name + ":stops", "%s can stop while a request can still arrive" % name, b.site)
            rep.ok(not any(x.k in OPS or x.k in ("store_read", "store_write") for x, ch in b.ops(evs)), name + ":last", "%s takes a request that it does not finish" % name, b.site)
    rep.floor("served requests", served, 4)


def prove_empty(b, s, coll):
    n = b.e.length(s, coll)
    return isc(n) and n.a[0] == 0 or prove_le(s, n, const(0, n.ty))


def before(evs):
    """Clock moves ahead of the first thing an iteration does with a channel."""
    for x in evs:
        if x.k in ("dequeue", "enqueue", "peek_next", "store_read", "store_write", "loop") and x.k != "loop": return
        if x.k in ("advance", "incr"): yield x


def bounded(b, s, evs, x, key):
    if prove_le(s, x.a[3], key) or eq_terms(s, x.a[3], x.a[2]): return True
    t = x.a[1] if x.k == "advance" else x.a[3]
    if prove_le(s, t, key): return True
    # the end of an earlier transfer: taken from the queue of request windows
    return x.k == "advance" and any(y.k == "pop" and any(eq_terms(s, z, t) for z in oldest(b.e, s, y.a[1])) for y in evs)


def serve(rep, b, c, r, slots, kinds_served):
    e, s, name = b.e, r.s, b.name
    lab = name
    rep.ok(not r.foreign, lab + ":foreign", "%s uses a channel that does not belong to its ports" % name, b.site)
    rep.ok(not r.mixed, lab + ":mixed", "%s mixes channels of different ports in one request" % name, b.site)
    rep.ok(c.index is not None and r.index is not None and eq_terms(s, c.index, r.index), lab + ":other", "%s serves another port than the one with the earliest event" % name, b.site)
    if not rep.ok(r.kind is not None, lab + ":kind", "%s treats a port as one of another kind" % name, b.site): return
    kinds_served.append(r.kind)
    for x, ch in r.ops:
        if x.k in ("dequeue", "enqueue", "peek_next"):
            rep.ok(x.a[2] == 1, lab + ":ignored", "%s goes on after a channel operation failed" % name, b.site)
            rep.ok(x.a[1] == b.clk, lab + ":clock", "%s operates a channel with another clock than its own" % name, b.site)
    size, addr = r.role("size"), r.role("addr")
    if not rep.ok(len(addr) == 1 and len(size) <= 1, lab + ":roles", "the request channels of a port cannot be told apart", b.site): return
    words = {("of", size[0]): 1} if size else None
    data = [q for q, l in r.kind.items() if l.side == "recv" and q not in addr + size]
    resp = [q for q, l in r.kind.items() if l.side == "send"]
    for q in addr + size: once(rep, r, q, "dequeue", lab + ":take:" + (r.kind[q].name or ""), "%s does not take exactly one element of %s per request" % (name, r.kind[q].name))
    for q in data: once(rep, r, q, "dequeue", lab + ":take:" + (r.kind[q].name or ""), "%s does not take exactly the requested data of a request" % name, words)
    for q in resp: once(rep, r, q, "enqueue", lab + ":answer", "%s does not answer a request exactly once" % name if data or words is None else "%s does not answer with exactly the requested number of words" % name, words if not data else None)
    # datastore: one access per word
    acc = [(x, ch) for x, ch in r.ops if x.k in ("store_read", "store_write")]
    want = "store_write" if data else "store_read"
    if not rep.ok(len(acc) == 1 and acc[0][0].k == want, lab + ":access", "%s does not access its memory once per requested word" % name, b.site): return
    x, ch = acc[0]
    st = ch[-1][1] if ch else s
    rep.ok(always(r, x, ch, words), lab + ":access", "%s does not access its memory once per requested word" % name, b.site)
    a = r.lin(st, x.a[1], ch)
    goal = {("of", addr[0]): 1}
    if words is not None and ch: goal[("pos", ch[-1][0].serial)] = 1
    rep.ok(a == goal, lab + ":address", "%s accesses another address than the one requested" % name, b.site)
    if data:
        z = r.content(st, x.a[2], ch)
        rep.ok(z is not None and z[0] == "taken" and z[1] == data[0], lab + ":data", "%s records other data than it received" % name, b.site)
        rep.ok(positions(r, x, ch, z), lab + ":order", "%s records the received words in another order" % name, b.site)
    else:
        for q in resp:
            for y, ych in r.leaf.get(q, []):
                if y.k != "enqueue": continue
                yst = ych[-1][1] if ych else s
                z = r.content(yst, stamp(b, yst, y.a[3])[1], ych)
                rep.ok(z is not None and z[0] == "read", lab + ":data", "%s answers with something else than what it read" % name, b.site)
    end = b.clock_end(s)
    pushes = [y for y in r.evs if y.k == "push" and b.own(s, y.a[0]) in slots]
    inner = [y for y, yc in b.ops(r.evs) if yc and y.k in ("push", "pop") and e.deref(yc[-1][1], y.a[0])[0] == b.me[0]]
    if slots: rep.ok(len(pushes) == 1 and not inner, lab + ":slot", "%s does not occupy exactly one request slot per request" % name, b.site)
    else: rep.ok(strict(b, s, x.a[3] if x.k == "store_write" else x.a[2], end), lab + ":time", "%s does not take time between two requests" % name, b.site)


def positions(r, x, ch, z):
    """Words leave in the order they came: the loop that takes them and the loop that records them run equally often, in order."""
    if not ch: return not z or not z[2]
    return z is not None and bool(z[2])


def once(rep, r, q, kind, key, msg, words=None):
    b = r.b
    l = [(x, ch) for x, ch in r.leaf.get(q, []) if x.k == kind]
    others = [x for x, ch in r.leaf.get(q, []) if x.k not in (kind, "peek")]
    if not rep.ok(len(l) == 1 and not others, key, msg, b.site): return
    rep.ok(always(r, l[0][0], l[0][1], words), key, msg, b.site)


def always(r, x, ch, words):
    """Does an event happen exactly once per request, or exactly once per requested word?"""
    if words is None: return not ch
    if len(ch) != 1: return False
    rec, s = ch[0]
    mine = [sum(1 for y in rec.iter_events(z) if y.k == x.k and y.a[0] is x.a[0]) for z in rec.iters]
    return len(rec.iters) == 1 and mine == [1] and r.count(rec) == words


# ------------------------------------------------------------------ M05
CONFIG = {"slots": "num_simultaneous_requests", "bits": "bandwidth_in_bits", "latency": "latency"}


def config_of(b):
    """The bank's configured quantities."""
    p, e = b.p, b.e
    r = {}
    for i in range(p.nfields(b.self0.ty, 0)):
        t = p.field_ty(b.self0.ty, 0, i)
        if not (p.adt(t) or "").endswith("DRAMConfig"): continue
        c = e.step(b.st, b.self0, ("f", 0, i))
        for k, n in CONFIG.items():
            j = p.field_index(t, n)
            if j is not None: r[k] = e.resolve(b.st, e.step(b.st, c, ("f", 0, j)))
    return r


def at_least(b, s, lo, v, depth=0):
    """lo <= v, seeing through values that a loop only ever raises."""
    e = b.e
    v = e.resolve(s, v)
    if prove_le(s, lo, v): return True
    if depth > 4: return False
    if v.op == "phi" and v.a[0][0] in e.loops:
        rec = e.loops[v.a[0][0]]
        i0 = e.subst_phi(rec.init, v, rec)
        return older(lo, rec.serial) and at_least(b, rec.init, lo, i0, depth + 1) and all(prove_le(z, v, e.subst_phi(z, v, rec)) for z in rec.iters)
    if v.op == "op" and v.a[0] == "Add": return any(at_least(b, s, lo, x, depth + 1) for x in v.a[1:3])
    if v.op == "op" and v.a[0] == "max": return any(at_least(b, s, lo, x, depth + 1) for x in v.a[1:])
    return False


def inits(e, v, depth=0):
    """A term with the starting values of what it accumulates."""
    yield v
    for y in walk([v], 8):
        if y.op == "phi" and y.a[0][0] in e.loops and depth < 3:
            yield from inits(e, e.subst_phi(e.loops[y.a[0][0]].init, y, e.loops[y.a[0][0]]), depth + 1)


def total_bits(r, s, v, words):
    """Is a number the sum of the sizes of all words of the request?"""
    b, e = r.b, r.b.e
    if v.op == "op" and v.a[0] == "sum" and v.a[1].op == "loopval":
        rec = e.loops[v.a[1].a[0]]
        parts = [(z, w) for z, w in rec.results]
    elif v.op == "phi" and v.a[0][0] in e.loops:
        rec = e.loops[v.a[0][0]]
        i0 = e.subst_phi(rec.init, v, rec)
        if not (isc(i0) and i0.a[0] == 0): return False
        parts = []
        for z in rec.iters:
            w = e.subst_phi(z, v, rec)
            if w.op != "op" or w.a[0] != "Add" or not any(x is v for x in w.a[1:]): return False
            parts += [(z, x) for x in w.a[1:] if x is not v]
    else: return False
    if r.count(rec) != words or not parts: return False
    for z, w in parts:
        c = r.calls.get(w)
        if c is None or not c[0].a[0].endswith("dam_size"): return False
        if r.content(z, c[0].a[4][0], ((rec, z),)) is None: return False
    return True


@rule("M05")
def m05(rep):
    rep.rule("On every path of the DRAM bank that serves a request: the access starts at the later of (clock after taking the request and its data + latency) and (the latest recorded request slot), as an equality of terms; the transfer takes the cast of (sum of the sizes of exactly the transferred words) / bandwidth; a write is recorded and acknowledged, and data and the slot's release are stamped, no earlier than the end of the transfer, read data in increasing cycles. A slot is added only where the number of occupied slots is provably below the configured number, slots are released from the oldest on and only after the clock has reached their end.")
    n = 0
    for b in pipes(rep, ("DRAM",)):
        e, tl, name = b.e, b.tl, b.name
        cfg = config_of(b)
        if not rep.ok(len(cfg) == 3, "config", "the configuration of the DRAM bank cannot be found", b.site): continue
        slots = {b.own(s, x.a[0]) for s in b.loop.iters for x in b.loop.iter_events(s) if x.k == "push"} - {None}
        if not rep.ok(len(slots) == 1, "slots", "the DRAM bank does not keep one list of occupied request slots", b.site): continue
        slot = next(iter(slots))
        for s, evs, ops in b.rounds():
            mine = [x for x in evs if x.k in ("push", "pop", "insert", "resize") and b.own(s, x.a[0]) == slot]
            first = next((i for i, x in enumerate(evs) if x.k in ("dequeue", "next_event") or x.k == "loop"), len(evs))
            for x in mine:
                if x.k == "pop":
                    vs = oldest(e, s, x.a[1])
                    rep.ok(x.a[2].endswith("pop_front"), "oldest", "the DRAM bank releases another request slot than the oldest", b.site)
                    rep.ok(any(prove_le(s, v, b.clock_end(s) if first == len(evs) else b.clock_at(b.loop, s, evs, max(first, evs.index(x)))) for v in vs), "reached", "the DRAM bank releases a request slot before its transfer ends", b.site)
                elif x.k != "push": rep.fail("slots", "the DRAM bank does not keep one list of occupied request slots", b.site)
            if not ops: continue
            n += 1
            r = Request(b, s, evs, ops)
            acc = [(x, ch) for x, ch in ops if x.k in ("store_read", "store_write")]
            push = [x for x in mine if x.k == "push"]
            if not rep.ok(len(acc) == 1 and len(push) == 1 and r.kind is not None, "shape", "the DRAM bank does not perform one access and occupy one slot per request", b.site): continue
            x, ch = acc[0]
            st = ch[-1][1] if ch else s
            write = x.k == "store_write"
            T = e.resolve(st, x.a[3] if write else x.a[2])
            i = next(k for k, y in enumerate(evs) if y is x or ch and y.k == "loop" and y.a[0] is ch[0][0])
            # when the transfer may start
            base = tl.add(e, s, b.clock_at(b.loop, s, evs, i), cfg["latency"])
            # every part of the request has been taken by then
            for q, l in r.kind.items():
                if l.side == "recv": rep.ok(all(order(evs, y, c) < i for y, c in r.leaf.get(q, [])), "early:" + (l.name or ""), "the DRAM bank starts a transfer before it has taken the whole request", b.site)
            W = push[0].a[2]
            k = e.length(s, W)
            start = base
            if not (isc(k) and k.a[0] == 0 or prove_le(s, k, const(0, k.ty))):
                last = e.resolve(s, e.step(s, W, ("ix", e.binop(s, "Sub", k, const(1, k.ty), k.ty))))
                start = e.mxn(s, "max", base, last)
                rep.ok(prove_le(s, last, T), "previous", "the DRAM bank starts a transfer before the previous one ended", b.site)
            rep.ok(prove_le(s, base, T), "latency", "the DRAM bank accesses its memory before the configured latency has passed", b.site)
            # how long it takes
            words = None
            size = r.role("size")
            if size: words = {("of", size[0]): 1}
            cand = []
            times = [T, push[0].a[1]] + [stamp(b, c[-1][1] if c else s, y.a[3])[0] for q, l in r.kind.items() if l.side == "send" for y, c in r.leaf.get(q, []) if y.k == "enqueue"]
            for v in times:
                for w in inits(e, v):
                    for y in walk([w], 10):
                        d = y.a[1] if y.op == "op" and y.a[0] == "cast" else y
                        if d.op == "op" and d.a[0] == "Div" and eq_terms(s, d.a[2], cfg["bits"]) and y not in cand: cand.append(y)
            good = [y for y in cand if total_bits(r, s, (y.a[1] if y.a[0] == "cast" else y).a[1], words)]
            if not rep.ok(bool(good), "bandwidth:" + ("write" if write else "read"), "the DRAM bank's %ss do not take their size divided by the bandwidth" % ("write" if write else "read"), b.site): continue
            end = [tl.add(e, s, start, y) for y in good]
            if write:
                rep.ok(any(eq_terms(s, T, y) for y in end), "start:write", "a write does not end at the later of latency and previous transfer plus its transfer time", b.site)
                end = [T]
            else: rep.ok(eq_terms(s, T, start), "start:read", "a read does not start at the later of latency and previous transfer", b.site)
            rep.ok(any(at_least(b, s, y, push[0].a[1]) for y in end), "release", "the DRAM bank frees a request slot before the transfer ends", b.site)
            for q, l in r.kind.items():
                if l.side != "send": continue
                for y, c in r.leaf.get(q, []):
                    z = c[-1][1] if c else s
                    tm = stamp(b, z, y.a[3])[0]
                    rep.ok(any(at_least(b, z, w, tm) for w in end), "answer:" + (l.name or ""), "the DRAM bank answers before the transfer has ended", b.site)
                    if c: rep.ok(rising(b, c[-1][0], y), "increasing", "the DRAM bank sends two words of one read in the same cycle", b.site)
            # slots
            s2 = s.copy()
            m = [y for y in walk([W], 6) if y.op == "phi" and y.a[0][0] == b.loop.serial]
            if m:
                e.le(s2, e.length(s2, m[0]), cfg["slots"]); e.le(s2, const(1, k.ty), cfg["slots"])
                for t, val in list(s2.truth.items()):
                    if t.op == "op" and t.a[0] == "Eq" and val == 0:
                        for x, y in (t.a[1:], t.a[:0:-1]):
                            if prove_le(s2, x, y): e.le(s2, x, y, 0, True)
            if prove_le(s2, cfg["slots"], const(0, k.ty)): continue     # a bank without slots
            rep.ok(bool(m) and room(e, s2, W, cfg["slots"], b.loop.serial), "outstanding", "the DRAM bank accepts more requests than it is configured for", b.site)
    rep.floor("accesses", n, 2)


def oldest(e, s, v):
    """A value taken from the front of a queue is its first element."""
    r = [v]
    for y in walk([v], 3):
        if y.op == "op" and y.a[0] == "popped": r.append(e.resolve(s, e.step(s, y.a[1], ("ix", const(0, e.p.usize_ty)))))
    return r


def room(e, s, W, slots, serial):
    """Fewer slots are occupied than there are."""
    n = e.length(s, W)
    if strictly(e, s, n, slots): return True
    # one was released from at most all of them
    if W.op == "popd" and W.a[0].op == "phi" and W.a[0].a[0][0] == serial: return prove_le(s, e.length(s, W.a[0]), slots)
    return False


def order(evs, x, ch):
    return next((k for k, y in enumerate(evs) if y is x or ch and y.k == "loop" and y.a[0] is ch[0][0]), len(evs))


def rising(b, rec, ev):
    """Every iteration of a loop stamps its element later than the one before."""
    e = b.e
    for z in rec.iters:
        x = [y for y in rec.iter_events(z) if y.k == "enqueue" and y.a[0] is ev.a[0]]
        if len(x) != 1: return False
        tm = stamp(b, z, x[0].a[3])[0]
        ph = [y for y in walk([tm], 6) if y.op == "phi" and y.a[0][0] == rec.serial]
        if not any(strictly(e, z, y, tm) and prove_le(z, tm, e.subst_phi(z, y, rec)) for y in ph): return False
    return bool(rec.iters)
