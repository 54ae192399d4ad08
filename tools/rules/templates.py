"""M01-M06: the templates (datastore, memory unit, DRAM, processing unit)."""
from rules import rule
from rules.base import *
from rules.contexts import Body, OPS, alike, walk, tail, ended, has_ops, own_clocks, item_value, of_type, CTX
from rules.adapters import chan_engine, element_fields
from layers import TimeLayer


def one_const(e): return const(1, e.p.usize_ty)


# ------------------------------------------------------------------ datastore
class Store:
    """Roles of the datastore's fields, and runs of its functions with capacity == number of histories."""
    def __init__(self, rep):
        self.rep, p = rep, prog("main")
        self.p = p
        self.ty = p.find_adt("templates::datastore::Datastore")
        beh = p.find_adt("templates::datastore::Behavior")
        self.keys = {}
        for x in p.roots:
            if x.get("trait") is None and x.get("self") is not None and p.adt(x["self"]) == "templates::datastore::Datastore" and x["key"] in p.bodies and not x.get("derived"): self.keys[x["n"]] = x["key"]
        self.good = False
        if self.ty is None or beh is None or not {"new", "read", "write"} <= set(self.keys):
            rep.fail("anchor", "the datastore or its new/read/write functions cannot be found"); return
        ty = next(x["self"] for x in p.roots if x["key"] == self.keys["read"])
        self.ty = ty
        self.cap, self.beh, self.und = None, None, None
        for i in range(p.nfields(ty, 0)):
            t = p.field_ty(ty, 0, i)
            if p.tk(t) == "uint": self.cap = i
            elif p.adt(t) == "templates::datastore::Behavior": self.beh = i
            elif Engine(p).elem_ty(t) is not None and any(w in (p.adt(Engine(p).elem_ty(t)) or "") for w in ("RwLock", "Mutex")): self.und = i
        if self.beh is None or self.und is None:
            rep.fail("layout", "the datastore's behaviour or its locked histories cannot be found"); return
        names = [f[0] for f in p.types[p.field_ty(ty, 0, self.beh)]["vs"][0][2]]
        if not {"mod_address", "use_default_value"} <= set(names):
            rep.fail("layout:behavior", "the datastore's behaviour has no mod_address/use_default_value"); return
        self.mod_i, self.def_i = names.index("mod_address"), names.index("use_default_value")
        self.good = True

    def run(self, name):
        rep, p = self.rep, self.p
        e = engine(rep)
        TimeLayer(e)
        st = State()
        args = e.sym_args(self.keys[name], st)
        r = Obj()
        r.e, r.args, r.site = e, args, body_site(p, self.keys[name])
        if name != "new":
            r.self0 = e.load(st, *e.deref(st, args[0]))
            r.und = e.step(st, r.self0, ("f", 0, self.und))
            r.n = e.length(st, r.und)
            r.cap = e.step(st, r.self0, ("f", 0, self.cap)) if self.cap is not None else r.n
            b = e.step(st, r.self0, ("f", 0, self.beh))
            r.mod, r.dflt = e.step(st, b, ("f", 0, self.mod_i)), e.step(st, b, ("f", 0, self.def_i))
            e.le(st, r.n, r.cap); e.le(st, r.cap, r.n)
            tys = p.bodies[self.keys[name]]["l"][1:]
            for i, a in enumerate(args[1:], 1):
                if p.tk(a.ty) == "uint": r.addr = a
                elif p.adt(a.ty) == "datastructures::time::Time": r.time = a
                else: r.data = a
        r.outs = e.run_fn(self.keys[name], args, st)
        rep.use(e)
        return r


class Obj: pass


def fact(st, t): return 1 if isc(t) and t.a[0] else 0 if isc(t) else st.truth.get(t)


def strictly(e, st, a, b): return prove_le(st, a, b, 0, True) or prove_le(st, e.binop(st, "Add", a, const(1, a.ty), a.ty), b)


def address_ok(r, st, i):
    """Is the index the address, brought into range the way the behaviour says?"""
    e = r.e
    below = strictly(e, st, r.addr, r.cap) or strictly(e, st, r.addr, r.n)
    if i is r.addr: return below
    if i.op == "op" and i.a[0] == "Rem" and i.a[1] is r.addr and (i.a[2] is r.cap or i.a[2] is r.n): return below or fact(st, r.mod) == 1
    return False


def refused(r, st):
    """Does the address lie beyond the capacity with wrapping disabled, or is there no capacity at all?"""
    zero = any(prove_le(st, x, const(0, x.ty)) for x in (r.cap, r.n))
    return zero or fact(st, r.mod) == 0 and (prove_le(st, r.cap, r.addr) or prove_le(st, r.n, r.addr))


def locks(st): return [x for x in st.events() if x.k == "lock"]


def histories(r, st):
    """(lock kind, index, history) of every lock taken on one of the datastore's histories."""
    for x in locks(st):
        h = x.a[3]
        q = h
        while isinstance(q, V) and q.op == "fld": q = q.a[0]
        yield x, (q.a[1] if isinstance(q, V) and q.op == "elt" and q.a[0] is r.und else None), h


def infeasible(r, st):
    """Does a path contradict that a wrapped address is below the capacity?"""
    for t, v in st.truth.items():
        if v == 0 and t.op == "op" and t.a[0] == "Lt" and t.a[1].op == "op" and t.a[1].a[0] == "Rem" and t.a[1].a[2] in (r.cap, r.n) and t.a[2] in (r.cap, r.n): return True
        if v == 1 and t.op == "op" and t.a[0] == "Le" and t.a[2].op == "op" and t.a[2].a[0] == "Rem" and t.a[2].a[2] in (r.cap, r.n) and t.a[1] in (r.cap, r.n): return True
    return False


def grown(e, st, v, n):
    """What each round adds to a vector that a loop fills with exactly n elements, one a round: [(state, element)], or None."""
    rec = e.loops.get(v.a[0][0]) if v.op == "phi" else None
    if rec is None or rec.entry is None or n is None or e.subst_phi(rec.init, v, rec).op != "empty": return None
    r = []
    for s in rec.iters:
        w = e.subst_phi(s, v, rec)
        if w.op != "push" or w.a[0] is not v: return None
        r.append((s, e.resolve(s, w.a[1])))
    d = Drive(rec, e)
    if d.src is not None:
        k = e.iter_len(rec.init, d.src)
        return r if k is not None and not d.early and eq_terms(st, k, n) else None
    # while v.len() < n, or with a counter of its own
    size = e.length(rec.entry, v)
    for i in [size] + [x for x in rec.entry.mem.values() if x.op == "phi" and x.a[0][0] == rec.serial and x.ty is not None and e.p.tk(x.ty) == "uint"]:
        if i is not size and not (isc(e.subst_phi(rec.init, i, rec)) and e.subst_phi(rec.init, i, rec).a[0] == 0): continue
        if i is not size and not all(eq_terms(s, e.subst_phi(s, i, rec), e.binop(s, "Add", i, const(1, i.ty), i.ty)) for s in rec.iters): continue
        below = mk("op", ("Lt", i, n), e.p.bool_ty)
        if all(e.decide(s, below) == 1 for s in rec.iters) and e.decide(st, below) == 0: return r
    return None


@rule("M02")
def m02(rep):
    rep.rule("Datastore::new makes capacity empty histories. On every returning path of write exactly one history is locked exclusively, at the index addr when addr is known to be below the capacity and addr modulo capacity when wrapping is on; exactly (data, time) is pushed to it once, and the path knows that the history was empty or its last entry is strictly older. Every panic of write is one of: address beyond the capacity without wrapping, no capacity, last entry not older. Reads use the same index rule. No other function changes a history, and no field of the datastore is reachable from outside.")
    s = Store(rep)
    if not s.good: return
    p = s.p
    n = 0
    # construction
    r = s.run("new")
    for o in r.outs:
        if not rep.ok(o.kind == "ret", "new:panics", "creating a datastore can panic", r.site): continue
        e = r.e
        v = e.resolve(o.st, o.val)
        und = e.step(o.st, v, ("f", 0, s.und))
        cap = next((a for a in r.args if p.tk(a.ty) == "uint"), None)
        beh = next((a for a in r.args if p.adt(a.ty) == "templates::datastore::Behavior"), None)
        ln = e.length(o.st, und)
        w = e.resolve(o.st, und)
        loop = grown(e, o.st, w, cap)
        rep.ok(cap is not None and (loop is not None or ln is not None and eq_terms(o.st, ln, cap)), "new:histories", "a new datastore does not have one history per address", r.site)
        if s.cap is not None: rep.ok(eq_terms(o.st, e.step(o.st, v, ("f", 0, s.cap)), cap), "new:capacity", "a new datastore records another capacity than it was given", r.site)
        rep.ok(alike(e.resolve(o.st, e.step(o.st, v, ("f", 0, s.beh))), e.resolve(o.st, beh)), "new:behavior", "a new datastore records another behaviour than it was given", r.site)
        if loop is not None: some = loop
        elif w.op == "collect" and w.a[0] in e.loops and e.loops[w.a[0]].results: some = [(bs, e.resolve(bs, x)) for bs, x in e.loops[w.a[0]].results]
        else: some = [(o.st, e.resolve(o.st, e.step(o.st, und, ("ix", sym("i", p.usize_ty)))))]
        rep.ok(all(x.op == "cell" and e.resolve(bs, x.a[0]).op == "empty" for bs, x in some), "new:empty", "the histories of a new datastore are not empty", r.site)
        n += 1
    # writes
    r = s.run("write")
    e = r.e
    ti = di = None
    done = 0
    for o in r.outs:
        st = o.st
        n += 1
        hs = list(histories(r, st))
        pushes = [x for x in st.events() if x.k == "push"]
        if o.kind != "ret":
            if refused(r, st) or infeasible(r, st): continue
            ok = False
            for x, i, h in hs:
                ln = e.length(st, h)
                last = [t for t in elements_known(st, h) if ln is not None and eq_terms(st, e.binop(st, "Add", t.a[1], const(1, p.usize_ty), p.usize_ty), ln)]
                ok = ok or any(prove_le(st, r.time, time_of(e, st, t)) for t in last)
            rep.ok(ok, "write:panics", "a write can panic although its address is in bounds and it is later than the last write there", r.site)
            rep.ok(not pushes, "write:kept", "a write that panics has already changed the history", r.site)
            continue
        done += 1
        if not rep.ok(len(hs) == 1, "write:lock", "a write does not hold one history locked from its check to its change", r.site): continue
        x, i, h = hs[0]
        rep.ok(x.a[0] in ("write", "lock"), "write:exclusive", "a write does not lock the history exclusively", r.site)
        rep.ok(i is not None and address_ok(r, st, i), "write:address", "a write goes to another address than the one asked for (wrapped modulo the capacity)", r.site)
        if not rep.ok(len(pushes) == 1, "write:once", "a write does not append exactly one entry", r.site): continue
        q = pushes[0]
        rep.ok(q.a[2] is h, "write:history", "a write appends to something else than the locked history", r.site)
        v = e.resolve(st, q.a[1])
        ti, di = element_fields(p, v.ty)
        rep.ok(e.resolve(st, e.step(st, v, ("f", 0, ti))) is r.time and alike(e.resolve(st, e.step(st, v, ("f", 0, di))), r.data), "write:entry", "a write records something else than its value and time", r.site)
        al, path = e.deref(st, q.a[0])
        now = e.resolve(st, e.load(st, al, path))
        rep.ok(now.op == "push" and now.a[0] is h, "write:appends", "a write leaves the history with something else than one more entry", r.site)
        ln = e.length(st, h)
        older = prove_le(st, ln, const(0, p.usize_ty))
        for t in elements_known(st, h):
            if eq_terms(st, e.binop(st, "Add", t.a[1], const(1, p.usize_ty), p.usize_ty), ln): older = older or strictly(e, st, time_of(e, st, t), r.time)
        rep.ok(older, "write:order", "a write is recorded although it is not later than the last write to its address", r.site)
    rep.ok(done > 0, "write:never", "a write never succeeds", r.site)
    # reads use the same address
    r = s.run("read")
    for o in r.outs:
        n += 1
        hs = list(histories(r, o.st))
        if o.kind != "ret":
            rep.ok(refused(r, o.st) or infeasible(r, o.st) or hs, "read:panics", "a read can panic although its address is in bounds", r.site)
            continue
        if not rep.ok(len(hs) == 1, "read:lock", "a read does not look at exactly one history", r.site): continue
        rep.ok(hs[0][1] is not None and address_ok(r, o.st, hs[0][1]), "read:address", "a read looks at another address than the one asked for (wrapped modulo the capacity)", r.site)
    # nothing else changes a datastore
    for name, key in sorted(s.keys.items()):
        if name in ("new", "write"): continue
        e = engine(rep)
        TimeLayer(e)
        st = State()
        args = e.sym_args(key, st)
        for o in e.run_fn(key, args, st):
            n += 1
            bad = [x for x in o.st.events() if x.k in ("push", "insert", "remove", "clear", "truncate", "pop") or x.k == "lock" and x.a[0] != "read" and not x.a[0].startswith("try_read")]
            rep.ok(not bad, name + ":changes", "%s can change a history" % name, body_site(p, key))
        rep.use(e)
    for i, f in enumerate(p.types[s.ty]["vs"][0][2]):
        rep.ok(f[2] != "Public" if len(f) > 2 and isinstance(f[2], str) else True, "field:%d" % i, "a field of the datastore can be changed from outside", r.site)
    rep.floor("datastore paths", n, 12)


def elements_known(st, h):
    """Elements of a history that a path knows something about."""
    seen = []
    for t in list(st.truth) + list(st.var) + [x for f in st.ord for x in f[:2] if x is not None]:
        for y in walk([t], 6):
            if y.op == "elt" and y.a[0] is h and y not in seen: seen.append(y)
    return seen


def time_of(e, st, el):
    ti, di = element_fields(e.p, el.ty)
    return e.resolve(st, e.step(st, el, ("f", 0, ti)))


def data_of(e, st, el):
    ti, di = element_fields(e.p, el.ty)
    return e.resolve(st, e.step(st, el, ("f", 0, di)))


class Scan:
    """What a loop over a history learns about the elements it goes past."""
    def __init__(self, e, rec, h, time):
        self.e, self.rec = e, rec
        self.over = False
        self.takes, self.skips, self.bad = [], [], False
        self.index = None
        rev = None
        d = None
        for s in rec.iters:
            el = rev1 = None
            flips = 0
            for x in rec.iter_events(s):
                if x.k == "reversed": flips += 1
                if x.k == "next":
                    r = coll_src(x.a[0])
                    if r is None or r[3] is not h: continue
                    if el is not None: self.bad = True
                    el = self.elem(s, x, h)
                    rev1 = flips % 2 == 1
            if el is None:
                if d is None: d = self.by_index(h) or ()
                if d: el, rev1 = d
            if el is None: self.bad = True; continue
            self.over = True
            if rev is None: rev = rev1
            elif rev != rev1: self.bad = True
            t = time_of(e, s, el)
            if prove_le(s, t, time): self.takes.append((s, el))
            elif strictly(e, s, time, t): self.skips.append((s, el))
            else: self.bad = True
        if rev is None:     # every iteration leaves
            r = coll_src(rec.src) if rec.src is not None else None
            rev = r is not None and r[4].count("rev") % 2 == 1
        self.rev = rev

    def by_index(self, h):
        """A counter that goes over the entries upwards from 0 or downwards from their number: (entry looked at, downwards)."""
        e, rec = self.e, self.rec
        if rec.entry is None: return None
        for al, i in rec.entry.mem.items():
            if i.op != "phi" or i.a[0][0] != rec.serial or i.ty is None or e.p.tk(i.ty) != "uint": continue
            i0 = e.subst_phi(rec.init, i, rec)
            one = const(1, i.ty)
            nxt = [(s, e.subst_phi(s, i, rec)) for s in rec.iters]
            if isc(i0) and i0.a[0] == 0 and all(eq_terms(s, x, e.binop(s, "Add", i, one, i.ty)) for s, x in nxt):
                self.index = i
                return e.step(rec.entry, h, ("ix", i)), False
            if eq_terms(rec.init, i0, e.length(rec.init, h)) and all(eq_terms(s, e.binop(s, "Add", x, one, i.ty), i) for s, x in nxt):
                self.index = i
                return e.step(rec.entry, h, ("ix", e.binop(rec.iters[0], "Sub", i, one, i.ty))), True
        return None

    def leave(self, st, h, evs):
        """How a path left the loop: (entry it stopped at, ran to the end)."""
        e = self.e
        if self.index is not None:
            i = self.index
            if self.rev:
                if prove_le(st, i, const(0, i.ty)): return None, True
                return e.step(st, h, ("ix", e.binop(st, "Sub", i, const(1, i.ty), i.ty))), False
            if prove_le(st, e.length(st, h), i): return None, True
            return e.step(st, h, ("ix", i)), False
        for y in evs:
            if y.k in ("next", "exhausted") and coll_src(y.a[0]) is not None and coll_src(y.a[0])[3] is h:
                if y.k == "next": return self.elem(st, y, h), False
                return None, True
        return None, False

    def elem(self, s, x, h):
        v = x.a[1]
        if x.a[2] is not None: return self.e.step(s, h, ("ix", x.a[2]))
        v = self.e.resolve(s, v)
        return self.e.resolve(s, self.e.load(s, *self.e.deref(s, v))) if v.op == "ref" else v


@rule("M01")
def m01(rep):
    rep.rule("Every path of Datastore::read that returns data returns the data of an entry of the locked history which the path (by its own comparisons, or by what every step of its search established for the entries it went past) knows to be stamped at or before the time, with the next entry, if any, stamped after it; every path that returns the default has use_default_value on and knows that no entry is at or before the time; every panic has it off and knows the same, or is an address error.")
    s = Store(rep)
    if not s.good: return
    p = s.p
    r = s.run("read")
    e = r.e
    n = got = none = 0
    for o in r.outs:
        st = o.st
        hs = [h for x, i, h in histories(r, st)]
        if o.kind != "ret" and (refused(r, st) or infeasible(r, st)): continue
        n += 1
        if not rep.ok(len(hs) == 1, "lock", "a read does not look at exactly one history", r.site): continue
        k = Known(e, st, hs[0], r.time)
        if o.kind == "ret":
            v = e.resolve(st, o.val)
            el = k.entry_of(v)
            if el is not None:
                got += 1
                rep.ok(k.at_or_before(el), "future", "a read can return a value that is written later than its time", r.site)
                rep.ok(k.latest(el), "stale", "a read can return an older value although a later write at or before its time is recorded", r.site)
                continue
            c = k.carried(v)
            if c is not None:
                got += 1
                rep.ok(c, "stale", "a read can return another value than the last one written at or before its time", r.site)
                continue
            isd = v.op == "op" and v.a[0] == "default" or v.op in ("app", "sym") and "default" in show(v)
            if not rep.ok(isd, "invented", "a read returns something that is neither a recorded value nor the default", r.site): continue
            none += 1
            rep.ok(fact(st, r.dflt) == 1, "default:off", "a read returns a default value although that behaviour is off", r.site)
            rep.ok(k.nothing(), "default:lost", "a read returns the default although a write at or before its time is recorded", r.site)
        else:
            none += 1
            rep.ok(k.nothing(), "panics:lost", "a read panics although a write at or before its time is recorded", r.site)
            rep.ok(fact(st, r.dflt) == 0, "panics:on", "a read panics although a default value is wanted", r.site)
    rep.floor("reads of a recorded value", got, 1)
    rep.floor("reads with nothing recorded", none, 1)


def rebuild(e, st, v, ph, new):
    """The value with the loop-carried part replaced."""
    if v is ph: return new
    if v.op == "fld":
        b = rebuild(e, st, v.a[0], ph, new)
        if b is v.a[0]: return v
        if v.a[1] == "*": return e.resolve(st, e.load(st, *e.deref(st, b))) if b.op == "ref" else b
        return e.resolve(st, e.step(st, b, ("f", v.a[1], v.a[2])))
    if v.op == "elt":
        i = rebuild(e, st, v.a[1], ph, new)
        return v if i is v.a[1] else e.resolve(st, e.step(st, v.a[0], ("ix", i)))
    return v


class Known:
    """What a path knows about the entries of a history relative to a time."""
    def __init__(self, e, st, h, time):
        self.e, self.st, self.h, self.time = e, st, h, time
        self.len = e.length(st, h)
        self.scans = []
        evs = st.events()
        for k, x in enumerate(evs):
            if x.k != "loop": continue
            sc = Scan(e, x.a[0], h, time)
            r = coll_src(x.a[0].src) if x.a[0].src is not None else None
            if not (sc.over or r is not None and r[3] is h): continue
            sc.stop, sc.end = sc.leave(st, h, evs[k + 1:])
            names = set(r[4]) if r is not None else set()
            if names - {"rev", "map", "inspect", "enum", "copied", "byref", "take_while", "filter"}: sc.bad = True
            if not sc.bad: self.scans.append(sc)

    def entry_of(self, v):
        if v.op == "fld" and v.a[0].op == "elt" and v.a[0].a[0] is self.h and v is data_of(self.e, self.st, v.a[0]): return v.a[0]
        return None

    def carried(self, v):
        """Is the value what a loop carries along: the data of the last entry it took?  None when it is no such value."""
        e, st = self.e, self.st
        for ph in walk([v], 6):
            if ph.op != "phi" or (e.p.adt(ph.ty) or "") != "core::option::Option" or st.var.get(ph) != 1: continue
            for sc in self.scans:
                if sc.rec.serial != ph.a[0][0]: continue
                if not self.starts_empty(sc.rec, ph): return False
                if sc.rev: return False
                for s, el in sc.takes:
                    new = e.resolve(s, e.subst_phi(s, ph, sc.rec))
                    if new.op != "agg" or new.a[0] != 1 or rebuild(e, s, v, ph, new) is not data_of(e, s, el): return False
                for s, el in sc.skips:
                    if e.resolve(s, e.subst_phi(s, ph, sc.rec)) is not ph: return False
                return sc.end or sc.stop is not None and self.gt(sc.stop)
        return None

    def starts_empty(self, rec, ph):
        i = self.e.resolve(rec.init, self.e.subst_phi(rec.init, ph, rec))
        return i.op == "agg" and i.a[0] == 0

    def le(self, el): return prove_le(self.st, time_of(self.e, self.st, el), self.time)
    def gt(self, el): return strictly(self.e, self.st, self.time, time_of(self.e, self.st, el))

    def entries(self, i):
        """Terms for the entry at an index."""
        yield self.e.step(self.st, self.h, ("ix", i))
        for t in elements_known(self.st, self.h):
            if eq_terms(self.st, t.a[1], i): yield t

    def at_or_before(self, el):
        if any(self.le(x) for x in self.entries(el.a[1])): return True
        for sc in self.scans:
            if not sc.skips and (sc.end or sc.stop is not None and self.below(el.a[1], sc.stop.a[1])) and not sc.rev: return True
            if not sc.skips and sc.end: return True
        return False

    def below(self, i, j): return strictly(self.e, self.st, i, j)

    def latest(self, el):
        e, st = self.e, self.st
        nxt = e.binop(st, "Add", el.a[1], one_const(e), el.a[1].ty)
        if prove_le(st, self.len, nxt): return True
        if any(self.gt(x) for x in self.entries(nxt)): return True
        for x in st.events():
            if x.k != "reduce" or x.a[0] != "last" or len(x.a) < 4 or x.a[3] is None: continue
            v = e.resolve(st, x.a[3])
            if v.op == "ref": v = e.resolve(st, e.load(st, *e.deref(st, v)))
            for sc in self.scans:
                if sc.rec is x.a[2] and v is el and not sc.rev and not sc.skips and self.all_exits(sc): return True
        for sc in self.scans:
            if sc.takes: continue
            if sc.end: return True
            if sc.rev and sc.stop is not None and prove_le(st, sc.stop.a[1], el.a[1]): return True
        return False

    def all_exits(self, sc):
        """Every way to leave the loop is at the end or at an entry after the time."""
        for o in sc.rec.exits:
            if o[0] == "panic": continue
            stop, end = sc.leave(o[1], self.h, since(o[1], sc.rec))
            if not end and not (stop is not None and strictly(self.e, o[1], self.time, time_of(self.e, o[1], stop))): return False
        return True

    def nothing(self):
        e, st = self.e, self.st
        if any(x.k == "reduce" and x.a[0] == "last" and x.a[3] is None and any(sc.rec is x.a[2] and not sc.rev and not sc.skips and self.all_exits(sc) for sc in self.scans) for x in st.events()): return True
        for sc in self.scans:
            # an accumulator that is still empty: nothing was taken
            if sc.rev or not (sc.end or sc.stop is not None and self.gt(sc.stop)): continue
            for ph, k in st.var.items():
                if k == 0 and ph.op == "phi" and ph.a[0][0] == sc.rec.serial and (e.p.adt(ph.ty) or "") == "core::option::Option" and self.starts_empty(sc.rec, ph) \
                        and all(e.resolve(s, e.subst_phi(s, ph, sc.rec)).op == "agg" and e.resolve(s, e.subst_phi(s, ph, sc.rec)).a[0] == 1 for s, el in sc.takes): return True
        zero = const(0, e.p.usize_ty)
        if prove_le(st, self.len, zero): return True
        if any(self.gt(x) for x in self.entries(zero)): return True
        return any(sc.end and not sc.takes for sc in self.scans)
