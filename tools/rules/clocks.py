"""K01-K05: context clocks, their waiters and their release."""
from rules import rule
from rules.base import *
from rules.time_values import TV, REL
from layers import TimeLayer, LogLayer, ClockLayer

MGR = "view::basic::TimeManager"
BASIC = "<view::basic::BasicContextView as view::ContextView>::"
WRITES = ("store", "swap", "compare_exchange", "compare_exchange_weak", "compare_and_swap", "get_mut", "into_inner", "as_ptr", "fetch_update", "get_mut_slice", "from_ptr")
RELEASE = ("Release", "AcqRel", "SeqCst")
ACQUIRE = ("Acquire", "AcqRel", "SeqCst")


def is_atomic_write(c):
    p = c["p"]
    if not p.startswith("core::sync::atomic::"): return False
    return c["n"] in WRITES or c["n"].startswith("fetch_")


def clock_ops(p):
    """The four operations a clock has: name -> body key."""
    r = {}
    for n in ("advance", "incr_cycles", "cleanup", "tick"):
        r[n] = root(p, MGR + "::" + n)
    for x in p.roots:
        if x.get("trait") == "core::ops::drop::Drop" and x.get("self") == p.find_adt(MGR): r["drop"] = x["key"]
    return r


class Clock:
    """A symbolic clock manager and how to read its clock in a state."""
    def __init__(self, e, ops):
        self.e, self.ops = e, ops
        self.tv = TV(e.p)
        self.st = State()
        self.al = e.new_alloc(self.st, named("mgr", e.p.find_adt(MGR)))
        self.ref = e.ref(self.al, ())

    def read(self, st):
        s = st.copy()
        fa, self.e.fresh_atomics = self.e.fresh_atomics, False
        mg, self.e.merge = self.e.merge, True
        outs = self.e.run_fn(self.ops["tick"], [self.ref], s)
        self.e.fresh_atomics, self.e.merge = fa, mg
        outs = [o for o in outs if o.kind == "ret"]
        if len(outs) != 1: return None
        v = outs[0].val
        return v if v.op == "agg" else self.e.expand(v)

    def cells(self):
        """Memory cells the clock reading depends on."""
        s = self.st.copy()
        outs = self.e.run_fn(self.ops["tick"], [self.ref], s)
        return {x.a[1] for o in outs for x in o.st.events() if x.k == "atomic"}


def parts(e, st, tv, v):
    return e.step(st, v, ("f", 0, tv.ti)), e.step(st, v, ("f", 0, tv.di))


def time_le(e, st, tv, a, b):
    """Possible truth values of a <= b for two time values."""
    (ta, da), (tb, db) = parts(e, st, tv, a), parts(e, st, tv, b)
    r = set()
    for s, x in e.truth_split(st, db):
        if x: r.add(1); continue
        for s2, y in e.truth_split(s, da):
            if y: r.add(0); continue
            for s3, z in e.truth_split(s2, mk("op", ("Le", ta, tb), e.p.bool_ty)): r.add(z)
    return r


def ops_ok(rep, p):
    ops = clock_ops(p)
    good = True
    for n in ("advance", "incr_cycles", "cleanup", "tick", "drop"):
        good &= rep.ok(ops.get(n) is not None, "anchor:" + n, "clock operation %s not found" % n)
    tv = TV(p)
    good &= rep.ok(tv.ti is not None and tv.di is not None, "layout", "the time value is no longer one tick count plus one infinity flag")
    return ops if good else None


@rule("K01")
def k01(rep):
    rep.rule("From every clock state (finite or infinite) and every argument, advance leaves max(clock, argument), incr_cycles adds exactly its argument, finishing leaves infinity; "
             "and only these operations can reach a write of the clock (reverse call graph of all functions that touch the clock atomics and write).")
    for config in ("main", "cycle"):
        p = prog(config)
        ops = ops_ok(rep, p)
        if ops is None: return
        one_config(rep, p, config, ops)
        census(rep, p, config, ops)


def one_config(rep, p, config, ops):
    tv = TV(p)
    B = p.bool_ty
    for name in ("advance", "incr_cycles", "cleanup", "tick", "drop"):
        site = body_site(p, ops[name])
        for d0 in (0, 1):
            for d1, r in ([(d, r) for d in (0, 1) for r in (-1, 0, 1)] if name == "advance" else [(0, 0)]):
                e = engine(rep, config)
                LogLayer(e)
                ck = Clock(e, ops)
                c0 = ck.read(ck.st)
                if not rep.ok(c0 is not None, "tick", "reading the clock has no single value", site): return
                t0, i0 = tv.ticks(c0), tv.inf(c0)
                st = ck.st.copy()
                e.assume(st, i0, d0)
                arg = None
                if name == "advance":
                    arg = tv.make("new", d1)
                    x, y = t0, tv.ticks(arg)
                    e.assume(st, mk("op", ("Eq", x, y), B) if r == 0 else mk("op", ("Lt",) + ((x, y) if r < 0 else (y, x)), B), 1)
                elif name == "incr_cycles": arg = named("cycles", p.u64_ty)
                outs = e.run_fn(ops[name], [ck.ref] + ([arg] if arg is not None else []), st)
                rep.count("paths", len(outs))
                rep.use(e)
                case = "%s:%s%s" % (name, "inf" if d0 else "fin", "" if name != "advance" else "/" + ("inf" if d1 else "fin") + {-1: ">", 0: "=", 1: "<"}[r])
                rep.ok(len(outs) > 0, case + ":none", "%s never returns" % name, site)
                for o in outs:
                    if not rep.ok(o.kind == "ret", case + ":panic", "%s can panic (clock %s)" % (name, "infinite" if d0 else "finite"), site): continue
                    c1 = ck.read(o.st)
                    if not rep.ok(c1 is not None, case + ":read", "clock unreadable after %s" % name, site): continue
                    t1, i1 = tv.ticks(c1), e.decide(o.st, tv.inf(c1))
                    if d0 or name in ("cleanup", "drop") or (name == "advance" and d1):
                        rep.ok(i1 == 1, case + ":inf", "%s leaves a clock finite that %s" % (name, "was infinite" if d0 else "should be infinite"), site)
                    else:
                        rep.ok(i1 == 0, case + ":fin", "%s makes a finite clock infinite" % name, site)
                    if d0 or i1 == 1: continue
                    if name == "advance": want, text = (tv.ticks(arg), "move the clock exactly to the later time") if r < 0 else (t0, "leave the clock alone for an earlier or equal time")
                    elif name == "incr_cycles": want, text = e.binop(o.st, "Add", t0, arg, p.u64_ty), "add exactly the given cycles"
                    elif name == "tick": want, text = t0, "leave the clock alone"
                    else: continue
                    rep.ok(t1 is want or (prove_le(o.st, t1, want) and prove_le(o.st, want, t1)), case + ":ticks", "%s does not %s" % (name, text), site)
                    if name == "tick" and o.val.op == "agg":
                        rep.ok(tv.ticks(o.val) is t0, "tick:value", "tick does not return the clock", site)


def census(rep, p, config, ops):
    at = p.find_adt("datastructures::time::AtomicTime")
    # the cells of the clock are found by type: whatever struct the manager's shared state holds
    touch = set()
    cal = callees_of(p)
    wr = {k for k, b in p.bodies.items() if any(bb[1][0] == "call" and isinstance(bb[1][1], int) and is_atomic_write(p.callees[bb[1][1]]) for bb in b["bb"])}
    clock_tys = clock_types(p)
    for k, b in p.bodies.items():
        if touches(p, b, clock_tys): touch.add(k)
    rep.ok(len(touch) > 0, "census:touch", "no function touches the clock state: the census lost its subject")
    writers = set()
    for k in touch:
        seen, work = {k}, [k]
        while work:
            x = work.pop()
            if x in wr: writers.add(k); break
            for y in cal.get(x, ()):
                if y not in seen: seen.add(y); work.append(y)
    # restrict to functions whose own atomic-field projection leads to a write: the touchers that are loads only drop out above
    allowed = {ops[n] for n in ("advance", "incr_cycles", "cleanup", "drop")}
    rb = roots_by_key(p)
    direct = {k for k in touch if field_writer(p, k, clock_tys, wr, cal)}
    rep.floor("clock writers (%s)" % config, len(direct), 2)
    up = reaches(p, direct - allowed, allowed)
    for k in sorted(up):
        r = rb.get(k)
        if r is not None and r.get("reach") and r["kind"] != "const":
            rep.ok(False, "writer:" + r["p"], "%s can change a context's clock but is not one of the clock operations" % r["p"], body_site(p, k))
    rep.count("functions on the way to a clock write", len(up))
    # replacing a manager wholesale would also reset its clock
    mt = p.find_adt(MGR)
    for k, b in p.bodies.items():
        if not b["local"] or b.get("mac"): pass
        for bb in b["bb"]:
            for s in bb[0]:
                if s[0] == "=" and isinstance(s[1], list) and s[1][1]:
                    last = s[1][1][-1]
                    if isinstance(last, list) and last[0] == "f" and (last[2] == mt or p.tk(last[2]) == "adt" and has_type(p, last[2], clock_tys) and p.adt(last[2]) in ("alloc::sync::Arc",)):
                        rep.ok(False, "reset:" + b["p"], "a clock manager is replaced after construction", (b["p"], b["file"], s[3]))
            t = bb[1]
            if t[0] == "call" and isinstance(t[1], int):
                c = p.callees[t[1]]
                if c["p"].startswith("core::mem::") and c["n"] in ("replace", "swap", "take") and c["a"] and (c["a"][0] == mt or c["a"][0] in clock_tys):
                    rep.ok(False, "reset:" + b["p"], "a clock manager is replaced after construction", (b["p"], b["file"], t[5]))


def has_type(p, ty, tys, d=0):
    if ty in tys: return True
    t = p.types[ty]
    if d > 4: return False
    if t["k"] == "adt": return any(has_type(p, a, tys, d + 1) for a in t["a"])
    return False


def clock_types(p):
    """ADTs reachable from the clock manager that hold the atomics themselves."""
    seen, work, res = set(), [p.find_adt(MGR)], set()
    while work:
        ty = work.pop()
        if ty is None or ty in seen: continue
        seen.add(ty)
        t = p.types[ty]
        if t["k"] != "adt": continue
        work += list(t["a"])
        if not t["local"]: continue
        for v in t.get("vs") or ():
            for f in v[2]:
                work.append(f[1])
                fp = p.adt(f[1]) or ""
                if fp.startswith("core::sync::atomic::Atomic"): res.add(ty)
    return res


def proj_bases(p, b, pl):
    """(base type, field index) of each field projection of a place."""
    if not isinstance(pl, list): return
    ty = b["l"][pl[0]]
    for x in pl[1]:
        if x == "*":
            t = p.types[ty] if ty is not None else None
            ty = (t["t"] if t and t["k"] in ("ref", "ptr") else (t["a"][0] if t and t["k"] == "adt" and t["a"] else None))
        elif x[0] == "f":
            yield ty, x[1], x[2]
            ty = x[2]
        elif x[0] == "d": pass
        else: ty = None


def places(x):
    """All places in a statement or terminator structure."""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and (not x[1] or x[1][0] == "*" or isinstance(x[1][0], list)): yield x
        for y in x: yield from places(y)


def touches(p, b, tys):
    for bb in b["bb"]:
        for pl in places([bb[0], bb[1]]):
            for ty, i, fty in proj_bases(p, b, pl):
                if ty in tys and (p.adt(fty) or "").startswith("core::sync::atomic::"): return True
    return False


def field_writer(p, k, tys, wr, cal):
    """Does this function take an atomic field and (itself or in a helper that gets the atomic) write it?"""
    b = p.bodies[k]
    if k in wr: return True
    for bb in b["bb"]:
        t = bb[1]
        if t[0] == "call" and isinstance(t[1], int):
            c = p.callees[t[1]]
            kk = c.get("b")
            if kk in p.bodies:
                seen, work = {kk}, [kk]
                while work:
                    x = work.pop()
                    if x in wr: return True
                    for y in cal.get(x, ()):
                        if y not in seen: seen.add(y); work.append(y)
    return False


# ------------------------------------------------------------------ K02 / K03 / K04
class Monotone:
    """Atomics written by another thread: every load is fresh but never older than the previous one."""
    def __init__(self, e):
        self.e = e
        e.pseudo_init["last"] = lambda al: mk("sym", ("last", al), al[3])
        e.atomic_load = self.load
        self.loads = {}        # loaded value -> cell

    def load(self, st, al, cell, ty):
        k = ("last", al, cell, ty)
        prev = st.mem.get(k)
        if prev is None:
            prev = self.e.pseudo_init["last"](k)
        if self.e.p.tk(ty) == "bool":
            if self.e.decide(st, prev) == 1: new = const(1, ty)
            else: new = sym("flag", ty)
        else:
            new = sym("ticks", ty)
            self.e.le(st, prev, new)
        st.mem[k] = new
        return new


def buffer_of(evs, i):
    """The lock that is held when event i happens: latest acquired and unreleased."""
    held = []
    for x in evs[:i]:
        if x.k == "lock": held.append(x)
        elif x.k == "unlock" or x.k == "drop_ext":
            held = [h for h in held if h.a[2] is not x.a[0]]
    return held


def under(cell, ref):
    """Is ref inside the locked cell?"""
    return ref.op == "ref" and cell.op == "ref" and ref.a[0] == cell.a[0] and ref.a[1][:len(cell.a[1])] == cell.a[1]


def strip_ty(path): return tuple((s[0], s[1], s[2]) if s[0] == "f" else (s[0],) for s in path)


def waker(rep, p, ops, name, tv, buffers):
    site = body_site(p, ops[name])
    e = engine(rep)
    e.merge = False
    LogLayer(e)
    ck = Clock(e, ops)
    cells = ck.cells()
    st = ck.st.copy()
    args = [ck.ref]
    if name == "advance": args.append(tv.make("new", None))
    elif name == "incr_cycles": args.append(named("cycles", p.u64_ty))
    outs = e.run_fn(ops[name], args, st)
    rep.use(e)
    rep.ok(len(outs) > 0, name + ":none", "%s never returns" % name, site)
    for o in outs:
        rep.count("waker paths")
        evs = o.st.events()
        w = [i for i, x in enumerate(evs) if x.k == "atomic" and x.a[0] != "load" and x.a[1] in cells]
        if not w: continue
        c1 = ck.read(o.st)
        locks = [i for i, x in enumerate(evs) if x.k == "lock" and i > w[-1]]
        if not rep.ok(locks, name + ":nolock", "%s changes the clock and then does not take the lock of the waiting list" % name, evs[w[-1]].site): continue
        done = False
        why = "looks at every waiting thread"
        for li in locks:
            lk = evs[li].a[1]
            buffers.add(strip_ty(lk.a[1]))
            r = scan(rep, e, p, tv, o.st, evs, li, lk, c1, name)
            if r is True: done = True
        rep.ok(done, name + ":noscan", "%s changes the clock without waking every waiting thread that is due before it returns" % name, evs[w[-1]].site)


def elem_of(e, st, tv, p, x):
    """(when, thread) of a list element value or reference."""
    v = x
    for _ in range(3):
        v = e.resolve(st, v)
        if v.op == "ref": v = e.load(st, *v.a)
        else: break
    ty = v.ty
    vs = p.variants(ty) if ty is not None else None
    if not vs or len(vs) != 1: return None, None, v
    w = [i for i, f in enumerate(vs[0][2]) if f[1] == tv.ty]
    t = [i for i, f in enumerate(vs[0][2]) if "Thread" in (p.adt(f[1]) or "")]
    if len(w) != 1 or len(t) != 1: return None, None, v
    return e.step(st, v, ("f", 0, w[0])), e.step(st, v, ("f", 0, t[0])), v


def known_empty(e, st, cell, evs):
    """Was the list found empty on this path?"""
    for t, v in st.truth.items():
        if t.op == "op" and t.a[0] == "Eq" and v == 1:
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if isc(b) and b.a[0] == 0 and a.op == "op" and a.a[0] == "len": return True
    return False


class Section:
    """What one locked section of the waiting list does to its entries.

    The entries are two classes: due (1) and not due (0) at the new clock value. held(v) is the set of classes a list
    value completely contains; the pass is complete when the due class is unparked and the other is still in the list."""
    def __init__(self, rep, e, p, tv, st, evs, li, clock):
        self.rep, self.e, self.p, self.tv, self.st, self.clock = rep, e, p, tv, st, clock
        g, self.start, self.cell = evs[li].a[2], evs[li].a[3], evs[li].a[4]
        self.evs = []
        for x in evs[li + 1:]:
            if x.k in ("unlock", "drop_ext") and x.a[0] is g: break
            self.evs.append(x)
        self.recs = {x.a[0].serial: x.a[0] for x in self.evs if x.k == "loop"}
        # the entries may be unparked after the lock is released again
        self.after = [x.a[0] for x in evs[li + 1:] if x.k == "loop"]
        self.memo = {}

    def fates(self, rec):
        """[(classes, unparked, pushed back, kept, removed, handed out)] of the iterations over entries."""
        if rec.serial in self.memo: return self.memo[rec.serial]
        r = []
        d = Drive(rec)
        for s in rec.iters:
            ie = rec.iter_events(s)
            el = d.item(s)
            idx = index_entry(self.e, rec, s, self.cell)
            if el is None and idx is not None: el = idx
            if el is None: r.append((s, {0, 1}, False, False, False, False)); continue
            when, thr, v = elem_of(self.e, s, self.tv, self.p, el)
            if when is None: r.append((s, {0, 1}, False, False, False, False)); continue
            self.rep.count("waiting-list iterations")
            unp = any(y.k == "unpark" and y.a[0] is thr for y in ie)
            back = any(y.k == "push" and under(self.cell, y.a[0]) and self.e.resolve(s, y.a[1]) is v for y in ie)
            disc = any(y.k == "discard" for y in ie)
            rem = any(y.k in ("vec_remove", "vec_swap_remove", "pop", "clear", "vec_truncate", "vec_drain") and under(self.cell, y.a[0]) for y in ie)
            r.append((s, time_le(self.e, s, self.tv, when, self.clock), unp, back, disc, rem))
            # entries that an adapter skips
            for y in ie:
                if y.k == "loop" and y.a[0].kind in ("filter", "filter_map"):
                    for s2 in y.a[0].iters:
                        nx = [z for z in y.a[0].iter_events(s2) if z.k == "next"]
                        w = elem_of(self.e, s2, self.tv, self.p, nx[0].a[1])[0] if nx else None
                        r.append((s2, time_le(self.e, s2, self.tv, w, self.clock) if w is not None else {0, 1}, False, False, False, False))
        self.memo[rec.serial] = r
        return r

    def complete(self, rec):
        return not Drive(rec, self.e).early or index_loop(self.e, rec, self.cell) is not None

    def source(self, rec):
        d = Drive(rec)
        if d.root is not None: return d.root[3] if all(n in ("map", "copied", "rev", "filter", "inspect", "enum", "byref") for n in d.root[4]) else None
        return index_source(self.e, rec, self.cell)

    def held(self, v, depth=0):
        if v is self.start: return {0, 1}
        if depth > 8: return set()
        v = self.e.resolve(self.st, v)
        if v is self.start: return {0, 1}
        if v.op == "op" and v.a[0] == "append": return self.held(v.a[1], depth + 1) | self.held(v.a[2], depth + 1)
        if v.op == "push": return self.held(v.a[0], depth + 1)
        if v.op == "retain" and v.a[1] in self.e.loops:
            rec = self.e.loops[v.a[1]]
            return {c for c in self.held(v.a[0], depth + 1) if not any(c in cl and disc for s, cl, u, b, disc, rem in self.fates(rec))}
        if v.op == "collect" and v.a[0] in self.e.loops:
            rec = self.e.loops[v.a[0]]
            full = getattr(rec, "full", rec)
            src = self.source(full)
            if src is None: return set()
            got = {id(s) for s, _ in rec.results}
            return {c for c in self.held(src, depth + 1) if not any(c in cl and id(s) not in got for s, cl, *_ in self.fates(full))}
        if v.op == "phi" and v.a[0][0] in self.e.loops:
            rec = self.e.loops[v.a[0][0]]
            init = self.e.subst_phi(rec.init, v, rec)
            r = set(self.held(init, depth + 1))
            src = self.source(rec)
            if src is v:
                # entries taken out by index
                if index_loop(self.e, rec, self.cell) is None: return set()
                return {c for c in r if not any(c in cl and rem for s, cl, u, b, disc, rem in self.fates(rec))}
            if any(rem for *_, rem in self.fates(rec)): return set()
            if src is not None and self.complete(rec):
                r |= {c for c in self.held(src, depth + 1) if not any(c in cl and not b for s, cl, u, b, *_ in self.fates(rec))}
            return r
        return set()

    def unparked(self):
        r = set()
        for rec in self.after:
            src = self.source(rec)
            if src is None or not self.complete(rec): continue
            base = self.held(src)
            if src.op == "phi" and src.a[0][0] == rec.serial: base = self.held(self.e.subst_phi(rec.init, src, rec))
            r |= {c for c in base if not any(c in cl and not u for s, cl, u, *_ in self.fates(rec))}
        return r

    def final(self):
        return self.held(self.e.load(self.st, *self.cell.a))


def index_phi(e, rec):
    """(index phi) of a hand-written index loop: starts at zero."""
    for al, v in rec.entry.mem.items():
        if v.op == "phi" and v.a[0][0] == rec.serial and v.ty is not None and e.p.tk(v.ty) == "uint":
            i0 = e.subst_phi(rec.init, v, rec)
            if isc(i0) and i0.a[0] == 0: yield v
    yield const(0, e.p.usize_ty)


def index_list(e, rec, cell):
    """Value of the locked list at the head of the loop."""
    return e.load(rec.entry.copy(), *cell.a)


def index_source(e, rec, cell):
    return index_list(e, rec, cell) if index_loop(e, rec, cell) is not None else None


def index_entry(e, rec, s, cell):
    i = index_loop(e, rec, cell)
    return e.step(s, index_list(e, rec, cell), ("ix", i)) if i is not None else None


def index_loop(e, rec, cell):
    """while i < list.len() { take entry i out, or i += 1 }: every entry is visited exactly once."""
    l = index_list(e, rec, cell)
    for i in index_phi(e, rec):
        good = True
        for s in rec.iters:
            j = e.subst_phi(s, i, rec)
            m = e.load(s.copy(), *cell.a)
            step = m is l and eq_terms(s, j, e.binop(s, "Add", i, const(1, i.ty), i.ty))
            cut = j is i and m.op == "op" and m.a[0] in ("remove", "swap_remove") and m.a[1] is l and m.a[2] is i
            good &= step or cut
        for o in rec.exits:
            if o[0] == "panic": continue
            good &= prove_le(o[1], e.length(o[1], l), i)
        if good and rec.iters: return i
    return None


def scan(rep, e, p, tv, st, evs, li, lk, c1, name):
    """Does the section locked at event li treat every waiting thread right?"""
    sec = Section(rep, e, p, tv, st, evs, li, c1)
    if known_empty(e, st, lk, evs): return True
    woken, left = sec.unparked(), sec.final()
    seen = set()
    for rec in sec.after:
        if sec.source(rec) is not None:
            for s, cl, *_ in sec.fates(rec): seen |= cl
    if 0 not in seen: left |= {0}        # the clock is infinite: everybody is due
    if 0 not in left and 1 in woken:
        rep.ok(False, name + ":forgot", "%s drops a waiting thread that is not due yet, so nobody will wake it" % name, evs[li].site)
    return 1 in woken and 0 in left


@rule("K02")
def k02(rep):
    rep.rule("Waker side: on every path on which a clock operation writes the clock, the write is followed by taking the waiting-list lock and a complete pass that unparks every entry whose time the new clock has reached and keeps every other entry. "
             "Waiter side: every park is preceded, under that same lock, by a clock read that shows the time is not reached and then by enrolling the current thread with exactly the awaited time, and the lock is released before parking.")
    p = prog("main")
    ops = ops_ok(rep, p)
    if ops is None: return
    tv = TV(p)
    buffers = set()
    for n in ("advance", "incr_cycles", "cleanup", "drop"): waker(rep, p, ops, n, tv, buffers)
    rep.floor("waking passes", rep.counts.get("waiting-list iterations", 0), 4)
    # the waiter
    parkers = {k for k, b in p.bodies.items() for bb in b["bb"] if bb[1][0] == "call" and isinstance(bb[1][1], int) and p.callees[bb[1][1]]["p"] in ("std::thread::functions::park", "std::thread::park")}
    parkers |= {k for k, b in p.bodies.items() for bb in b["bb"] if bb[1][0] == "call" and isinstance(bb[1][1], int) and p.callees[bb[1][1]]["n"] in ("park", "park_timeout") and not p.callees[bb[1][1]].get("local")}
    rep.floor("functions that park", len(parkers), 1)
    key = root(p, BASIC + "wait_until")
    if not rep.ok(key is not None, "anchor:wait_until", "the waiting function of the basic view was not found"): return
    rb = roots_by_key(p)
    for k in reaches(p, parkers - {key}, {key}):
        r = rb.get(k)
        if r is not None and r.get("reach") and k != key: rep.ok(False, "parker:" + r["p"], "%s parks a thread outside the waiting protocol" % r["p"], body_site(p, k))
    e, outs, when = wait_run(rep, p, key, tv)
    n = 0
    for kind, st, val in paths(outs, True):
        evs = st.events()
        for i, x in enumerate(evs):
            if x.k != "park": continue
            n += 1
            pushes = [j for j in range(i) if evs[j].k == "push" and elem_of(e, st, tv, p, evs[j].a[1])[0] is not None and any(under(h.a[1], evs[j].a[0]) for h in buffer_of(evs, j))]
            if not rep.ok(pushes, "wait:enrol", "a thread parks without having enrolled in the waiting list under its lock", x.site): continue
            j = pushes[-1]
            w, thr, v = elem_of(e, st, tv, p, evs[j].a[1])
            rep.ok(same_time(e, st, tv, w, when), "wait:when", "a thread enrols with a time other than the one it waits for", evs[j].site)
            rep.ok(thr is not None and thr.op == "op" and thr.a[0] == "current_thread", "wait:thread", "a thread enrols somebody else's handle", evs[j].site)
            lk = [h for h in buffer_of(evs, j) if under(h.a[1], evs[j].a[0])][0]
            rep.ok(strip_ty(lk.a[1].a[1]) in buffers, "wait:lock", "waiters enrol under a different lock than the one wakers take", lk.site)
            li = evs.index(lk)
            # a clock read after taking the lock must show the time is not reached
            good = False
            tds = [y for y in evs[li:i] if y.k == "atomic" and y.a[0] == "load"]
            tk = [y.a[3] for y in tds if p.tk(y.a[3].ty) == "uint"]; fl = [y.a[3] for y in tds if p.tk(y.a[3].ty) == "bool"]
            for a in tk:
                for b in fl:
                    s2 = evs and st
                    good |= not_reached_at(e, st, tv, evs, li, a, b, when)
            rep.ok(good, "wait:recheck", "a thread parks without looking at the clock again after taking the waiting-list lock: a wakeup between its last look and its enrolment is lost", x.site)
            rep.ok(not any(under(h.a[1], evs[j].a[0]) for h in buffer_of(evs, i)), "wait:held", "a thread parks while holding the waiting-list lock", x.site)
    rep.floor("parking paths", n, 1)
    rep.use(e)


def not_reached_at(e, st, tv, evs, li, a, b, when):
    return time_le(e, st, tv, when, mkt(e, tv, a, b)) == {0}


def mkt(e, tv, t, d):
    f = [UNDEF] * tv.n
    f[tv.ti], f[tv.di] = t, d
    return mk("agg", (0,) + tuple(f), tv.ty)


def same_time(e, st, tv, a, b):
    (ta, da), (tb, db) = parts(e, st, tv, a), parts(e, st, tv, b)
    return ta is tb and da is db


def wait_run(rep, p, key, tv, config="main"):
    e = engine(rep, config)
    e.merge = False
    LogLayer(e)
    Monotone(e)
    st = State()
    args = e.sym_args(key, st)
    if len(args) > 1: args[1] = tv.make("when", None)
    outs = e.run_fn(key, args, st)
    return e, outs, (args[1] if len(args) > 1 else None)


def loaded(e, p, evs, acquire=False):
    """(tick values, flag values) read from clock atomics on a path."""
    tk, fl = [], []
    for i, x in enumerate(evs):
        if x.k == "atomic" and x.a[0] == "load":
            if acquire and x.a[2] not in ACQUIRE and not any(y.k == "fence" and y.a[0] in ACQUIRE for y in evs[i:]): continue
            (tk if p.tk(x.a[3].ty) == "uint" else fl).append(x.a[3])
    return tk, fl


def reached(e, st, tv, val, tk, fl):
    """Is the time value no later than what the loaded clock values show on every reading of this path?"""
    t, d = parts(e, st, tv, val)
    if any(e.decide(st, f) == 1 for f in fl): return True
    for s, dv in e.truth_split(st, d):
        if dv:
            if not any(e.decide(s, f) == 1 for f in fl): return False
        elif not any(prove_le(s, t, x) for x in tk): return False
    return True


@rule("K03")
def k03(rep):
    rep.rule("Basic view: on every path of wait_until the returned time is provably at least the requested one and no later than clock values loaded on that path. "
             "Parent view: wait_until waits for the requested time on every child and returns the least of the reached times; its current time is the least of its children's. The view of a context that wraps others is made of the views of exactly those.")
    p = prog("main")
    tv = TV(p)
    if not rep.ok(tv.ti is not None and tv.di is not None, "layout", "the time value is no longer one tick count plus one infinity flag"): return
    wk, tk_ = root(p, BASIC + "wait_until"), root(p, BASIC + "tick_lower_bound")
    if rep.ok(wk is not None and tk_ is not None, "anchor:basic", "the basic view's methods were not found"):
        e, outs, when = wait_run(rep, p, wk, tv)
        site = body_site(p, wk)
        n = 0
        for o in outs:
            if not rep.ok(o.kind == "ret", "basic:panic", "waiting can panic", site): continue
            n += 1
            rep.ok(time_le(e, o.st, tv, when, o.val) == {1}, "basic:early", "waiting can return before the requested time is reached", site)
            tks, fls = loaded(e, p, o.st.events())
            rep.ok(reached(e, o.st, tv, o.val, tks, fls), "basic:unreached", "waiting can return a time that the clock was not seen to have reached", site)
        rep.count("return paths", n)
        rep.floor("waiting return paths", n, 3)
        rep.use(e)
        e, outs, _ = wait_run(rep, p, tk_, tv)
        for o in outs:
            tks, fls = loaded(e, p, o.st.events())
            rep.ok(o.kind == "ret" and reached(e, o.st, tv, o.val, tks, fls), "basic:tlb", "the lower bound of a clock can lie after the clock", body_site(p, tk_))
        rep.use(e)
    par = "<view::parent::ParentView as view::ContextView>::"
    pw, pt = root(p, par + "wait_until"), root(p, par + "tick_lower_bound")
    if rep.ok(pw is not None and pt is not None, "anchor:parent", "the parent view's methods were not found"):
        parent(rep, p, pw, "view_wait")
        parent(rep, p, pt, "view_tlb")
    # the enum forwards to the same method of its variant
    for n in ("wait_until", "tick_lower_bound"):
        k = root(p, "<view::TimeView as view::ContextView>::" + n)
        if not rep.ok(k is not None, "anchor:enum", "the view enum's methods were not found"): continue
        e = engine(rep)
        tl = TimeLayer(e)
        ClockLayer(e, tl)
        st = State()
        args = e.sym_args(k, st)
        for o in e.run_fn(k, args, st):
            evs = [x for x in o.st.events() if x.k in ("view_wait", "view_tlb")]
            good = o.kind == "ret" and len(evs) == 1 and evs[0].k == ("view_wait" if n == "wait_until" else "view_tlb") and o.val is evs[0].a[-1] and (n != "wait_until" or evs[0].a[1] is args[1])
            rep.ok(good, "enum:" + n, "the view enum does not forward %s to its variant" % n, body_site(p, k))
        rep.use(e)
    from rules.running import part_views
    part_views(rep, p)


def parent(rep, p, key, ek):
    e = engine(rep)
    tl = TimeLayer(e)
    ClockLayer(e, tl)
    st = State()
    args = e.sym_args(key, st)
    outs = e.run_fn(key, args, st)
    site = body_site(p, key)
    what = "waiting on a parent view" if ek == "view_wait" else "the current time of a parent view"
    kids = [i for i, f in enumerate(p.variants(e.pointee(args[0].ty))[0][2]) if "TimeView" in p.ts(f[1])]
    if not rep.ok(len(kids) == 1, "parent:layout", "the parent view has no list of child views"): return
    al, _ = e.deref(st, args[0])
    kv = e.field_of(e.load(State(), al, ()), 0, kids[0])
    some = 0
    for o in outs:
        if not rep.ok(o.kind == "ret", ek + ":panic", what + " can panic", site): continue
        evs = o.st.events()
        cv = extremum(e, o.st, o.val, "min")
        # a child loop that runs over every child
        full = None
        for rec in loops_of(o.st):
            d = Drive(rec, e)
            if d.root is None or d.root[3] is not kv or d.early: continue
            if all(child_call(e, rec, s, ek, args) is not None for s in rec.iters): full = rec
        if full is None:
            # no child at all
            rep.ok(empty_children(e, o.st), ek + ":children", what + " does not ask every child", site)
            rep.ok(not any(x.k == ek for x in evs), ek + ":partial", what + " asks only some children", site)
            continue
        none = any(x.k == "reduce" and x.a[3] is None for x in evs) or never_set(e, o.st) or (cv is None and empty_children(e, o.st))
        if none:
            want = (o.val is args[1] or o.val is tl.inf) if ek == "view_wait" else o.val is tl.inf
            rep.ok(want, ek + ":empty", what + " without children does not give the neutral time", site)
            continue
        some += 1
        if not rep.ok(cv is not None, ek + ":min", what + " is not the least time of its children", site): continue
        rs = {id(rec): its for rec, its in cv.loops}
        if not rep.ok(id(full) in rs, ek + ":min", what + " is not the least time over all of its children", site): continue
        for s, acc, mem in rs[id(full)]:
            r = child_call(e, full, s, ek, args)
            rep.ok(r is not None and acc(r), ek + ":skip", what + " ignores some child", site)
            rep.ok(all(m is r for m in mem), ek + ":other", what + " reports a time no child has", site)
        for x in cv.consts:
            rep.ok(x is tl.inf, ek + ":const", what + " mixes in a time no child has (%s)" % show(x), site)
    rep.floor(ek + " paths over children", some, 1)
    rep.use(e)


def empty_children(e, st):
    for t, v in st.truth.items():
        if v == 1 and t.op == "op" and t.a[0] == "Eq":
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if isc(b) and b.a[0] == 0 and a.op == "op" and a.a[0] == "len": return True
    return any(x.k == "exhausted" for x in st.events()) and not any(x.k == "next" for x in st.events()) and not loops_of(st)


def child_call(e, rec, s, ek, args):
    """The one child call of an iteration, on that iteration's child (and, when waiting, for the requested time)."""
    d = Drive(rec, e)
    it = d.item(s)
    calls = [x for x in rec.iter_events(s) if x.k == ek]
    if len(calls) != 1 or it is None: return None
    v = it
    for _ in range(3):
        if v.op == "ref": v = e.load(s, *v.a)
    if calls[0].a[0] is not v and calls[0].a[0] is not it: return None
    if ek == "view_wait" and calls[0].a[1] is not args[1]: return None
    return calls[0].a[-1]


@rule("K04")
def k04(rep):
    rep.rule("Every write of a clock atomic in a clock operation is a release (or follows a release fence); every time that a view returns is justified by acquire reads alone (or reads followed by an acquire fence).")
    for config in ("main", "cycle"):
        p = prog(config)
        ops = ops_ok(rep, p)
        if ops is None: return
        tv = TV(p)
        nw = 0
        for name in ("advance", "incr_cycles", "cleanup", "drop"):
            e = engine(rep, config)
            e.merge = False
            LogLayer(e)
            ck = Clock(e, ops)
            cells = ck.cells()
            args = [ck.ref] + ([tv.make("new", None)] if name == "advance" else [named("cycles", p.u64_ty)] if name == "incr_cycles" else [])
            outs = e.run_fn(ops[name], args, ck.st.copy())
            for k, st, v in paths(outs, True):
                evs = st.events()
                for i, x in enumerate(evs):
                    if x.k != "atomic" or x.a[0] == "load" or x.a[1] not in cells: continue
                    nw += 1
                    good = x.a[2] in RELEASE or any(y.k == "fence" and y.a[0] in RELEASE for y in evs[:i])
                    rep.ok(good, "write:%s:%s" % (name, x.a[0]), "%s publishes the clock with %s ordering: what the context did before is not visible to those who see the new time" % (name, x.a[2]), x.site)
            rep.use(e)
        rep.floor("clock writes (%s)" % config, nw, 3)
        nr = 0
        for n in ("wait_until", "tick_lower_bound"):
            k = root(p, BASIC + n)
            if not rep.ok(k is not None, "anchor:" + n, "the basic view's %s was not found" % n): continue
            e, outs, when = wait_run(rep, p, k, tv, config)
            for o in outs:
                if o.kind != "ret": continue
                nr += 1
                tks, fls = loaded(e, p, o.st.events(), True)
                good = reached(e, o.st, tv, o.val, tks, fls)
                rep.ok(good, "read:" + n, "%s can return a time that was only read without acquire ordering" % n, body_site(p, k))
            rep.use(e)
        rep.floor("cross-context reads (%s)" % config, nr, 3)


@rule("K05")
def k05(rep):
    rep.rule("Dropping a clock manager runs code that leaves the clock infinite and wakes waiters (K02); in every type that holds a clock manager every field that can own a channel endpoint is dropped before it; cleaning up a context wrapper drops the context, and a context that wraps others cleans each up on its thread as soon as it has run.")
    p = prog("main")
    ops = ops_ok(rep, p)
    if ops is None: return
    tv = TV(p)
    site = body_site(p, ops["drop"])
    for d0 in (0, 1):
        e = engine(rep)
        LogLayer(e)
        ck = Clock(e, ops)
        st = ck.st.copy()
        e.assume(st, tv.inf(ck.read(st)), d0)
        for o in e.run_fn(ops["drop"], [ck.ref], st):
            c = ck.read(o.st) if o.kind == "ret" else None
            rep.ok(c is not None and e.decide(o.st, tv.inf(c)) == 1, "drop:infinite", "dropping a context's clock does not make it infinite", site)
        rep.use(e)
    mt = p.find_adt(MGR)
    n = 0
    for a in p.adts:
        t = p.types[a["t"]]
        vs = t.get("vs")
        if not vs: continue
        for v in vs:
            pos = [i for i, f in enumerate(v[2]) if holds_clock(p, f[1], mt)]
            if not pos or a["t"] == mt: continue
            own = [i for i, f in enumerate(v[2]) if f[1] == mt]
            n += 1
            rep.sample(a["p"])
            for i, f in enumerate(v[2]):
                if i > pos[-1] and may_own_endpoint(p, f[1]):
                    rep.ok(False, "order:" + a["p"] + "." + f[0], "%s drops its field %s after its clock: peers see the context finished while that channel is still open" % (a["p"], f[0]), (a["p"], "", a.get("ln", 0)))
                else: rep.ok(True, "", "")
            # several clocks in one type: each own clock must come last
            for o_ in own:
                for i, f in enumerate(v[2]):
                    if i > o_: rep.ok(not may_own_endpoint(p, f[1]), "order:" + a["p"] + "." + f[0], "%s drops its field %s after its clock" % (a["p"], f[0]))
    rep.floor("types holding a clock", n, 10)
    # a type with a clock must not have its own destructor closing things late, nor hide its fields from dropping
    for a in p.adts:
        t = p.types[a["t"]]
        for v in t.get("vs") or ():
            for f in v[2]:
                if p.adt(f[1]) == "core::mem::manually_drop::ManuallyDrop" and (holds_clock(p, f[1], mt) or may_own_endpoint(p, f[1])):
                    rep.ok(False, "leak:" + a["p"], "%s hides a clock or an endpoint from being dropped" % a["p"])
    for k, b in p.bodies.items():
        for bb in b["bb"]:
            x = bb[1]
            if x[0] == "call" and isinstance(x[1], int):
                c = p.callees[x[1]]
                if c["p"] in ("core::mem::forget", "alloc::boxed::Box::<T>::leak", "alloc::boxed::Box::<T, A>::leak", "alloc::boxed::Box::<T>::into_raw", "core::mem::manually_drop::ManuallyDrop::<T>::new") and c["a"]:
                    ty = c["a"][0]
                    if holds_clock(p, ty, mt) or may_own_endpoint(p, ty):
                        rep.ok(False, "forget:" + b["p"], "%s leaks a value that owns a clock or an endpoint" % b["p"], (b["p"], b["file"], x[5]))
    # early cleanup
    px = [r for r in p.roots if r.get("trait") == "types::Cleanable" and r["n"] == "cleanup" and "ProxyContext" in r["p"]]
    if rep.ok(len(px) == 1, "anchor:proxy", "the context wrapper's cleanup was not found"):
        proxy(rep, p, px[0]["key"])
    from rules.running import composites
    composites(rep, p)


def holds_clock(p, ty, mt, d=0):
    """Does the value's own storage (not shared) include a clock manager?"""
    if ty == mt: return True
    t = p.types[ty]
    if d > 6: return False
    if t["k"] == "adt":
        if t["p"] in ("alloc::boxed::Box", "core::option::Option", "alloc::vec::Vec", "core::mem::manually_drop::ManuallyDrop"): return any(holds_clock(p, a, mt, d + 1) for a in t["a"])
        if t["local"]: return any(holds_clock(p, f[1], mt, d + 1) for v in t.get("vs") or () for f in v[2])
        return False
    if t["k"] in ("tuple",): return any(holds_clock(p, x, mt, d + 1) for x in t["ts"])
    return False


ENDPOINTS = ("channel::Sender", "channel::Receiver")


def may_own_endpoint(p, ty, d=0, seen=None):
    t = p.types[ty]
    if d > 8: return False
    if t["k"] in ("param", "dyn", "alias"): return True
    if t["k"] == "adt":
        if t["p"] in ENDPOINTS: return True
        if t["p"] in ("core::marker::PhantomData",): return False
        if t["local"]:
            seen = (seen or ()) + (ty,)
            return any(may_own_endpoint(p, f[1], d + 1, seen) for v in t.get("vs") or () for f in v[2] if f[1] not in seen)
        return any(may_own_endpoint(p, a, d + 1, seen) for a in t["a"])
    if t["k"] in ("tuple", "closure"): return any(may_own_endpoint(p, x, d + 1, seen) for x in t["ts"])
    if t["k"] in ("array", "slice"): return may_own_endpoint(p, t["t"], d + 1, seen)
    return False


def proxy(rep, p, key):
    """After cleanup the wrapper no longer owns the running context."""
    e = engine(rep)
    e.drop_interest_extra = lambda t: t["k"] == "param"
    st = State()
    ty = e.pointee(p.bodies[key]["l"][1])
    al = e.new_alloc(st, named("wrapper", ty))
    vs = p.variants(ty)
    site = body_site(p, key)
    run = [i for i, v in enumerate(vs) if any(p.tk(f[1]) == "param" for f in v[2])]
    if not rep.ok(len(run) == 1, "proxy:layout", "the context wrapper has no single running state", site): return
    n = 0
    for o in e.run_fn(key, [e.ref(al, ())], st):
        for s, v in e.variant_split(o.st, e.load(o.st, al, ())):
            n += 1
            rep.ok(o.kind != "ret" or v.op == "agg" and v.a[0] != run[0], "proxy:keeps", "cleaning up a context wrapper leaves the context, its channels and its clock alive", site)
    rep.floor("cleanup outcomes", n, 2)
    rep.use(e)
