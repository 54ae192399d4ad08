"""T01, T02: the value type of simulated time."""
from rules import rule
from rules.base import *


def time_layout(p):
    """(type, ticks field, infinite-flag field) of the public time value."""
    ty = p.find_adt("datastructures::time::Time")
    if ty is None: ty = p.find_adt("time::Time")
    vs = p.variants(ty) if ty is not None else None
    if not vs or len(vs) != 1: return ty, None, None
    t = [i for i, f in enumerate(vs[0][2]) if p.ts(f[1]) == "u64"]
    d = [i for i, f in enumerate(vs[0][2]) if p.tk(f[1]) == "bool"]
    return ty, t[0] if len(t) == 1 else None, d[0] if len(d) == 1 else None


class TV:
    """Symbolic time values in the concrete representation."""
    def __init__(self, p):
        self.p = p
        self.ty, self.ti, self.di = time_layout(p)
        self.n = p.nfields(self.ty, 0) if self.ty is not None else 0

    def make(self, name, done):
        f = [UNDEF] * self.n
        f[self.ti] = named(name + ".ticks", self.p.u64_ty)
        f[self.di] = const(1 if done else 0, self.p.bool_ty) if done is not None else named(name + ".inf", self.p.bool_ty)
        return mk("agg", (0,) + tuple(f), self.ty)

    def ticks(self, v): return v.a[1 + self.ti]
    def inf(self, v): return v.a[1 + self.di]


REL = {-1: "Lt", 0: "Eq", 1: "Gt"}


def rows():
    for da in (0, 1):
        for db in (0, 1):
            for r in (-1, 0, 1): yield da, db, r


def expected_order(da, db, r):
    if da and db: return 0
    if da: return 1
    if db: return -1
    return r


def setup(e, tv, da, db, r):
    st = State()
    a, b = tv.make("a", da), tv.make("b", db)
    x, y = tv.ticks(a), tv.ticks(b)
    B = e.p.bool_ty
    e.assume(st, mk("op", ("Eq", x, y), B) if r == 0 else (mk("op", ("Lt", x, y), B) if r < 0 else mk("op", ("Lt", y, x), B)), 1)
    return st, a, b


def bool_values(e, o):
    if isc(o.val): return {o.val.a[0]}
    return {v for s, v in e.truth_split(o.st, o.val)}


def ord_values(e, st, v):
    return {d for s, d in e.ordering_split(st, v)}


@rule("T01")
def t01(rep):
    p = prog("main")
    tv = TV(p)
    if not rep.ok(tv.ti is not None and tv.di is not None, "layout", "the time value is no longer one tick count plus one infinity flag"): return
    rep.rule("Every comparison of two times, run on each of the 12 combinations (finite/infinite, finite/infinite, <,=,> ticks), returns what the order 'finite by ticks, infinite on top, all infinities equal' says.")
    fns = {}
    for r in p.roots:
        if r.get("self") == tv.ty and r.get("trait") in ("core::cmp::PartialEq", "core::cmp::PartialOrd", "core::cmp::Ord", "core::cmp::Eq") and r["key"] in p.bodies:
            ta = r.get("targs") or []
            if r["n"].startswith("assert_"): continue
            if len(ta) > 1 and ta[1] != tv.ty: continue
            fns[r["n"]] = r["key"]
    for need in ("eq", "partial_cmp", "cmp"):
        rep.ok(need in fns, "anchor:" + need, "no comparison function %s for times" % need)
    n = 0
    for name, key in sorted(fns.items()):
        rep.sample(key.split("|")[0])
        site = (p.bodies[key]["p"], p.bodies[key]["file"], p.bodies[key]["ln"])
        for da, db, r in rows():
            e = engine(rep)
            st, a, b = setup(e, tv, da, db, r)
            ra, rb = e.ref(e.new_alloc(st, a), ()), e.ref(e.new_alloc(st, b), ())
            want = expected_order(da, db, r)
            outs = e.run_fn(key, [a, b] if name in ("max", "min") else ([ra, rb] if name != "clamp" else []), st) if name != "clamp" else []
            n += len(outs)
            case = "%s %s %s" % ("inf" if da else "finite", {-1: "<", 0: "=", 1: ">"}[r], "inf" if db else "finite")
            if name == "clamp": continue
            rep.ok(len(outs) > 0 and all(o.kind == "ret" for o in outs), "%s:%s:panics" % (name, case), "%s can panic when comparing %s" % (name, case), site)
            for o in outs:
                if o.kind != "ret": continue
                if name in ("eq", "ne", "lt", "le", "gt", "ge"):
                    w = {"eq": want == 0, "ne": want != 0, "lt": want < 0, "le": want <= 0, "gt": want > 0, "ge": want >= 0}[name]
                    rep.ok(bool_values(e, o) == {int(w)}, "%s:%s" % (name, case), "%s of times (infinity flags and ticks: %s) is not %s" % (name, case, w), site)
                elif name in ("cmp", "partial_cmp"):
                    v = o.val
                    if name == "partial_cmp":
                        vs = e.variant_split(o.st, v)
                        if not rep.ok(len(vs) == 1 and vs[0][1].op == "agg" and vs[0][1].a[0] == 1, "%s:%s" % (name, case), "partial_cmp of times gives no order for %s" % case, site): continue
                        v = vs[0][1].a[1]
                    rep.ok(ord_values(e, o.st, v) == {want}, "%s:%s" % (name, case), "%s of times (%s) is not %s" % (name, case, {-1: "Less", 0: "Equal", 1: "Greater"}[want]), site)
                elif name in ("max", "min"):
                    good = {"max": {a} if want > 0 else ({b} if want < 0 else {a, b}), "min": {a} if want < 0 else ({b} if want > 0 else {a, b})}[name]
                    rep.ok(o.val in good, "%s:%s" % (name, case), "%s of times (%s) is not the %s one" % (name, case, "later" if name == "max" else "earlier"), site)
            rep.use(e)
    # derived comparison operators and the constructors
    for ctor, check in (("new", 0), ("infinite", 1)):
        ks = [r["key"] for r in p.roots if r.get("self") == tv.ty and r["n"] == ctor and not r.get("trait") and r["key"] in p.bodies]
        if not rep.ok(len(ks) == 1, "anchor:" + ctor, "constructor Time::%s not found" % ctor): continue
        e = engine(rep)
        st = State()
        outs = e.run_fn(ks[0], [named("t", p.u64_ty)] if ctor == "new" else [], st)
        for o in outs:
            if not rep.ok(o.kind == "ret" and o.val.op == "agg", "ctor:" + ctor, "Time::%s does not return a value" % ctor): continue
            rep.ok(e.decide(o.st, tv.inf(o.val)) == check, "ctor:%s:flag" % ctor, "Time::%s has the wrong infinity flag" % ctor)
            if ctor == "new": rep.ok(tv.ticks(o.val) is named("t", p.u64_ty), "ctor:new:ticks", "Time::new does not keep its tick count")
        rep.use(e)
    for r in p.roots:
        if r.get("self") == tv.ty and r["n"] == "is_infinite" and r["key"] in p.bodies:
            for d in (0, 1):
                e = engine(rep); st = State(); a = tv.make("a", d)
                for o in e.run_fn(r["key"], [e.ref(e.new_alloc(st, a), ())], st):
                    rep.ok(o.kind == "ret" and bool_values(e, o) == {d}, "is_infinite", "is_infinite does not report the infinity flag")
                rep.use(e)
        if r.get("self") == tv.ty and r["n"] == "from" and r.get("trait") == "core::convert::From" and r["key"] in p.bodies and p.ts(p.bodies[r["key"]]["l"][1]) == "u64":
            e = engine(rep)
            for o in e.run_fn(r["key"], [named("t", p.u64_ty)], State()):
                rep.ok(o.kind == "ret" and o.val.op == "agg" and e.decide(o.st, tv.inf(o.val)) == 0 and tv.ticks(o.val) is named("t", p.u64_ty), "from", "converting a number to a time is not the finite time of that many ticks")
            rep.use(e)
    rep.counts["paths"] = n
    rep.floor("comparison functions", len(fns), 3)


def same(st, x, y):
    return x is y or (prove_le(st, x, y) and prove_le(st, y, x))


OPS = [("core::ops::arith::Add", "add", "u64"), ("core::ops::arith::Add", "add", "Time"), ("core::ops::arith::Sub", "sub", "u64"),
       ("core::ops::arith::AddAssign", "add_assign", "u64"), ("core::ops::arith::AddAssign", "add_assign", "Time"), ("core::ops::arith::SubAssign", "sub_assign", "u64")]


@rule("T02")
def t02(rep):
    p = prog("main")
    tv = TV(p)
    if not rep.ok(tv.ti is not None and tv.di is not None, "layout", "the time value is no longer one tick count plus one infinity flag"): return
    rep.rule("Every path of each arithmetic operator on times yields exactly lhs.ticks op rhs.ticks and the or of the infinity flags; a subtraction below zero always panics and no other operation does.")
    found = 0
    for r in p.roots:
        if r.get("self") != tv.ty or not (r.get("trait") or "").startswith("core::ops::arith::") or r["key"] not in p.bodies: continue
        name = r["n"]
        key = r["key"]
        rty = p.bodies[key]["l"][2]
        timed = rty == tv.ty
        if not timed and p.ts(rty) != "u64":
            continue
        found += 1
        op = {"add": "Add", "sub": "Sub", "add_assign": "Add", "sub_assign": "Sub"}.get(name)
        if not rep.ok(op is not None, "unknown:" + name, "an arithmetic operator on times that the rule does not know: " + name): continue
        site = (p.bodies[key]["p"], p.bodies[key]["file"], p.bodies[key]["ln"])
        lab = "%s<%s>" % (name, "Time" if timed else "u64")
        rep.sample(lab)
        for da in (0, 1):
            for db in ((0, 1) if timed else (0,)):
                for r3 in (-1, 0, 1):
                    e = engine(rep)
                    st = State()
                    a = tv.make("a", da)
                    b = tv.make("b", db) if timed else named("b.ticks", p.u64_ty)
                    x, y = tv.ticks(a), (tv.ticks(b) if timed else b)
                    e.assume(st, mk("op", ("Eq", x, y), p.bool_ty) if r3 == 0 else mk("op", ("Lt",) + ((x, y) if r3 < 0 else (y, x)), p.bool_ty), 1)
                    if name.endswith("_assign"):
                        al = e.new_alloc(st, a)
                        outs = e.run_fn(key, [e.ref(al, ()), b], st)
                    else: outs = e.run_fn(key, [a, b], st)
                    rep.count("paths", len(outs))
                    below = op == "Sub" and r3 < 0
                    rep.ok(len(outs) > 0, lab + ":none", "%s has no outcome" % lab, site)
                    for o in outs:
                        if below:
                            rep.ok(o.kind == "panic", lab + ":below", "%s of more ticks than the time holds does not panic" % lab, site)
                            continue
                        if not rep.ok(o.kind == "ret", lab + ":panic", "%s can panic" % lab, site): continue
                        v = o.val if not name.endswith("_assign") else e.load(o.st, al, ())
                        if v.op != "agg": v = e.expand(v)
                        want = e.binop(o.st, op, x, y, p.u64_ty)
                        rep.ok(same(o.st, tv.ticks(v), want), lab + ":ticks", "%s does not give lhs ticks %s rhs ticks (got %s)" % (lab, "+" if op == "Add" else "-", show(tv.ticks(v))), site)
                        rep.ok(e.decide(o.st, tv.inf(v)) == int(da or db), lab + ":inf", "%s gets infinity wrong (lhs infinite: %d, rhs infinite: %d)" % (lab, da, db), site)
                    rep.use(e)
    rep.floor("arithmetic operators", found, 5)
