"""B01, L05: what build options and logging can change."""
import re
import engine as engine_mod
from engine import Budget
from rules import rule
from rules.base import *
from rules.logs import walk_events

LOG = "logging::"
FIRST = 100_000_000   # fresh values of a compared run are numbered from here
# build -> (the build it is compared with, what the option is for)
OPTIONS = [("plain", "main", "drawing and logging"), ("unbounded", "main", "unbounded queues"), ("cycle", "main", "cycle-by-cycle running")]
MORE = [("bare", "plain", "unbounded queues and cycle-by-cycle running without logging"), ("all", "mongo", "unbounded queues and cycle-by-cycle running with database logging")]


# ---- the same code in two builds ------------------------------------------------------------------------------------
class Canon:
    """MIR bodies with the numbering of one dump taken out."""
    def __init__(self, p): self.p = p

    def ty(self, t): return self.p.ts(t)

    def place(self, x):
        if isinstance(x, int): return x
        return (x[0], tuple(("f", e[1], self.ty(e[2])) if isinstance(e, list) and e[0] == "f" else tuple(e) if isinstance(e, list) else e for e in x[1]))

    def callee(self, i):
        c = self.p.callees[i]
        return (c["p"], tuple(map(self.ty, c["a"])), c.get("rp"), tuple(map(self.ty, c.get("ra", ()))), c["k"])

    def const(self, k):
        if k[0] in ("fn", "const"): return (k[0], self.ty(k[1]), self.callee(k[2]))
        return (k[0], self.ty(k[1])) + tuple(k[2:])

    def op(self, o):
        if o[0] in ("c", "m"): return (o[0], self.place(o[1]))
        if o[0] == "k": return ("k", self.const(o[1]))
        return tuple(o)

    def rvalue(self, r):
        k = r[0]
        if k == "use": return (k, self.op(r[1]))
        if k == "rep": return (k, self.op(r[1]), r[2])
        if k == "ref": return (k, self.place(r[1]), r[2])
        if k == "cast": return (k, r[1], self.op(r[2]), self.ty(r[3]))
        if k == "bin": return (k, r[1], self.op(r[2]), self.op(r[3]))
        if k == "un": return (k, r[1], self.op(r[2]))
        if k == "discr": return (k, self.place(r[1]))
        if k == "agg":
            kind = (r[1][0], self.ty(r[1][1])) + tuple(r[1][2:]) if r[1][0] in ("adt", "closure") else tuple(r[1])
            return (k, kind, tuple(map(self.op, r[2])))
        return tuple(map(str, r))

    def terminator(self, t):
        k = t[0]
        if k == "switch": return (k, self.op(t[1]), tuple(map(tuple, t[2])), t[3])
        if k == "drop": return (k, self.place(t[1]), t[2], self.ty(t[3]))
        if k == "call": return (k, self.callee(t[1]) if isinstance(t[1], int) else self.op(t[1]), tuple(map(self.op, t[2])), self.place(t[3]), t[4])
        if k == "assert": return (k, self.op(t[1]), t[2], t[3], t[4])
        return tuple(map(str, t))

    def stmt(self, s):
        if s[0] == "=": return ("=", self.place(s[1]), self.rvalue(s[2]))
        return tuple([s[0]] + ([self.place(s[1])] + list(s[2:]) if len(s) > 1 else []))

    def body(self, b):
        return repr((b["argc"], tuple(map(self.ty, b["l"])), tuple((tuple(map(self.stmt, st)), self.terminator(t), cl) for st, t, cl in b["bb"])))


def named_bodies(p):
    """name -> ({canonical bodies}, [keys])"""
    if hasattr(p, "_named"): return p._named
    c = Canon(p)
    r = {}
    for k, b in p.bodies.items():
        if not b["local"]: continue
        x = k.split("|")
        n = re.sub(r"\[[0-9a-f]+\]", "", "|".join(x[:2] + x[3:]))
        q = r.setdefault(n, (set(), []))
        q[0].add(c.body(b))
        q[1].append(k)
    p._named = r
    return r


def same_layout(rep, a, b, what):
    """Types that clients and both builds know have the same fields."""
    A, B = ({x["p"]: [(v[0], [(f[0], p.ts(f[1])) for f in v[2]]) for v in (p.variants(x["t"]) or [])] for x in p.adts} for p in (a, b))
    n = 0
    for k in sorted(set(A) & set(B)):
        n += 1
        rep.ok(A[k] == B[k] or k.startswith(LOG), "%s:type:%s" % (what, k), "%s changes what %s is made of" % (what, k), None)
    return n


def impls_of(p):
    """(type, trait) for the traits that code which never names the implementation can call."""
    return {(re.sub(r"\d{2,}", "", i["selfs"]), i["trait"], tuple(p.ts(t) for t in i.get("targs", ()))) for i in p.impls if i.get("trait")}


def offered(p):
    """name -> (signature, bounds) of the functions clients can name."""
    def norm(t): return re.sub(r"DefId\(\d+:\d+ ~ ", "DefId(", re.sub(r"\[[0-9a-f]{4}\]", "", t))
    return {norm(re.sub(r"\|\d+\|", "|", r["key"])): (norm(r["sig"]), tuple(sorted(map(norm, r["preds"]))), r) for r in p.roots if r["reach"] and "sig" in r}


class Effects:
    """What a function does, as text: the same for the same behaviour in two builds."""
    def __init__(self, e, mask): self.e, self.mask = e, mask

    def quiet(self, rec):
        """A loop that does nothing but yield."""
        if any(o[0] == "panic" for o in rec.exits): return False
        return all(self.still(y) for s in rec.iters for y in rec.iter_events(s))

    def still(self, y): return y.k in ("next", "exhausted", "yield_now", "reversed", "adapted") or y.k == "loop" and self.quiet(y.a[0])

    def events(self, evs):
        r, skip = [], False
        for y in evs:
            if y.k == "yield_now": continue
            if y.k == "loop":
                if self.quiet(y.a[0]): skip = True; continue
                r.append("loop[%s]" % " | ".join(sorted({"; ".join(self.events(y.a[0].iter_events(s))) for s in y.a[0].iters})))
                continue
            if y.k == "exhausted" and skip: skip = False; continue
            a = list(y.a)
            if y.k == "newqueue" and self.mask: a[1] = None
            r.append("%s(%s)" % (y.k, ", ".join(self.text(x) for x in a)))
        return r

    def text(self, x, d=0):
        if isinstance(x, V): return show(x)
        if isinstance(x, (list, tuple)) and d < 4: return "(%s)" % ",".join(self.text(y, d + 1) for y in x)
        if isinstance(x, dict): return str(x.get("rp") or x.get("p"))
        return str(x) if isinstance(x, (int, str, type(None))) else type(x).__name__

    def memory(self, st): return "\n".join(sorted("%s=%s" % (show(al[1]), show(v)) for al, v in st.mem.items() if isinstance(al, tuple) and al[0] == "h"))

    def outcome(self, o):
        e = self.e
        mem = self.memory(o.st)
        facts = sorted("%s=%s" % (show(t), v) for m in (o.st.truth, o.st.var) for t, v in m.items())
        return self.renumber("%s %s\n%s\n%s\n%s" % (o.kind, show(e.resolve(o.st, o.val)) if isinstance(o.val, V) else "", "\n".join(self.events(o.st.events())), mem, facts))

    def renumber(self, s):
        """Takes out the numbers of types, and counts fresh values in the order in which they appear."""
        ids = {}
        s = re.sub(r"\btype\((\d+)\)", lambda m: "type(%s)" % self.e.p.ts(int(m.group(1))), s)
        s = re.sub(r"\('f', (\d+), (\d+), \d+\)", r"('f', \1, \2)", s)
        s = re.sub(r"\.in\d+", ".in", s)
        s = re.sub(r"iter\(\(('\w+'), \d+", r"iter((\1", s)
        return re.sub(r"\d{8,}", lambda m: ids.setdefault(m.group(0), "~%d" % len(ids)) if int(m.group(0)) < 2 * FIRST else m.group(0), s)


def changed(p, differs):
    """Bodies that differ between the builds, or run one that does."""
    return reaches(p, {k for n in differs for k in named_bodies(p)[n][1]})


def outcomes(rep, config, key, mask, other):
    """What a function does; what it calls that is the same in both builds is one step that sees and changes all it is given."""
    before, engine_mod._uid[0] = engine_mod._uid[0], FIRST
    try:
        e = engine(rep, config)
        e.max_paths = 3000
        f = Effects(e, mask)

        def step(eng, st, call):
            eng.emit(st, "before", f.memory(st))
            return eng.opaque(st, call.c, call.args, call.dty)

        def lookup(eng, c):
            b = eng.p.bodies.get(c.get("b"))
            if b is None or not b["local"] or c["b"] in other: return None
            if any(eng.p.types[a].get("b") in other for a in list(c["a"]) + list(c.get("ra", ()))): return None
            return step
        e.h.insert(0, lookup)
        st = State()
        outs = e.run_fn(key, e.sym_args(key, st), st)
        rep.use(e)
        return {f.outcome(o) for o in outs}
    except Budget: return None
    finally: engine_mod._uid[0] = before


@rule("B01")
def b01(rep):
    rep.rule("For each build option, every function of the crate that exists in the build without and in the build with it has the same resolved MIR in both (types, callees, constants, control flow), and every type the same fields. A function that differs may do so only as its option is for: the functions of the logging module; a function whose outcomes (value, final memory, events in order, path conditions) are the same in both builds once yields, and loops that do nothing but yield, are left out; with unbounded queues, once the bounds of new queues are left out. What clients can call has the same signature and bounds in both. Without logging the logging functions do nothing and succeed.")
    for config, base, what in OPTIONS + (MORE if rep.thorough else []):
        main = prog(base)
        p = prog(config)
        A, B = named_bodies(prog(base)), named_bodies(p)
        both = sorted(set(A) & set(B))
        rep.floor("functions compared for " + what, len(both), 400)
        rep.floor("types compared for " + what, same_layout(rep, main, p, what), 60)
        a, b = offered(prog(base)), offered(p)
        for n in sorted(set(a) & set(b)):
            rep.ok(a[n][:2] == b[n][:2], "%s:bounds:%s" % (config, a[n][2]["p"]), "what %s takes or gives differs when the crate is built with %s" % (a[n][2]["p"], what), body_site(main, a[n][2]["key"]))
        rep.floor("public functions with the same signature for " + what, len(set(a) & set(b)), 100)
        local = {x["p"] for x in main.adts} & {x["p"] for x in p.adts}
        for ty, tr, args in sorted(impls_of(prog(base)) ^ impls_of(p)):
            if tr.split("::")[0] in ("core", "alloc", "std"):
                rep.ok(ty.split("<")[0] not in local or ty.startswith(LOG), "%s:impl:%s for %s" % (config, tr, ty), "whether %s implements %s depends on %s" % (ty, tr, what), None)
        differs = {n for n in both if A[n][0] != B[n][0]}
        other, other2 = changed(prog(base), differs), changed(p, differs)
        # code that only one build has is reached from code that differs, or is what the option adds
        for n in both:
            rep.obligations += 1
            if A[n][0] == B[n][0]: continue
            path = n.split("|")[0]
            key = next((k for k in A[n][1] if k in main.bodies), None)
            site = body_site(main, key)
            if config == "plain":
                rep.ok(path.startswith(LOG), "%s:%s" % (config, path), "%s does something else when the crate is built with %s" % (path, what), site)
                continue
            kb = B[n][1][0]
            if main.bodies[key]["argc"] != p.bodies[kb]["argc"] or "{closure" in n: same = False
            else:
                rep.count("functions that differ, run in both builds")
                a = outcomes(rep, base, key, config != "cycle", other)
                b = outcomes(rep, config, kb, config != "cycle", other2)
                same = a is not None and a == b
            rep.ok(same, "%s:%s" % (config, path), "%s does something else when the crate is built for %s" % (path, what), site)
    # logging that is not built in
    main = prog("main")
    p = prog("plain")
    n = 0
    for r in p.roots:
        if not r["p"].startswith(LOG) or r["key"] not in p.bodies: continue
        b = p.bodies[r["key"]]
        A, B = named_bodies(main), named_bodies(p)
        name = next((x for x, (_, ks) in B.items() if r["key"] in ks), None)
        if name not in A or A[name][0] == B[name][0]: continue
        n += 1
        e = engine(rep, "plain")
        st = State()
        for o in e.run_fn(r["key"], e.sym_args(r["key"], st), st):
            v = e.resolve(o.st, o.val) if o.kind == "ret" else None
            fine = o.kind == "ret" and all(y.k.startswith("drop") for y in o.st.events()) and (p.adt(v.ty) not in ("core::result::Result", "core::option::Option") or v.op == "agg" and v.a[0] == 0)
            rep.ok(fine, "off:" + r["p"], "%s does something although logging is not built in" % r["p"], body_site(p, r["key"]))
        rep.use(e)
    rep.floor("logging functions without logging", n, 3)


# ---- what a run does with what its loggers say --------------------------------------------------------------------------
# outside functions that only pass an answer on, print it or panic
PASS_ON = re.compile(r"^<?(core::(result|option|ops|clone|fmt|panicking|convert|mem::drop|cmp|ptr|default|error|any|bool|borrow|hint)\b|std::io::stdio::|std::panicking|alloc::(string|fmt|boxed|borrow|slice)\b|std::rt|std::error)")
# outside functions that a run can tell from doing nothing
STIRS = re.compile(r"core::sync::atomic::\S*::(store|swap|fetch_\w+|compare_\w+)|std::thread::(functions::|scoped::|builder::|spawnhook::)?(park\w*|sleep\w*|yield_now|spawn\w*|scope\w*)|std::thread::\S*::(unpark|join|spawn)\b|crossbeam_channel::channel::Receiver|std::process::|Condvar|Barrier|UnsafeCell::<T>::get|RefCell::<T>::(borrow_mut|replace|swap)|core::cell::Cell::<T>::(set|replace|swap)|std::env::set_|core::ptr::(write|replace|swap)")
SENDS = re.compile(r"crossbeam_channel::channel::Sender::<T>::\w*send")


def callee_names(c): return [x for x in (c.get("rp"), c["p"]) if x]


def stirs(p, c):
    """Whether calling this function that is not the library's can be told from not calling it."""
    if any(STIRS.search(n) for n in callee_names(c)): return True
    if any(SENDS.search(n) for n in callee_names(c)): return not any("logging::LogEntry" in p.ts(a) for a in list(c["a"]) + list(c.get("ra", ())))
    return c["k"] == "unresolved" and c.get("local") and c.get("trait") is not None and not c["trait"].startswith(LOG)


def calls_of(p, key):
    for st, t, cl in p.bodies[key]["bb"]:
        if t[0] == "call" and isinstance(t[1], int) and not cl: yield p.callees[t[1]], t
        for x in walk_consts([st, t]):
            if x[0] == "fn" and not (t[0] == "call" and t[1] == x[1]): yield p.callees[x[1]], None


def below(p, keys):
    """The library's own bodies that these run."""
    seen, work = set(), list(keys)
    while work:
        k = work.pop()
        if k in seen or k not in p.bodies or not p.bodies[k]["local"]: continue
        seen.add(k)
        work += callees_of(p).get(k, ())
    return seen


def in_log(b): return b["p"].startswith(LOG) or b["p"].startswith("<" + LOG)


class Flow:
    """Follows what loggers answer through the code that asks them."""
    def __init__(self, rep, p):
        self.rep, self.p = rep, p
        self.todo = {}          # (body, its arguments that come from a logger) -> None
        self.holds = {}         # closure body -> its captures that come from a logger
        self.gives = set()      # members of todo that return such a value
        self.asked = 0
        self.viol = {}
        self.harmless_memo = {}
        self.reads = {}

    def asks(self, c):
        """A call of a logging function that looks at the thread's logger and says something about it."""
        b = self.p.bodies.get(c.get("b"))
        if b is None or not in_log(b) or self.p.ts(b["l"][0]) in ("()", "!"): return False
        return any("LocalKey" in n for k in below(self.p, [c["b"]]) for d, _ in calls_of(self.p, k) for n in callee_names(d))

    def bad(self, key, what):
        b = self.p.bodies[key]
        name = re.sub(r"\d{2,}", "", b["p"])
        self.viol[(name, what)] = body_site(self.p, key)

    def run(self):
        p = self.p
        for k, b in p.bodies.items():
            if b["local"] and not in_log(b): self.todo[k, frozenset()] = None
        while True:
            before = (len(self.todo), sum(map(len, self.holds.values())), len(self.gives))
            self.asked = 0
            for k, args in list(self.todo): self.body(k, args)
            if (len(self.todo), sum(map(len, self.holds.values())), len(self.gives)) == before: return

    # ---- places
    def local_of(self, x): return x if isinstance(x, int) else x[0]

    def through(self, x): return not isinstance(x, int) and any(e == "*" or isinstance(e, list) and e[0] == "*" for e in x[1])

    def tainted_place(self, x, T, U):
        l = self.local_of(x)
        if l in T: return True
        if l == 1 and U and not isinstance(x, int):
            for e in x[1]:
                if isinstance(e, list) and e[0] == "f": return e[1] in U
        return False

    def operand(self, o, T, U): return o[0] in ("c", "m") and self.tainted_place(o[1], T, U)

    def places_in(self, r):
        if not isinstance(r, list): return []
        if len(r) == 2 and r[0] in ("c", "m") : return [r[1]]
        out = []
        if r[0] in ("ref", "discr"): out.append(r[1])
        for y in r[1:]:
            if isinstance(y, list): out += self.places_in(y) if y and isinstance(y[0], str) else [z for w in y if isinstance(w, list) for z in self.places_in(w)]
        return out

    def hears(self, k, args=()):
        """Has a body of the library looked at with these arguments; whether it returns an answer."""
        x = (k, frozenset(args))
        self.todo.setdefault(x)
        return x in self.gives

    def body(self, key, args):
        p = self.p
        b = p.bodies[key]
        U = self.holds.get(key, ())
        T = set(args)
        blocks = b["bb"]
        n = len(blocks)
        live = self.returning(key)
        for i, (st, t, cl) in enumerate(blocks):
            if t[0] == "call" and isinstance(t[1], int) and not cl and self.asks(p.callees[t[1]]): self.asked += 1
        # a body that hears nothing needs no second look
        if not T and not U and not any(t[0] == "call" and isinstance(t[1], int) and (self.asks(p.callees[t[1]]) or (p.callees[t[1]].get("b"), frozenset()) in self.gives or self.told(t, b)) for _, t, cl in blocks if not cl): return
        while True:
            size = len(T)
            for i, (st, t, cl) in enumerate(blocks):
                if cl: continue
                for s in st:
                    if s[0] != "=": continue
                    hears = any(self.tainted_place(x, T, U) for x in self.places_in(s[2]))
                    if not hears: continue
                    if s[2][0] == "agg" and s[2][1][0] == "closure":
                        k = p.types[s[2][1][1]].get("b")
                        if k in p.bodies: self.holds.setdefault(k, set()).update(j for j, o in enumerate(s[2][2]) if self.operand(o, T, U))
                        continue
                    self.assign(key, s[1], T, i in live)
                if t[0] == "call": self.call(key, t, T, U, i in live)
            for i, (st, t, cl) in enumerate(blocks):
                if cl or t[0] != "switch" or not self.operand(t[1], T, U): continue
                only = self.depends(key, i)
                for x in only: self.held(key, x, T, only)
            if len(T) == size: break
        if 0 in T: self.returns(key, args)

    def told(self, t, b):
        """Whether a closure that returns a logger's answer is handed over."""
        for o in t[2]:
            ty = b["l"][self.local_of(o[1])] if o[0] in ("c", "m") and isinstance(o[1], int) else o[1][1] if o[0] == "k" else None
            if isinstance(ty, int) and (self.p.types[ty].get("b"), frozenset()) in self.gives: return True
        return False

    def assign(self, key, place, T, live):
        b = self.p.bodies[key]
        if self.through(place) and self.p.tk(b["l"][self.local_of(place)]) in ("ref", "ptr") and live: self.bad(key, "keeps what a logger answered")
        ty = b["l"][self.local_of(place)]
        if self.p.ts(ty) in ("()", "!"): return
        T.add(self.local_of(place))

    def call(self, key, t, T, U, live):
        p = self.p
        b = p.bodies[key]
        heard = [j for j, o in enumerate(t[2]) if self.operand(o, T, U)]
        if not isinstance(t[1], int):
            if heard and live: self.bad(key, "hands what a logger answered to a function that is not known")
            return
        c = p.callees[t[1]]
        k = c.get("b")
        gives = self.asks(c) or (k, frozenset()) in self.gives or self.told(t, b)
        if heard:
            if k in p.bodies and p.bodies[k]["local"]:
                if in_log(p.bodies[k]): gives = gives or p.ts(p.bodies[k]["l"][0]) not in ("()", "!")
                else: gives = self.hears(k, [j + 1 for j in heard]) or gives
            else:
                gives = True
                if live and not any(PASS_ON.match(x) for x in callee_names(c)): self.bad(key, "hands what a logger answered to %s" % c["p"])
                for o in t[2]:
                    ty = b["l"][o[1]] if o[0] in ("c", "m") and isinstance(o[1], int) else o[1][1] if o[0] == "k" else None
                    f = p.types[ty].get("b") if isinstance(ty, int) else None
                    if f in p.bodies and p.bodies[f]["local"]:
                        if p.types[ty]["k"] == "closure": self.hears(f, range(2, p.bodies[f]["argc"] + 1))
                        if not self.harmless(f) and live: self.bad(key, "does something only for some answers of a logger")
        if gives: self.assign(key, t[3], T, live)

    # ---- what an answer decides
    def returning(self, key):
        """Blocks from which the function can return."""
        blocks = self.p.bodies[key]["bb"]
        pred = {}
        for i, (_, t, cl) in enumerate(blocks):
            if cl: continue
            for s in self.p.succs(t): pred.setdefault(s, set()).add(i)
        work = [i for i, (_, t, cl) in enumerate(blocks) if t[0] == "ret" and not cl]
        seen = set(work)
        while work:
            for x in pred.get(work.pop(), ()):
                if x not in seen: seen.add(x); work.append(x)
        return seen

    def depends(self, key, s):
        """Blocks that run only for some of the ways out of block s, among those from which the function returns."""
        blocks = self.p.bodies[key]["bb"]
        live = self.returning(key)
        succ = {i: [x for x in self.p.succs(blocks[i][1]) if x in live] for i in live}
        if len(set(succ.get(s, ()))) < 2: return frozenset()

        def reach(a, without):
            seen, work = set(), [a]
            while work:
                x = work.pop()
                if x in seen or x == without: continue
                seen.add(x)
                work += succ[x]
            return seen
        after = reach(s, None)
        ends = {i for i in after if blocks[i][1][0] == "ret"}
        always = [x for x in after if x != s and not (reach(s, x) & ends)]
        # the first block that every way to the end takes
        join = next((x for x in always if not any(y != x and x not in reach(s, y) for y in always)), None)
        r = set()
        for x in set(succ[s]): r |= reach(x, join)
        return frozenset(r)

    def held(self, key, i, T, only):
        p = self.p
        b = p.bodies[key]
        st, t, _ = b["bb"][i]
        for s in st:
            if s[0] != "=": continue
            if self.beyond(b, s[1]):
                self.bad(key, "changes something only for some answers of a logger")
            self.decided(key, self.local_of(s[1]), T, only)
        if t[0] == "call":
            if not isinstance(t[1], int) or not self.allowed(p.callees[t[1]]): self.bad(key, "does something only for some answers of a logger")
            self.decided(key, self.local_of(t[3]), T, only)
        if t[0] == "drop" and not self.idle_drop(t[3]): self.bad(key, "gives something up only for some answers of a logger")

    def beyond(self, b, x):
        """Whether a place is not the function's own, nor a logger's."""
        l = self.local_of(x)
        if not (self.through(x) and self.p.tk(b["l"][l]) in ("ref", "ptr") or l == 1 and "{closure" in b["p"]): return False
        tys = ([b["l"][l]] if not (l == 1 and "{closure" in b["p"]) else []) + [e[2] for e in x[1] if isinstance(e, list) and e[0] == "f"] if not isinstance(x, int) else []
        return not any(re.search(r"logging::\S*Log(Interface|Error)", self.p.ts(t)) for t in tys)

    def decided(self, key, l, T, only):
        """A local that only some answers change, and that the code after reads."""
        if l == 0 or l in self.read_in(key, only): self.assign(key, l, T, False)

    def read_in(self, key, but):
        if (key, but) in self.reads: return self.reads[key, but]
        r = set()

        def walk(x):
            for pl in self.places_in(x): r.add(self.local_of(pl))
        for i, (st, t, cl) in enumerate(self.p.bodies[key]["bb"]):
            if i in but or cl: continue
            for s in st:
                if s[0] != "=": continue
                walk(s[2])
                if not isinstance(s[1], int) and self.through(s[1]): r.add(self.local_of(s[1]))
            if t[0] == "switch": walk(["x", t[1]])
            if t[0] == "call": walk(["x"] + list(t[2]) + ([t[1]] if not isinstance(t[1], int) else []))
            if t[0] == "drop": r.add(self.local_of(t[1]))
            if t[0] == "assert": walk(["x", t[1]])
        self.reads[key, but] = r
        return r

    def allowed(self, c):
        k = c.get("b")
        if k in self.p.bodies and self.p.bodies[k]["local"]: return in_log(self.p.bodies[k]) or self.harmless(k)
        if c["k"] in ("unresolved", "virtual") and c.get("local") and "Identifiable" in (c.get("trait") or ""): return True
        return any(PASS_ON.match(x) for x in callee_names(c))

    def idle_drop(self, ty):
        s = self.p.ts(ty)
        return not any(self.p.bodies[d]["local"] and not in_log(self.p.bodies[d]) for d in type_dtors(self.p, ty) if d in self.p.bodies) and ("crossbeam" not in s) and not any(w in s for w in ("Sender<", "Receiver<", "JoinHandle", "Guard"))

    def harmless(self, k):
        """A function of the library that only looks, prints and panics."""
        if k in self.harmless_memo: return self.harmless_memo[k]
        self.harmless_memo[k] = True
        b = self.p.bodies[k]
        live = self.returning(k)
        ok = True
        for i, (st, t, cl) in enumerate(b["bb"]):
            if cl or i not in live: continue
            for s in st:
                if s[0] == "=" and self.beyond(b, s[1]): ok = False
            if t[0] == "call" and (not isinstance(t[1], int) or not self.allowed(self.p.callees[t[1]])): ok = False
            if t[0] == "drop" and not self.idle_drop(t[3]): ok = False
        self.harmless_memo[k] = ok
        return ok

    def returns(self, key, args):
        self.gives.add((key, args))
        # the caller that handed the answer over is looked at with what it gets back
        if args: return
        r = roots_by_key(self.p).get(key)
        b = self.p.bodies[key]
        if r is None or not (r["reach"] or r.get("trait")): return
        ty = self.p.ts(b["l"][0])
        if "logging::LogError" in ty or "logging::log_interface::LogInterface" in ty: return
        self.bad(key, "returns what a logger answered")


@rule("L05")
def l05(rep):
    rep.rule("Information flow over the resolved MIR of every function of the crate outside the logging module, to a fixpoint across calls, returns and closures: what a logging function says about the thread's logger (a result of logging, a copy of the logger) is only unwrapped, dropped, printed or handed to the logging module; it is not kept, returned by a public function or handed elsewhere, and what runs only for some answers neither changes anything nor calls anything but such functions (panicking is allowed). No function that logging runs, and no closure or serializer of the library that it runs, stores to atomics, sends on or receives from channels other than the log's, blocks, yields or wakes threads, writes through cells, or calls a trait of the library that is not the logging module's.")
    p = prog("main")
    f = Flow(rep, p)
    f.run()
    rep.count("functions followed", len(f.todo))
    rep.floor("questions to loggers", f.asked, 8)
    for (name, what), site in sorted(f.viol.items()): rep.ok(False, "flow:%s:%s" % (name, what), "%s %s" % (name, what), site)
    rep.obligations += len(f.todo)
    # what logging itself does
    own = {r["trait"] for r in p.roots if r.get("trait") == LOG + "LogProcessor"}
    rep.floor("kinds of log writers", len(own), 1)
    heads = {}
    for r in p.roots:
        if r["p"].startswith(LOG) and r.get("trait") not in own and r["key"] in p.bodies: heads[r["key"]] = r["p"]
    by = roots_by_key(p)
    for k, b in p.bodies.items():
        if b["local"] and in_log(b) and k not in by and "{closure" not in b["p"]: heads[k] = b["p"]
    told = set()
    for k, b in p.bodies.items():
        if not b["local"]: continue
        for c, t in calls_of(p, k):
            g = p.bodies.get(c.get("b"))
            if g is None or not in_log(g) or in_log(b): continue
            for a in list(c["a"]) + list(c.get("ra", ())):
                # closures and events handed to the logging functions
                if p.types[a]["k"] == "closure" and p.types[a].get("b") in p.bodies: told.add((p.types[a]["b"], a))
    for r in p.roots:
        if r.get("trait") == "serde_core::ser::Serialize" and r["key"] in p.bodies: heads[r["key"]] = r["p"]
    for k, ty in sorted(told):
        heads[k] = p.bodies[k]["p"]
        rep.ok(not any(p.types[u]["k"] == "ref" and p.types[u].get("mut") for u in p.types[ty]["ts"]), "closure:" + re.sub(r"\d{2,}", "", p.bodies[k]["p"]), "the closure that %s logs with can change what it captured" % p.bodies[k]["p"], body_site(p, k))
    seen = {}
    for h, n in heads.items():
        for k in below(p, [h]): seen.setdefault(k, n)
    for k, n in sorted(seen.items()):
        rep.obligations += 1
        for c, _ in calls_of(p, k):
            rep.ok(not stirs(p, c), "below:%s:%s" % (re.sub(r"\d{2,}", "", p.bodies[k]["p"]), c["p"]), "logging runs %s (below %s), which calls %s" % (p.bodies[k]["p"], n, c["p"]), body_site(p, k))
    rep.floor("functions below logging", len(seen), 25)
