"""Helpers shared by the rules."""
import sys
from check import prog
import std_models
from engine import Engine, State, V, mk, const, sym, named, isc, show, Out, Loop, Ev, prove_le, split, UNDEF, ZST, TIME_TY, older
from rules import rule


def engine(rep, config="main", layers=()):
    p = prog(config)
    e = Engine(p, handlers=[l for l in layers] + [std_models.lookup])
    return e


def find_fns(p, pred):
    """Body keys whose callee description satisfies pred(root)."""
    return [r for r in p.roots if pred(r)]


def root(p, path):
    """Body key of a root by its exact definition path."""
    r = [x["key"] for x in p.roots if x["p"] == path and x["key"] in p.bodies]
    return r[0] if len(r) == 1 else None


def truth_table(states): return [s.events() for s in states]


def paths(outs, panics=False):
    """Event-complete end states: every outcome and every loop iteration met on the way. Yields (kind, state, value)."""
    seen = set()
    work = [(o.kind, o.st, o.val) for o in outs if panics or o.kind == "ret"]
    while work:
        k, st, v = work.pop()
        yield k, st, v
        for rec in loops_of(st):
            if rec.serial in seen: continue
            seen.add(rec.serial)
            for s in rec.iters: work.append(("iter", s, rec))
            for o in rec.exits:
                if isinstance(o, tuple) and o[0] == "panic" and panics: work.append(("panic", o[1], o[2]))


def loops_of(st): return [x.a[0] for x in st.events() if x.k == "loop"]


def all_loops(outs):
    r = {}
    for k, st, v in paths(outs, True):
        for rec in loops_of(st): r[rec.serial] = rec
    return list(r.values())


def iter_evs(rec, s): return rec.iter_events(s)


def coll_src(it):
    """Root description of an iterator over a collection: (alloc, path, mode, value, [adapter names])."""
    names = []
    while it is not None and it.op == "iter":
        d = it.a[0]
        if d[0] == "coll": return d[2], d[3], d[4], d[5], names
        names.append(d[1] if d[0] == "adapt" else d[0])
        it = d[2] if len(d) > 2 and isinstance(d[2], V) else None
    return None


def src_key(rec): return coll_src(rec.src) if rec.src is not None else None


def body_site(p, key): return (p.bodies[key]["p"], p.bodies[key]["file"], p.bodies[key]["ln"])


def callers(p):
    """callee body key -> set of body keys that mention it (calls, function values, closures, drop glue destructors)."""
    if hasattr(p, "_callers"): return p._callers
    r = {}
    for k, ks in callees_of(p).items():
        for x in ks: r.setdefault(x, set()).add(k)
    p._callers = r
    return r


def type_dtors(p, ty, seen=None):
    """Bodies of destructors that the drop glue of a type runs."""
    if seen is None: seen = set()
    if ty is None or ty in seen: return set()
    seen.add(ty)
    t = p.types[ty]
    r = set()
    if t["k"] == "adt":
        if "dtor" in t:
            c = p.callees[t["dtor"]]
            if c.get("b"): r.add(c["b"])
        for v in t.get("vs") or ():
            for f in v[2]: r |= type_dtors(p, f[1], seen)
        for a in t["a"]: r |= type_dtors(p, a, seen)
    elif t["k"] in ("tuple", "closure"):
        for x in t["ts"]: r |= type_dtors(p, x, seen)
    elif t["k"] in ("array", "slice"): r |= type_dtors(p, t["t"], seen)
    return r


def callees_of(p):
    if hasattr(p, "_callees_of"): return p._callees_of
    r = {}
    for k, b in p.bodies.items():
        s = set()
        for bb in b["bb"]:
            for x in walk_consts([bb[0], bb[1]]):
                if x[0] == "fn":
                    c = p.callees[x[1]]
                    if c.get("b") in p.bodies: s.add(c["b"])
                elif x[0] == "closure":
                    t = p.types[x[1]]
                    if t.get("b") in p.bodies: s.add(t["b"])
            t = bb[1]
            if t[0] == "call" and isinstance(t[1], int):
                c = p.callees[t[1]]
                if c.get("b") in p.bodies: s.add(c["b"])
            if t[0] == "drop":
                for d in type_dtors(p, t[3]):
                    if d in p.bodies: s.add(d)
        # types of locals that are closures or function items
        for ty in set(b["l"]):
            t = p.types[ty]
            if t["k"] == "closure" and t.get("b") in p.bodies: s.add(t["b"])
            if t["k"] == "fndef":
                c = p.callees[t["c"]]
                if c.get("b") in p.bodies: s.add(c["b"])
        r[k] = s - {k}
    p._callees_of = r
    return r


def walk_consts(x):
    if isinstance(x, (list, tuple)):
        if len(x) >= 2 and x[0] == "k" and isinstance(x[1], list):
            c = x[1]
            if c and c[0] == "fn": yield ("fn", c[2])
        if len(x) >= 2 and x[0] == "closure" and isinstance(x[1], int): yield ("closure", x[1])
        for y in x: yield from walk_consts(y)


def reaches(p, targets, stop=()):
    """Bodies from which some target is reachable without passing through a stop body."""
    cl = callers(p)
    seen = set(targets)
    work = list(targets)
    while work:
        k = work.pop()
        for c in cl.get(k, ()):
            if c in seen or c in stop: continue
            seen.add(c)
            work.append(c)
    return seen


def roots_by_key(p): return {r["key"]: r for r in p.roots}


def len_of(t):
    """Collection whose length the term is."""
    if t is not None and t.op == "op" and t.a[0] == "len": return t.a[1]
    if t is not None and t.op == "iterlen": return None
    return None


PARTIAL = {"take", "skip", "step_by", "take_while", "skip_while", "map_while", "scan", "cycle", "drain"}


class Drive:
    """How a loop runs: over which iterator (or index range of a collection), and which exits leave it before the end."""
    def __init__(self, rec, e=None):
        self.rec, self.e = rec, e
        self.src, self.index = rec.src, None
        if self.src is None:
            cand = None
            for s in rec.iters:
                its = [x.a[0] for x in rec.iter_events(s) if x.k == "next"]
                # iterators of inner loops are consumed inside their own records
                if cand is None: cand = its[:1]
            if cand: self.src = cand[0]
        self.root = coll_src(self.src) if self.src is not None else None
        if self.root is None and e is not None: self.by_index()
        self.early, self.panics, self.done = [], [], []
        for o in rec.exits:
            k = o[0]
            if k == "panic": self.panics.append(o)
            elif k == "done" or (k == "exit" and self.src is not None and has_exhausted(o[1], rec, self.src)): self.done.append(o)
            elif self.index is not None and prove_le(o[1], e.length(o[1], self.root[3]), self.index): self.done.append(o)
            else: self.early.append(o)
        # adapters that leave elements out
        if self.root is not None and any(n in PARTIAL for n in self.root[4]): self.early.append(("partial", rec.init, None))

    def by_index(self):
        """for i in 0..v.len() and while i < v.len() { ..; i += 1 } visit every element of v."""
        e, rec = self.e, self.rec
        it, names = self.src, []
        while it is not None and it.op == "iter" and it.a[0][0] in ("rev", "map", "inspect", "byref", "copied"):
            names.append(it.a[0][0]); it = it.a[0][2]
        if it is not None and it.op == "iter" and it.a[0][0] == "range":
            _, _, lo, hi, incl = it.a[0]
            x = len_of(hi)
            if isc(lo) and lo.a[0] == 0 and not incl and x is not None: self.root = (None, None, "index", x, names)
            return
        if self.src is not None or rec.entry is None: return
        for al, i in rec.entry.mem.items():
            if i.op != "phi" or i.a[0][0] != rec.serial or i.ty is None or e.p.tk(i.ty) != "uint": continue
            i0 = e.subst_phi(rec.init, i, rec)
            if not (isc(i0) and i0.a[0] == 0): continue
            if not all(eq_terms(s, e.subst_phi(s, i, rec), e.binop(s, "Add", i, const(1, i.ty), i.ty)) for s in rec.iters): continue
            for s in rec.iters[:1]:
                for t, v in s.truth.items():
                    if v == 1 and t.op == "op" and t.a[0] == "Lt" and t.a[1] is i and len_of(t.a[2]) is not None:
                        self.index, self.root = i, (None, None, "index", len_of(t.a[2]), [])

    def item(self, s):
        """Element handed out by the driving iterator in an iteration."""
        if self.index is not None: return self.e.step(s, self.root[3], ("ix", self.index))
        for x in self.rec.iter_events(s):
            if x.k == "next" and self.root is not None and self.root[2] == "index" and x.a[0].op == "iter" and x.a[0].a[0][0] == "range":
                return self.e.step(s, self.root[3], ("ix", x.a[1]))
            if x.k == "next" and (x.a[0] is self.src or same_root(x.a[0], self.src)): return x.a[1]
        return None


def same_root(a, b):
    ra, rb = coll_src(a), coll_src(b)
    return ra is not None and rb is not None and ra[:4] == rb[:4]


def since(st, rec):
    """Events after the start of a loop's last iteration, for a state that left the loop."""
    r = []
    e = st.ev
    while e is not None:
        if e[1].k == "loop" and e[1].a[0] is rec: break
        r.append(e[1]); e = e[0]
    r.reverse()
    return r


def has_exhausted(st, rec, it):
    return any(x.k == "exhausted" and (x.a[0] is it or same_root(x.a[0], it)) for x in since(st, rec))


class Cover:
    """The executions over which a value is an extremum."""
    def __init__(self): self.consts, self.loops = [], []


def extremum(e, st, v, which, depth=0):
    """Decomposes v as which(...) over values and loop iterations; None when it is not such a value.
    Cover.consts: single values; Cover.loops: (rec, [(iteration state, accounted(c) -> bool, members)])."""
    c = Cover()
    if depth > 4: return None
    evs = st.events()
    for x in reversed(evs):
        if x.k == "reduce" and x.a[0] in (which, which + "_by_key") and len(x.a) > 3 and x.a[3] is v:
            rec = x.a[2]
            add_results(e, rec, c)
            return c
        if x.k == "reduce" and x.a[0] == which + "_by_key" and len(x.a) > 4 and x.a[4] is v and x.a[3] is not None:
            rec = x.a[2]
            c.loops.append((rec, [(s, lambda y, val=val: y is val.a[2], [val.a[2]]) for s, val in rec.results]))
            return c
    if v.op == "op" and v.a[0] == which:
        for a in v.a[1:]:
            d = extremum(e, st, a, which, depth + 1)
            if d is None: c.consts.append(a)
            else: c.consts += d.consts; c.loops += d.loops
        return c
    if v.op == "fld" and v.a[1] == 1 and v.a[0].op == "phi" and v.a[0].a[0][0] in e.loops and (e.p.adt(v.a[0].ty) or "") == "core::option::Option":
        # Option accumulator: None before the first element
        ph = v.a[0]
        rec = e.loops[ph.a[0][0]]
        init = e.resolve(rec.init, e.subst_phi(rec.init, ph, rec))
        if init.op != "agg": return None
        its = []
        for s in rec.iters:
            new = e.resolve(s, e.subst_phi(s, ph, rec))
            if new is ph: new = mk("agg", (1, v), ph.ty) if s.var.get(ph) == 1 else new
            if new.op != "agg" or new.a[0] != 1: return None
            x = new.a[1]
            if s.var.get(ph) == 0: its.append((s, lambda y, x=x: y is x, [x])); continue
            le = (lambda a, b, s=s: prove_le(s, a, b)) if which == "max" else (lambda a, b, s=s: prove_le(s, b, a))
            if not le(v, x): return None
            mem = [] if x is v else [x]
            if x.op == "op" and x.a[0] == which: mem = [a for a in x.a[1:] if a is not v]
            its.append((s, lambda y, x=x, le=le: le(y, x), mem))
        if init.a[0] == 1: c.consts.append(init.a[1])
        c.loops.append((rec, its))
        return c
    if v.op == "phi" and v.a[0][0] in e.loops:
        rec = e.loops[v.a[0][0]]
        init = e.subst_phi(rec.init, v, rec)
        its = []
        for s in rec.iters:
            new = e.subst_phi(s, v, rec)
            le = (lambda a, b, s=s: prove_le(s, a, b)) if which == "max" else (lambda a, b, s=s: prove_le(s, b, a))
            if not le(v, new): return None
            mem = [] if new is v else [new]
            if new.op == "op" and new.a[0] == which: mem = [a for a in new.a[1:] if a is not v]
            its.append((s, lambda x, new=new, le=le: le(x, new), mem))
        d = extremum(e, rec.init, init, which, depth + 1)
        if d is None: c.consts.append(init)
        else: c.consts += d.consts; c.loops += d.loops
        c.loops.append((rec, its))
        return c
    return None


def add_results(e, rec, c):
    d = Drive(rec)
    if d.root is not None and d.root[3].op == "collect" and d.root[3].a[0] in e.loops and all(n in ("copied", "byref", "rev") for n in d.root[4]):
        rec = e.loops[d.root[3].a[0]]
        return add_results(e, rec, c)
    c.loops.append((rec, [(s, lambda x, val=val: x is val, [val]) for s, val in rec.results]))


def never_set(e, st):
    """Was an Option accumulator found still empty, so that its loop handed out no element?"""
    for ph, k in st.var.items():
        if k != 0 or ph.op != "phi" or ph.a[0][0] not in e.loops or (e.p.adt(ph.ty) or "") != "core::option::Option": continue
        rec = e.loops[ph.a[0][0]]
        news = [e.resolve(s, e.subst_phi(s, ph, rec)) for s in rec.iters]
        if all(n.op == "agg" and n.a[0] == 1 or n is ph and s.var.get(ph) == 1 for n, s in zip(news, rec.iters)): return True
    return False


def eq_terms(st, a, b): return a is b or (prove_le(st, a, b) and prove_le(st, b, a))
