"""S04, S06, S07: running a program, its outcome, and identities."""
from rules import rule
from rules.base import *
from rules.contexts import of_type, alike, ident_of, ctx_types, own_clocks
from rules.endpoints import makers, walk_aggs
from rules.adapters import chan_engine
from rules.compute import complete, field
from layers import ContextLayer, OwnLayer, PartLayer

RUNS = ("context::Context::run_falliable", "context::Context::run")


def called(evs, *names): return [x for x in evs if x.k == "call" and x.a[0] in names]


def method(evs, name):
    return [x for x in evs if x.k == "call" and x.a[3].get("n") == name]


def deep(rec, s):
    """Events of an iteration and of the loops inside it."""
    for x in rec.iter_events(s):
        yield x
        if x.k == "loop":
            for z in x.a[0].iters: yield from deep(x.a[0], z)


def whole(st):
    """Events of a path, with those of the loops in it."""
    for x in st.events():
        yield x
        if x.k == "loop":
            for z in x.a[0].iters: yield from deep(x.a[0], z)


def sections(evs):
    """[(begin, events inside, end)] of the threads started among events."""
    r, stack = [], []
    for x in evs:
        if x.k == "spawn_begin": stack.append((x, []))
        elif x.k == "spawn_end":
            b, inner = stack.pop()
            r.append((b, inner, x))
            if stack: stack[-1][1].extend(inner)
        elif stack: stack[-1][1].append(x)
    return r


def same_place(e, st, a, b):
    """Do a and b lead to the same object?"""
    def chain(v):
        r = []
        for _ in range(4):
            v = e.resolve(st, v)
            t = e.p.types[v.ty] if v.ty is not None else {}
            if v.op != "ref" and t.get("k") not in ("ref", "ptr") and not (t.get("k") == "adt" and t.get("p") == "alloc::boxed::Box"): break
            d = e.deref(st, v)
            r.append(d)
            v = e.load(st, *d)
            if v is UNDEF: break
        return r
    ca, cb = chain(a), chain(b)
    return any(x in cb for x in ca)


def taken_from(e, v):
    """What a vector holds all elements of, in any order."""
    for _ in range(4):
        if v.op == "cell": v = v.a[0]
        rec = None
        if v.op == "collect": rec = e.loops.get(v.a[0])
        if rec is not None: parts = [(s, [x]) for s, x in rec.results]
        elif v.op == "phi" and v.a[0][0] in e.loops:
            rec = e.loops[v.a[0][0]]
            parts = added(e, rec, v)
            i0 = e.resolve(rec.init, e.subst_phi(rec.init, v, rec))
            if parts is None or i0.op != "empty": return v
        else: return v
        if not parts or len(parts) != len(rec.iters) or any(len(xs) != 1 for _, xs in parts): return v
        xs = [(s, xs[0]) for s, xs in parts]
        if all(x.op == "op" and x.a[0] == "popped" and x.a[1].op == "phi" and x.a[1].a[0][0] == rec.serial for _, x in xs):
            # emptied element by element
            q = xs[0][1].a[1]
            if any(x.a[1] is not q or e.subst_phi(s, q, rec).op != "popd" or e.subst_phi(s, q, rec).a[0] is not q for s, x in xs): return None
            if not all(prove_le(o[1], e.length(o[1], q), const(0, e.p.usize_ty)) for o in rec.exits if o[0] != "panic"): return None
            v = e.resolve(rec.init, e.subst_phi(rec.init, q, rec))
            continue
        d = Drive(rec, e)
        src = d.src
        for s, x in xs:
            items = [y.a[1] for y in rec.iter_events(s) if y.k == "next"]
            if not items or x is not items[-1]: return v
        if src is None or d.early: return None
        while src.a[0][0] in ("copied", "byref", "rev", "inspect"): src = src.a[0][2]
        if src.a[0][0] == "ext": v = src.a[0][2]
        elif src.a[0][0] == "coll": v = src.a[0][5]
        else: return None
    return v


def added(e, rec, ph):
    """[(state, values added)] for every iteration of a loop that fills a collection, or None."""
    r = []
    for s in rec.iters:
        v, xs = e.subst_phi(s, ph, rec), []
        while v is not ph:
            if v.op != "push": return None
            xs.append(v.a[1]); v = v.a[0]
        r.append((s, xs[::-1]))
    return r


def run_program(rep, config, *layers):
    p = prog(config)
    key = [x["key"] for x in p.roots if x["n"] == "run" and x.get("trait") is None and of_type(x, p, "Initialized") and x["key"] in p.bodies]
    if not rep.ok(len(key) == 1, "anchor:run", "an initialised program has no run method"): return None
    e, tl, cl = chan_engine(rep, config, False)
    ContextLayer(e)
    for l in layers: l(e)
    e.fresh_elems = True
    st = State()
    args = e.sym_args(key[0], st)
    outs = e.run_fn(key[0], args, st)
    rep.use(e)
    return e, cl, st, args, outs, body_site(p, key[0])


def typed(e, st, v, pred):
    """Fields of a value, at any depth of structs, whose type satisfies pred."""
    if v.ty is None: return []
    if pred(v.ty): return [v]
    t = e.p.types[v.ty]
    if t["k"] not in ("adt", "tuple") or e.p.is_enum(v.ty): return []
    r = []
    for i in range(e.p.nfields(v.ty, 0) or 0): r += typed(e, st, e.resolve(st, e.step(st, v, ("f", 0, i))), pred)
    return r


def vec_of(e, name):
    return lambda t: e.elem_ty(t) is not None and (e.p.adt(e.elem_ty(t)) or "").split("::")[-1] == name


def boxed_contexts(e):
    def ok(t):
        el = e.elem_ty(t)
        if el is None: return False
        d = e.p.types[el]
        return d["k"] == "adt" and d["p"] == "alloc::boxed::Box" and "context::Context" in e.p.ts(el)
    return ok


@rule("S04")
def s04(rep):
    rep.rule("On every path on which run returns, one loop over all contexts of the program, inside a thread scope, starts one scoped thread per context, which calls that context's run_falliable exactly once; when that returns Ok the thread adds the context's summary, taken afterwards, to the summaries and nothing to the failures, and when it returns Err it adds one failure with the context's identifier and the error to the failures and nothing to the summaries. The executed program is built, after the scope has ended, from all summaries and all failures. passed is true exactly when there are no failures, and run_failures hands out exactly them. On every path on which the run of a context that wraps others returns, each of them is run exactly once, alone on a thread, and replaced there by its summary as soon as it has run.")
    rep.assumptions.append("Thread scopes return only after their threads have ended; SegQueue keeps what is pushed; run_falliable does not panic.")
    for config in ("main", "mongo"): one_run(rep, config)
    verdict(rep)
    composites(rep, prog("main"))


def one_run(rep, config):
    r = run_program(rep, config)
    if r is None: return
    e, cl, st, args, outs, site = r
    nodes0 = typed(e, st, args[0], boxed_contexts(e))
    if not rep.ok(len(nodes0) == 1, "anchor:nodes", "the contexts of an initialised program cannot be found", site): return
    nodes0 = nodes0[0]
    n = m = 0
    done = set()
    for o in outs:
        if o.kind != "ret": continue
        n += 1
        evs = o.st.events()
        loops = [rec for rec in loops_of(o.st) if any(called(deep(rec, s), *RUNS) for s in rec.iters)]
        stray = called(evs, *RUNS)
        if not rep.ok(len(loops) == 1 and not stray, "run:once", "running a program does not run every context exactly once", site): continue
        rec = loops[0]
        d = Drive(rec, e)
        rep.ok(d.root is not None and alike(d.root[3], nodes0) and complete(e, rec, o.st), "run:all", "running a program leaves out some contexts", site)
        at = next(i for i, x in enumerate(evs) if x.k == "loop" and x.a[0] is rec)
        b = [i for i, x in enumerate(evs) if x.k == "scope_begin"]
        z = [i for i, x in enumerate(evs) if x.k == "scope_end"]
        rep.ok(any(i < at for i in b) and any(i > at for i in z), "run:waits", "running a program does not wait for all contexts", site)
        end = max(z, default=0)
        v = e.resolve(o.st, o.val)
        qs = []
        for name in ("ContextSummary", "SimulationError"):
            f = typed(e, o.st, v, vec_of(e, name))
            q = taken_from(e, f[0]) if len(f) == 1 else None
            rep.ok(q is not None and q.op == "phi" and q.a[0][0] == rec.serial, "run:result:" + name, "the executed program does not hold all of its %s" % ("summaries" if name == "ContextSummary" else "failures"), site)
            qs.append(q)
            early = [i for i, x in enumerate(evs) if i < end and x.k == "loop" and len(f) == 1 and f[0].op == "collect" and x.a[0].serial == f[0].a[0]]
            rep.ok(not early, "run:early", "the outcome of a run is taken before all contexts have finished", site)
        if rec.serial in done or None in qs: continue
        done.add(rec.serial)
        adds = []
        for q in qs:
            if q.op != "phi" or q.a[0][0] != rec.serial: adds.append(None); continue
            i0 = e.resolve(rec.init, e.subst_phi(rec.init, q, rec))
            rep.ok(i0.op in ("empty", "default") or isc(e.length(rec.init, i0)) and e.length(rec.init, i0).a[0] == 0, "run:starts", "a run starts with an outcome", site)
            adds.append(added(e, rec, q))
        if not rep.ok(None not in adds, "run:keeps", "a run drops an outcome it has recorded", site): continue
        for k, s in enumerate(rec.iters):
            m += 1
            one_context(rep, e, rec, s, adds[0][k][1], adds[1][k][1], site)
    rep.floor("finished runs", n, 1)
    rep.floor("outcomes of a context", m, 2)


def one_context(rep, e, rec, s, good, bad, site):
    evs = rec.iter_events(s)
    items = [x.a[1] for x in evs if x.k == "next"]
    secs = [x for x in sections(evs) if called(x[1], *RUNS)]
    if not rep.ok(len(called(deep(rec, s), *RUNS)) == 1 and len(secs) == 1, "run:once", "running a program does not run every context exactly once, on its own thread", site): return
    b, inner, end = secs[0]
    rep.ok("scope" in b.a[0].lower(), "run:waits", "running a program does not wait for all contexts", site)
    c = called(inner, *RUNS)[0]
    rep.ok(c.a[0] == RUNS[0], "run:fallible", "a context is not run through its fallible entry point", site)
    rep.ok(any(same_place(e, s, c.a[1][0], i) for i in items), "run:child", "a thread runs another context than its own", site)
    r = e.resolve(s, c.a[2])
    k = r.a[0] if r.op == "agg" else s.var.get(c.a[2])
    if not rep.ok(k in (0, 1), "run:asks", "the result of a context is ignored", site): return
    after = inner[inner.index(c) + 1:]
    if k == 0:
        sm = [x for x in method(after, "summarize") if same_place(e, s, x.a[1][0], c.a[1][0])]
        rep.ok(len(good) == 1 and any(good[0] is x.a[2] for x in sm), "run:summary", "a context that finished does not contribute its summary exactly once", site)
        rep.ok(not bad, "run:nofail", "a context that finished is reported as a failure", site)
    else:
        rep.ok(not good, "run:nosum", "a context that failed contributes a summary", site)
        if not rep.ok(len(bad) == 1, "run:failure", "a context that failed is not reported exactly once", site): return
        f = bad[0]
        who = [x for x in parts_of(e, s, f) if x.op == "op" and x.a[0] == "ctx_id"]
        rep.ok(len(who) == 1 and same_place(e, s, who[0].a[1], c.a[1][0]), "run:who", "a failure names another context than the one that failed", site)
        err = e.resolve(s, e.step(s, c.a[2], ("f", 1, 0)))
        rep.ok(any(x is err for x in parts_of(e, s, f)), "run:why", "a failure does not carry the error of the context", site)


def parts_of(e, s, v, depth=0):
    v = e.resolve(s, v)
    r = [v]
    if depth > 5: return r
    if v.op == "agg":
        for x in v.a[1:]: r += parts_of(e, s, x, depth + 1)
    elif v.op == "fld": r += parts_of(e, s, v.a[0], depth + 1)
    return r


def verdict(rep):
    p = prog("main")
    for name in ("passed", "run_failures"):
        key = [x["key"] for x in p.roots if x["n"] == name and x.get("trait") is None and of_type(x, p, "Executed") and x["key"] in p.bodies]
        if not rep.ok(len(key) == 1, "anchor:" + name, "Executed::%s is gone" % name): continue
        e, tl, cl = chan_engine(rep)
        st = State()
        args = e.sym_args(key[0], st)
        outs = e.run_fn(key[0], args, st)
        rep.use(e)
        site = body_site(p, key[0])
        f = typed(e, st, e.seen_by(st, args[0]), vec_of(e, "SimulationError"))
        if not rep.ok(len(f) == 1, "anchor:failures", "the failures of an executed program cannot be found", site): continue
        f = f[0]
        n = 0
        for o in outs:
            if not rep.ok(o.kind == "ret", name + ":panics", "%s can panic" % name, site): continue
            if name == "passed":
                ln = e.length(o.st, f)
                for s, x in e.truth_split(o.st, e.resolve(o.st, o.val)):
                    n += 1
                    none = prove_le(s, ln, const(0, p.usize_ty))
                    some = prove_le(s, const(1, p.usize_ty), ln)
                    rep.ok(none if x else some, "passed:%d" % x, "passed does not say whether there were failures", site)
            else:
                n += 1
                uc = [x for x in o.st.events() if x.k == "usercall"]
                rep.ok(len(uc) == 1 and any(alike(y, f) for y in uc[0].a[3]) and e.resolve(o.st, o.val) is uc[0].a[2], "run_failures", "run_failures does not hand out the failures", site)
        rep.floor(name, n, 1)


# ---- elapsed time
def methods_of(p, adt, name, trait=None):
    return [x["key"] for x in p.roots if x["n"] == name and x.get("trait") == trait and x.get("self") is not None and p.adt(x["self"]) == adt and x["key"] in p.bodies]


def own_engine(rep, config="main"):
    e, tl, cl = chan_engine(rep, config, False)
    OwnLayer(e)
    return e, tl, cl


def visits(e, o, rec, coll):
    """Iterations of a loop over a collection, when the loop was left with every element of it visited."""
    def root_of(it):
        r = coll_src(it)
        return r if r is not None and alike(r[3], coll) and not any(n in PARTIAL for n in r[4]) else None
    it = [(s, x) for s in rec.iters for x in rec.iter_events(s) if x.k == "next" and root_of(x.a[0]) is not None]
    d = Drive(rec, e)
    full = d.root is not None and alike(d.root[3], coll) and not d.early
    full = full or any(x.k == "exhausted" and root_of(x.a[0]) is not None for x in since(o.st, rec))
    full = full or any(x.k == "exhausted" and root_of(x.a[0]) is not None and any(y.k == "loop" and y.a[0] is rec for y in o.st.events()) for x in o.st.events())
    return it if full else None


def greatest(rep, e, o, v, coll, item_val, lab, what, site):
    """Is v a maximum that takes item_val of every element of coll into account? Returns the other values in it, or None."""
    cv = extremum(e, o.st, v, "max")
    for x in o.st.events():
        # another maximum that this path found to be no greater
        if x.k != "reduce" or x.a[0] != "max" or len(x.a) < 4 or x.a[3] is None or x.a[3] is v or not prove_le(o.st, x.a[3], v): continue
        d = extremum(e, o.st, x.a[3], "max")
        if d is None: continue
        if cv is None:
            cv = Cover()
            cv.consts.append(v)
        cv.loops += d.loops
    if not rep.ok(cv is not None, lab + ":max", "%s is not a maximum" % what, site): return None
    others = list(cv.consts)
    found = False
    for rec, its in cv.loops:
        vis = visits(e, o, rec, coll)
        mine = {id(s): x for s, x in vis} if vis is not None else {}
        for s, acc, mem in its:
            if id(s) in mine:
                found = True
                t = item_val(s, mine[id(s)])
                rep.ok(any(acc(y) for y in t), lab + ":skip", "%s leaves something out" % what, site)
                others += [y for y in mem if not any(eq_terms(s, y, z) for z in t)]
            else: others += mem
    if not found: return None
    return others


@rule("S06")
def s06(rep):
    rep.rule("elapsed_cycles is None only without summaries and otherwise the maximum of max_time over every summary; max_time of a summary is the maximum of the ticks of its own view and max_time of every child; a context's summary carries its own identity, its own view and the summaries of exactly the contexts it wraps, and its view is made of theirs; cleaning up a wrapped context replaces it by the summary it reports then, and its later summary and view are that summary and its view; finishing or dropping a clock leaves its tick count alone, and views and times still show it.")
    p = prog("main")
    elapsed(rep, p)
    latest(rep, p)
    summaries(rep, p)
    wrapped(rep, p)
    part_views(rep, p)
    kept(rep, p)


def elapsed(rep, p):
    key = [x["key"] for x in p.roots if x["n"] == "elapsed_cycles" and x.get("trait") is None and of_type(x, p, "Executed") and x["key"] in p.bodies]
    if not rep.ok(len(key) == 1, "anchor:elapsed", "Executed::elapsed_cycles is gone"): return
    e, tl, cl = own_engine(rep)
    st = State()
    args = e.sym_args(key[0], st)
    outs = e.run_fn(key[0], args, st)
    rep.use(e)
    site = body_site(p, key[0])
    f = typed(e, st, e.seen_by(st, args[0]), vec_of(e, "ContextSummary"))
    if not rep.ok(len(f) == 1, "anchor:summaries", "the summaries of an executed program cannot be found", site): return
    n = 0
    for o in outs:
        if not rep.ok(o.kind == "ret", "elapsed:panics", "elapsed_cycles can panic", site): continue
        v = e.resolve(o.st, o.val)
        if v.op != "agg" and v.op == "phi" and o.st.var.get(v) is None:
            # an optional maximum kept in a loop: both of its forms
            cases = [(0, None), (1, e.resolve(o.st, e.field_of(v, 1, 0)))]
        elif v.op == "agg": cases = [(v.a[0], v.a[1] if len(v.a) > 1 else None)]
        else: cases = [(o.st.var.get(v), e.resolve(o.st, e.field_of(v, 1, 0)))]
        for k, x in cases:
            if not rep.ok(k in (0, 1), "elapsed:max", "the elapsed time is not a maximum", site): continue
            if k == 0:
                none = prove_le(o.st, e.length(o.st, f[0]), const(0, p.usize_ty)) or never_set(e, o.st)
                rep.ok(none or len(cases) == 2, "elapsed:none", "a program with summaries has no elapsed time", site)
                continue
            n += 1
            rest = greatest(rep, e, o, x, f[0], lambda s, ev: max_of(e, s, ev), "elapsed", "the elapsed time", site)
            rep.ok(rest is not None, "elapsed:all", "the elapsed time leaves out some contexts", site)
            for y in rest or []: rep.ok(isc(y) and y.a[0] == 0, "elapsed:other", "the elapsed time is the time of no context", site)
    rep.floor("elapsed times", n, 1)


def max_of(e, s, ev):
    """max_time of the element that an iteration visits."""
    return [y for y in seen_terms(e, s, "max_time") if same_place(e, s, y.a[1], ev.a[1]) or place_of_item(e, s, y.a[1], ev)]


def place_of_item(e, s, ref, ev):
    al, path = e.deref(s, ref)
    r = coll_src(ev.a[0])
    return r is not None and r[0] == al and path and path[-1][0] == "ix" and path[-1][1] is ev.a[2]


def seen_terms(e, s, op):
    """Terms of one kind that occur in a state's results."""
    r, seen = [], set()
    def go(v, d):
        if not isinstance(v, V) or id(v) in seen or d > 12: return
        seen.add(id(v))
        if v.op == "op" and v.a[0] == op: r.append(v)
        for x in v.a: go(x, d + 1)
    for v in list(s.mem.values()) + [f[i] for f in s.ord for i in (0, 1) if isinstance(f, tuple) and len(f) > 1]: go(v, 0)
    for t in s.truth: go(t, 0)
    for rec in e.loops.values():
        for z, v in rec.results:
            if z is s: go(v, 0)
    for x in s.events():
        for y in x.a: go(y, 0)
    return r


def latest(rep, p):
    key = root(p, "context::summary::ContextSummary::max_time")
    if not rep.ok(key is not None, "anchor:max_time", "ContextSummary::max_time is gone"): return
    e, tl, cl = own_engine(rep)
    st = State()
    args = e.sym_args(key, st)
    outs = e.run_fn(key, args, st)
    rep.use(e)
    site = body_site(p, key)
    me = e.seen_by(st, args[0])
    kids = typed(e, st, me, vec_of(e, "ContextSummary"))
    if not rep.ok(len(kids) == 1, "anchor:children", "a summary has no list of children", site): return
    n = 0
    for o in outs:
        if not rep.ok(o.kind == "ret", "latest:panics", "max_time can panic", site): continue
        own = [mk("op", ("ticks", x.a[1]), o.val.ty) for x in o.st.events() if x.k == "view_tlb"]
        v = e.resolve(o.st, o.val)
        n += 1
        isown = lambda y: y.op == "op" and y.a[0] == "ticks" and any(y.a[1] is z.a[1] for z in own)
        empty = prove_le(o.st, e.length(o.st, kids[0]), const(0, p.usize_ty))
        if isown(v) and empty: continue
        rest = greatest(rep, e, o, v, kids[0], lambda s, ev: max_of(e, s, ev), "latest", "the time of a summary", site)
        if not rep.ok(rest is not None or empty, "latest:all", "the time of a summary leaves out some children", site): continue
        if rest is None: continue
        rep.ok(any(isown(y) for y in rest) or any(prove_le(o.st, y, v) for y in own), "latest:own", "the time of a summary leaves out its own clock", site)
        for y in rest: rep.ok(isown(y) or isc(y) and y.a[0] == 0, "latest:other", "the time of a summary is the time of no context", site)
        views = [x.a[0] for x in o.st.events() if x.k == "view_tlb"]
        rep.ok(all(any(alike(x, y) for y in typed(e, o.st, me, lambda t: (p.adt(t) or "").endswith("view::TimeView"))) for x in views), "latest:view", "the time of a summary is that of another view", site)
    rep.floor("times of a summary", n, 1)


def elements(e, st, v):
    """Elements of a vector built at once, or None."""
    v = e.resolve(st, v)
    if v.op in ("empty",): return []
    if v.op == "push":
        r = elements(e, st, v.a[0])
        return None if r is None else r + [v.a[1]]
    if v.op == "agg": return list(v.a[1:])
    if v.op == "collect" and v.a[0] in e.loops:
        from rules.program import source
        rec = e.loops[v.a[0]]
        src, names = source(rec.src) if rec.src is not None else (None, ())
        known = elements(e, st, src) if src is not None and set(names) <= {"map", "copied", "cloned", "byref", "rev"} else None
        if known is None or not len(known) == len(rec.results) == len(rec.iters): return None
        return [e.resolve(t, x) for t, x in rec.results]
    return None


def proxies(p, ty, path=()):
    """Paths of wrapped contexts inside a context."""
    r = []
    t = p.types[ty]
    if t["k"] != "adt" or not t.get("local") or p.is_enum(ty): return r
    for i in range(p.nfields(ty, 0) or 0):
        ft = p.field_ty(ty, 0, i)
        q = path + (("f", 0, i),)
        if (p.adt(ft) or "").endswith("::ProxyContext"): r.append(q)
        elif len(q) < 4: r += proxies(p, ft, q)
    return r


def composites(rep, p):
    """A context that wraps others runs each of them, exactly once, and cleans it up when it has run and no later."""
    n = 0
    for x in p.roots:
        if x.get("trait") != "context::Context" or x["n"] not in ("run", "run_falliable") or x["key"] not in p.bodies or x.get("self") is None: continue
        if p.adt(x["self"]) is None or p.bodies[x["key"]].get("provided") or x["kind"] == "provided": continue
        inner = proxies(p, x["self"])
        if not inner: continue
        name = p.adt(x["self"]).split("::")[-1]
        e, tl, cl = chan_engine(rep, "main", False)
        OwnLayer(e)
        PartLayer(e)
        st = State()
        args = e.sym_args(x["key"], st)
        me = e.deref(st, args[0])
        at0 = [e.load(st, me[0], me[1] + q) for q in inner]
        outs = e.run_fn(x["key"], args, st)
        rep.use(e)
        site = body_site(p, x["key"])
        for o in outs:
            if o.kind != "ret": continue
            s, evs = o.st, list(whole(o.st))
            own = lambda r, q: r.op == "ref" and e.deref(s, r)[0] == me[0] and [y[:3] for y in e.deref(s, r)[1]][:len(me[1] + q)] == [y[:3] for y in me[1] + q]
            secs = sections(evs)
            if any(s.var.get(v) is not None and closed(p, v.ty, s.var[v]) for v in at0): continue
            for q in inner:
                n += 1
                runs = [y for y in evs if y.k == "part" and own(y.a[0], q)]
                if not rep.ok(len(runs) == 1, "part:once:" + name, "%s does not run each context it wraps exactly once" % name, site): continue
                v = e.resolve(s, e.load(s, me[0], me[1] + q))
                if not rep.ok(v.op == "agg" and closed(p, v.ty, v.a[0]), "part:kept:" + name, "%s can finish without having cleaned up a context it wraps" % name, site): continue
                rep.ok(any(y.op == "op" and y.a[0] == "ctx_summary" and same_ref(e, s, y.a[1], runs[0].a[0]) for y in [e.resolve(s, v.a[1])]), "part:summary:" + name, "%s cleans up a context it wraps to something else than its summary" % name, site)
                sec = [i for b, i, z in secs if runs[0] in i]
                if not rep.ok(len(sec) == 1, "part:thread:" + name, "%s does not run a context it wraps on a thread of its own" % name, site): continue
                after = sec[0][sec[0].index(runs[0]) + 1:]
                rep.ok(any(y.k == "summed" and own(y.a[0], q) for y in after), "part:late:" + name, "%s does not clean up a context it wraps as soon as it has run" % name, site)
                rep.ok(sum(y.k == "part" for y in sec[0]) == 1, "part:shared:" + name, "%s runs two contexts on one thread" % name, site)
    rep.floor("contexts wrapped by composite contexts", n, 2)


def closed(p, ty, k): return any((p.adt(f[1]) or "").endswith("ContextSummary") for f in p.variants(ty)[k][2])


def same_ref(e, st, a, b):
    if a.op != "ref" or b.op != "ref": return a is b
    x, y = e.deref(st, a), e.deref(st, b)
    return x[0] == y[0] and [q[:3] for q in x[1]] == [q[:3] for q in y[1]]


def part_views(rep, p):
    """The view of a context that wraps others covers all of them."""
    n = 0
    for x in p.roots:
        if x.get("trait") != "view::TimeViewable" or x["n"] != "view" or x["key"] not in p.bodies or x.get("self") is None or p.adt(x["self"]) is None: continue
        inner = proxies(p, x["self"])
        if not inner: continue
        name = p.adt(x["self"]).split("::")[-1]
        e, tl, cl = own_engine(rep)
        st = State()
        args = e.sym_args(x["key"], st)
        outs = e.run_fn(x["key"], args, st)
        rep.use(e)
        site = body_site(p, x["key"])
        me = e.deref(st, args[0])
        rep.ok(any(o.kind == "ret" for o in outs), "views:returns:" + name, "%s has no view" % name, site)
        for o in outs:
            if o.kind != "ret": continue
            s, v = o.st, e.resolve(o.st, o.val)
            lists = [y for y in parts_of(e, s, v) if y.ty is not None and vec_of(e, "TimeView")(y.ty)]
            ch = elements(e, s, lists[0]) if len(lists) == 1 else None
            if not rep.ok(ch is not None, "views:children:" + name, "the view of %s is not made of those of the contexts it wraps" % name, site): continue
            ch = [e.resolve(s, y) for y in ch]
            for q in inner:
                n += 1
                is_own = lambda r: r.op == "ref" and r.a[0] == me[0] and [y[:3] for y in r.a[1]] == [y[:3] for y in me[1] + q]
                rep.ok(any(y.op == "op" and y.a[0] == "ctx_view" and is_own(y.a[1]) for y in ch), "views:child:" + name, "the view of %s does not cover a context it wraps" % name, site)
            rep.ok(all(y.op == "op" and y.a[0] == "ctx_view" and y.a[1].op == "ref" and y.a[1].a[0] == me[0] for y in ch), "views:extra:" + name, "the view of %s covers something else than the contexts it wraps" % name, site)
    rep.floor("contexts covered by a composite context's view", n, 2)


def summaries(rep, p):
    n = comp = 0
    for x in p.roots:
        if x.get("trait") != "context::Context" or x["n"] != "summarize" or x["key"] not in p.bodies or x.get("self") is None: continue
        if p.adt(x["self"]) is None: continue
        name = p.adt(x["self"]).split("::")[-1]
        e, tl, cl = own_engine(rep)
        st = State()
        args = e.sym_args(x["key"], st)
        outs = e.run_fn(x["key"], args, st)
        rep.use(e)
        site = body_site(p, x["key"])
        n += 1
        me = e.deref(st, args[0])
        inner = proxies(p, x["self"])
        if inner: comp += 1
        rets = [o for o in outs if o.kind == "ret"]
        rep.ok(bool(rets), "summary:returns:" + name, "%s never gives a summary" % name, site)
        is_own = lambda s, r, path=(): r.op == "ref" and r.a[0] == me[0] and [q[:3] for q in r.a[1]] == [q[:3] for q in me[1] + path]
        for o in rets:
            s, v = o.st, e.resolve(o.st, o.val)
            ids = [y for y in parts_of(e, s, v) if y.op == "op" and y.a[0] == "ctx_id"]
            top = [e.resolve(s, e.step(s, v, ("f", 0, i))) for i in range(p.nfields(v.ty, 0))]
            who = [y for t in top[:] if (p.adt(t.ty) or "").endswith("VerboseIdentifier") for y in parts_of(e, s, t) if y.op == "op" and y.a[0] == "ctx_id"]
            rep.ok(len(who) == 1 and is_own(s, who[0].a[1]), "summary:id:" + name, "the summary of %s carries another identity than its own" % name, site)
            vs = [t for t in top if (p.adt(t.ty) or "").endswith("TimeView")]
            rep.ok(len(vs) == 1 and vs[0].op == "op" and vs[0].a[0] == "ctx_view" and is_own(s, vs[0].a[1]), "summary:time:" + name, "the summary of %s carries another clock than its own" % name, site)
            ks = [t for t in top if vec_of(e, "ContextSummary")(t.ty)]
            ch = elements(e, s, ks[0]) if len(ks) == 1 else None
            if not rep.ok(ch is not None, "summary:children:" + name, "the summary of %s does not list the contexts it wraps" % name, site): continue
            ch = [e.resolve(s, y) for y in ch]
            for q in inner:
                rep.ok(sum(y.op == "op" and y.a[0] == "ctx_summary" and is_own(s, y.a[1], q) for y in ch) == 1, "summary:child:" + name, "the summary of %s leaves out a context it wraps, or lists it twice" % name, site)
            rep.ok(len(ch) == len(inner), "summary:extra:" + name, "the summary of %s lists something else than the contexts it wraps" % name, site)
    rep.floor("summaries of the library's contexts", n, 12)
    rep.floor("composite contexts", comp, 1)


def wrapped(rep, p):
    PX = "context::proxy::ProxyContext"
    ty = p.find_adt(PX)
    vs = p.variants(ty) if ty is not None else None
    holds = [i for i, v in enumerate(vs or []) if any((p.adt(f[1]) or "").endswith("ContextSummary") for f in v[2])]
    if not rep.ok(vs is not None and len(vs) == 2 and len(holds) == 1, "anchor:proxy", "a wrapped context is no longer either running or a summary"): return
    K = holds[0]
    for name, trait in (("cleanup", "types::Cleanable"), ("summarize", None), ("view", "view::TimeViewable")):
        key = methods_of(p, PX, name, trait)
        if not rep.ok(len(key) == 1, "anchor:proxy:" + name, "a wrapped context has no %s" % name): continue
        e, tl, cl = chan_engine(rep, "main", False)
        st = State()
        args = e.sym_args(key[0], st)
        me = e.deref(st, args[0])
        v0 = e.load(st, *me)
        outs = e.run_fn(key[0], args, st)
        rep.use(e)
        site = body_site(p, key[0])
        n = 0
        for o in outs:
            s = o.st
            k = s.var.get(v0)
            if not rep.ok(k in (0, 1), "proxy:asks:" + name, "%s of a wrapped context ignores whether it has been cleaned up" % name, site): continue
            old = e.resolve(s, e.field_of(v0, K, 0))
            if name == "cleanup":
                if not rep.ok(o.kind == "ret", "proxy:panics", "cleaning up a wrapped context can panic", site): continue
                n += 1
                v1 = e.resolve(s, e.load(s, *me))
                if k == K: rep.ok(v1 is v0 or v1.op == "agg" and v1.a[0] == K and same_parts(e, s, v1.a[1], old), "proxy:again", "cleaning up a context twice loses its summary", site)
                else:
                    sm = method(s.events(), "summarize")
                    rep.ok(len(sm) == 1 and v1.op == "agg" and v1.a[0] == K and e.resolve(s, v1.a[1]) is sm[0].a[2] and e.deref(s, sm[0].a[1][0])[0] == me[0], "proxy:cleanup", "cleaning up a wrapped context does not keep the summary it reports", site)
            elif k == K:
                if not rep.ok(o.kind == "ret", "proxy:lost:" + name, "%s of a cleaned-up context fails" % name, site): continue
                n += 1
                want = old if name == "summarize" else [t for t in (e.resolve(s, e.step(s, old, ("f", 0, i))) for i in range(p.nfields(old.ty, 0))) if (p.adt(t.ty) or "").endswith("TimeView")][0]
                rep.ok(same_parts(e, s, o.val, want), "proxy:" + name, "%s of a cleaned-up context is not that of its summary" % name, site)
            elif name == "view":
                n += 1
                vw = method(s.events(), "view")
                rep.ok(o.kind == "ret" and len(vw) == 1 and e.resolve(s, o.val) is vw[0].a[2] and e.deref(s, vw[0].a[1][0])[0] == me[0], "proxy:view", "the view of a wrapped context is not that of the context", site)
        rep.floor("outcomes of %s of a wrapped context" % name, n, 1)


def same_parts(e, s, a, b):
    """Equal, field by field."""
    a, b = e.resolve(s, a), e.resolve(s, b)
    if a is b or alike(a, b): return True
    if a.op != "agg": return False
    if a.a[0] != 0 and s.var.get(b) != a.a[0]: return False
    return len(a.a) > 1 and all(same_parts(e, s, x, e.step(s, b, ("f", a.a[0], i))) for i, x in enumerate(a.a[1:]))


def kept(rep, p):
    from rules.clocks import Clock, TV, ops_ok, wait_run, BASIC, loaded, parts
    ops = ops_ok(rep, p)
    if ops is None: return
    tv = TV(p)
    for name in ("cleanup", "drop"):
        site = body_site(p, ops[name])
        for d in (0, 1):
            e = engine(rep)
            from layers import LogLayer
            LogLayer(e)
            ck = Clock(e, ops)
            c0 = ck.read(ck.st)
            if not rep.ok(c0 is not None, "tick", "reading the clock has no single value", site): return
            st = ck.st.copy()
            e.assume(st, tv.inf(c0), d)
            for o in e.run_fn(ops[name], [ck.ref], st):
                c1 = ck.read(o.st)
                rep.ok(c1 is not None and eq_terms(o.st, tv.ticks(c1), tv.ticks(c0)), "kept:" + name, "finishing a clock loses the cycle it had reached", site)
            rep.use(e)
    key = root(p, BASIC + "tick_lower_bound")
    if rep.ok(key is not None, "anchor:basic", "the basic view has no tick_lower_bound"):
        e, outs, _ = wait_run(rep, p, key, tv)
        for o in outs:
            tks, fls = loaded(e, p, o.st.events())
            t, d = parts(e, o.st, tv, o.val)
            rep.ok(o.kind == "ret" and any(eq_terms(o.st, t, x) for x in tks), "kept:view", "the view of a finished clock does not show the cycle it had reached", body_site(p, key))
        rep.use(e)
    key = methods_of(p, p.adt(tv.ty), "time")
    if rep.ok(len(key) == 1, "anchor:time", "Time::time is gone"):
        for d in (0, 1):
            e = engine(rep)
            st = State()
            v = tv.make("t", d)
            args = e.sym_args(key[0], st)
            if e.p.tk(args[0].ty) == "ref":
                a = e.new_alloc(st, v); v1 = e.ref(a, ())
            else: v1 = v
            for o in e.run_fn(key[0], [v1], st): rep.ok(o.kind == "ret" and eq_terms(o.st, o.val, tv.ticks(v)), "kept:time", "the tick count of a finished time is not the cycle it had reached", body_site(p, key[0]))
            rep.use(e)


# ---- identities
RMW = ("fetch_add", "fetch_update", "compare_exchange", "compare_exchange_weak")
WIDE = ("usize", "u64", "u128", "i64", "isize", "i128")
ID_TYPES = ("::Identifier", "::ChannelID")


def fresh_values(e, st):
    """{term: static} of the numbers taken from a global counter on this path, each taken once."""
    r, again = {}, set()
    for x in st.events():
        if x.k != "atomic" or x.a[0] not in RMW or x.a[1].a[0][0] != "static" or x.a[3] is None: continue
        old = x.a[3]
        if old in r: again.add(old)
        r[old] = (x.a[1].a[0][1], x)
    return r, again


def counts_up(e, st, x):
    """Does this atomic event move the counter up by a constant?"""
    def split(v):
        c = [y for y in v.a[1:] if isc(y)] if v.op == "op" and v.a[0] == "Add" and len(v.a) == 3 else []
        return (v, 0) if len(c) != 1 else (next(y for y in v.a[1:] if not isc(y)), c[0].a[0])
    if x.a[4] is None: return False
    (a, i), (b, j) = split(x.a[3]), split(x.a[4])
    return a is b and j > i


def below_cast(p, v):
    """The number behind conversions that keep every bit, and added constants."""
    while True:
        if v.op == "op" and v.a[0] in ("cast", "cast:int") and len(v.a) == 2 and p.ts(v.ty) in WIDE: v = v.a[1]
        elif v.op == "op" and v.a[0] == "Add" and len(v.a) == 3 and sum(isc(y) for y in v.a[1:]) == 1: v = next(y for y in v.a[1:] if not isc(y))
        else: return v


def numbers(e, st, y):
    y = e.resolve(st, y)
    return [y, below_cast(e.p, y)]


def statics_in(x, out):
    if isinstance(x, (list, tuple)):
        if len(x) == 3 and x[0] == "static" and isinstance(x[2], str): out.add(x[2])
        if len(x) >= 2 and x[0] == "tls" and isinstance(x[1], str): out.add("tls:" + x[1])
        for y in x: statics_in(y, out)
    return out


def aggs_of(p, v, pred, out, depth=0):
    if not isinstance(v, V) or depth > 20: return
    if v.ty is not None and v.op == "agg" and pred(p.adt(v.ty) or ""): out.append(v)
    for x in v.a:
        if isinstance(x, V): aggs_of(p, x, pred, out, depth + 1)


def id_number(e, st, v, name, lab, rep, site):
    """The number inside an identifier value is one that a global counter gave out on this path."""
    taken, again = fresh_values(e, st)
    hit = [n for y in v.a[1:] if isinstance(y, V) for n in numbers(e, st, y) if n in taken]
    if not rep.ok(len(hit) >= 1, lab + ":fresh", "%s makes an identifier whose number does not come from a global counter" % name, site): return None
    n = hit[0]
    w = e.p.ts(n.ty)
    rep.ok(w in WIDE, lab + ":width", "the numbers of identifiers are only of type %s" % w, site)
    rep.ok(counts_up(e, st, taken[n][1]), lab + ":steps", "%s takes a number without moving the counter on" % name, site)
    return taken[n][0]


@rule("S07")
def s07(rep):
    rep.rule("Every body that constructs an Identifier or ChannelID (other than derived deserialisation) gives it the number that one atomic read-modify-write of a global counter returned, which added a positive constant; every body that touches such a counter only loads it or adds to it that way; no body writes into an existing identifier, and identifiers compare by their number. Building a context information, a channel specification or any library context takes one such number per identity, all distinct on every path; none of these types can be cloned. Every context type that stores a context information reports the identifier, and the clock, stored there and its own type name; PMU reports its stored identifier.")
    p = prog("main")
    ids = {a["p"] for a in p.adts if a["p"].endswith(ID_TYPES)}
    if not rep.ok(len(ids) == 2, "anchor:ids", "Identifier or ChannelID is gone"): return
    serde = {x["key"] for x in p.roots if x.get("derived") and (x.get("trait") or "").startswith("serde")}
    counters = {}
    n = 0
    for key, tys in sorted(makers(p, ids).items()):
        b = p.bodies[key]
        if key in serde or not b.get("local"): continue
        name = b["p"]
        e, tl, cl = chan_engine(rep, "main", False)
        site = body_site(p, key)
        st = State()
        outs = e.run_fn(key, e.sym_args(key, st), st)
        rep.use(e)
        for o in outs:
            if o.kind != "ret": continue
            n += 1
            vals = []
            aggs_of(p, e.resolve(o.st, o.val), lambda a: a in ids, vals)
            if not rep.ok(bool(vals), name + ":made", "%s makes an identifier that is not its result" % name, site): continue
            for v in vals:
                c = id_number(e, o.st, v, name, name, rep, site)
                if c is not None: counters.setdefault(c, set()).add(p.adt(v.ty))
            _, again = fresh_values(e, o.st)
            rep.ok(not again and len({x for v in vals for x in v.a[1:]}) >= len(vals), name + ":twice", "%s hands out a number twice" % name, site)
    rep.floor("constructions of identifiers", n, 2)
    rep.ok(len({a for s in counters.values() for a in s}) == 2, "both", "identifiers of one kind are never constructed")
    touches(rep, p, counters)
    writes(rep, p, ids)
    compare(rep, p, ids)
    holders(rep, p, ids)
    reports(rep, p)


def touches(rep, p, counters):
    n = 0
    for key, b in sorted(p.bodies.items()):
        used = statics_in(b["bb"], set())
        mine = used & set(counters)
        for c in counters: rep.ok("tls:" + c not in used, "counter:" + c, "the counter %s is one per thread" % c, body_site(p, key))
        if not mine: continue
        n += 1
        e, tl, cl = chan_engine(rep, "main", False)
        st = State()
        outs = e.run_fn(key, e.sym_args(key, st), st)
        rep.use(e)
        site = body_site(p, key)
        name = b["p"]

        def look(s, evs):
            for x in evs:
                if x.k == "loop":
                    for z in x.a[0].iters: look(z, x.a[0].iter_events(z))
                on = [y for y in x.a if isinstance(y, V) and y.op == "ref" and y.a[0][0] == "static" and y.a[0][1] in mine]
                if x.k == "call" and any(y.op == "ref" and y.a[0][0] == "static" and y.a[0][1] in mine for y in x.a[1] if isinstance(y, V)):
                    rep.ok(False, "counter:" + name, "%s lets go of a counter of identifiers" % name, site)
                if x.k == "atomic" and on:
                    rep.ok(x.a[0] == "load" or x.a[0] in RMW and counts_up(e, s, x), "counter:" + name, "%s sets a counter of identifiers (%s) other than by adding to it" % (name, x.a[0]), site)
        for o in outs: look(o.st, o.st.events())
        if b["l"][0] is not None and p.tk(b["l"][0]) == "ref": rep.ok(not any(o.kind == "ret" and o.val.op == "ref" and o.val.a[0][0] == "static" for o in outs), "counter:" + name, "%s hands out a counter of identifiers" % name, site)
    rep.floor("functions that use the counters", n, 2)


def place_types(p, b, pl):
    """Types along a place: [(type before a step, step)]."""
    if isinstance(pl, int): return []
    ty, r = b["l"][pl[0]], []
    variant = 0
    for s in pl[1]:
        r.append((ty, s))
        if s == "*": ty = p.peel(ty) if p.tk(ty) == "adt" else p.types[ty].get("t")
        elif s[0] == "f": ty = s[2]
        elif s[0] == "d": continue
        else: return r
    return r


def writes(rep, p, ids):
    n = 0
    for key, b in sorted(p.bodies.items()):
        if not b.get("local"): continue
        for bb in b["bb"]:
            for s in bb[0]:
                if s[0] != "=": continue
                pls = [s[1]] + ([s[2][1]] if s[2][0] == "ref" and s[2][2] else [])
                for pl in pls:
                    n += 1
                    hit = any(isinstance(x, list) and x[0] == "f" and p.adt(t) in ids for t, x in place_types(p, b, pl))
                    if hit: rep.ok(False, "write:" + b["p"], "%s writes into an identifier" % b["p"], body_site(p, key))
    rep.floor("writes looked at", n, 500)


def compare(rep, p, ids):
    n = 0
    for i in p.impls:
        a = p.adt(i["self"]) if i["self"] is not None else None
        if a not in ids or i.get("trait") not in ("core::cmp::PartialEq", "core::hash::Hash"): continue
        n += 1
        if i["derived"] or i.get("trait").endswith("Hash"): continue
        key = [x["key"] for x in p.roots if x["n"] == "eq" and x.get("trait") == i.get("trait") and x.get("self") is not None and p.adt(x["self"]) == a and x["key"] in p.bodies]
        if not rep.ok(len(key) == 1, "eq:" + a, "the comparison of %s cannot be found" % a): continue
        e = engine(rep)
        st = State()
        args = e.sym_args(key[0], st)
        outs = e.run_fn(key[0], args, st)
        rep.use(e)
        x, y = (e.resolve(st, e.step(st, e.seen_by(st, q), ("f", 0, 0))) for q in args)
        for o in outs:
            ok = o.kind == "ret"
            for s, t in (e.truth_split(o.st, e.resolve(o.st, o.val)) if ok else ()):
                same = eq_terms(s, x, y)
                ok = ok and (same if t else not e.assume(s.copy(), e.binop(s, "Eq", x, y, p.bool_ty), 1))
            rep.ok(ok, "eq:" + a, "two different identifiers can compare equal, or an identifier differ from itself", body_site(p, key[0]))
    rep.floor("comparisons of identifiers", n, 2)


def holders(rep, p, ids):
    ctxs = {t for t in ctx_types(p) if t}
    info = p.adt(p.find_adt("datastructures::ContextInfo")) if p.find_adt("datastructures::ContextInfo") is not None else None
    if not rep.ok(info is not None, "anchor:info", "ContextInfo is gone"): return
    spec = p.adt(p.find_adt("channel_spec::ChannelSpec")) if p.find_adt("channel_spec::ChannelSpec") is not None else None
    if not rep.ok(spec is not None, "anchor:spec", "the specification of a channel is gone"): return
    unique = ctxs | {info, spec}
    for i in p.impls:
        a = p.adt(i["self"]) if i["self"] is not None else None
        if a in unique: rep.ok(i.get("trait") not in ("core::clone::Clone", "core::marker::Copy"), "clone:" + a, "%s can be cloned, identity included" % a)
    n = 0
    for key, b in sorted(p.bodies.items()):
        if not b.get("local"): continue
        made = [t for t in unique if makes(p, b, t)]
        if not made: continue
        name = b["p"]
        e, tl, cl = chan_engine(rep, "main", False)
        st = State()
        args = e.sym_args(key, st)
        site = body_site(p, key)
        outs = e.run_fn(key, args, st)
        rep.use(e)
        rets = [o for o in outs if o.kind == "ret"]
        for o in rets:
            vals = []
            aggs_of(p, e.resolve(o.st, o.val), lambda a: a in unique, vals)
            nums = {}
            seen = []
            for v in vals:
                if any(v is w for w in seen): continue
                seen.append(v)
                i = ident_of(e, o.st, v) if p.adt(v.ty) in ctxs else id_inside(e, o.st, v, ids)
                if not rep.ok(i is not None, name + ":id", "%s makes a context or channel without an identity" % name, site): continue
                if p.adt(v.ty) == info and any(p.adt(w.ty) in ctxs and (ident_of(e, o.st, w) or None) is i for w in vals): continue
                if i.op != "agg":
                    # moved from an argument
                    rep.ok(any(comes_from(i, a) for a in args), name + ":fresh", "%s gives a new context or channel an identity that is not new" % name, site)
                    num = i
                else:
                    n += 1
                    if id_number(e, o.st, i, name, name, rep, site) is None: continue
                    num = [x for y in i.a[1:] for x in numbers(e, o.st, y) if x in fresh_values(e, o.st)[0]][0]
                rep.ok(num not in nums, name + ":shared", "%s gives two contexts or channels the same identity" % name, site)
                nums[num] = v
    rep.floor("identities given to contexts and channels", n, 15)


def makes(p, b, t):
    for bb in b["bb"]:
        for x in walk_aggs(bb[0]):
            if p.adt(x) == t: return True
    return False


def comes_from(v, a):
    while isinstance(v, V):
        if v is a: return True
        v = v.a[0] if v.op == "fld" else None
    return False


def id_inside(e, st, v, ids, depth=0):
    if e.p.adt(v.ty) in ids: return e.resolve(st, v)
    if depth > 2 or e.p.tk(v.ty) != "adt" or e.p.is_enum(v.ty) or not e.p.types[v.ty].get("local"): return None
    for i in range(e.p.nfields(v.ty, 0)):
        # an identity behind a lock or option is somebody else's
        r = id_inside(e, st, e.step(st, v, ("f", 0, i)), ids, depth + 1)
        if r is not None: return r
    return None


def reports(rep, p):
    T = "datastructures::identifier::Identifiable"
    n = 0
    for i in p.impls:
        if i.get("trait") != T or i["self"] is None or p.adt(i["self"]) is None: continue
        a = p.adt(i["self"])
        name = a.split("::")[-1]
        if a not in ctx_types(p): continue
        clocks = own_clocks(p, i["self"])
        for what in ("id", "name", "view", "verbose"):
            key = methods_of(p, a, what, T if what != "view" else "view::TimeViewable")
            if what == "verbose" and not key: continue
            if not rep.ok(len(key) == 1, "anchor:%s:%s" % (name, what), "%s has no %s" % (name, what)): continue
            if what == "view" and len(clocks) != 1: continue
            e, tl, cl = chan_engine(rep, "main", False)
            st = State()
            args = e.sym_args(key[0], st)
            outs = e.run_fn(key[0], args, st)
            rep.use(e)
            site = body_site(p, key[0])
            me = e.seen_by(st, args[0])
            mine = ident_of(e, st, me)
            if not rep.ok(mine is not None, "stored:" + name, "%s stores no identity" % name, site): break
            for o in outs:
                n += 1
                if not rep.ok(o.kind == "ret", "%s:%s:panics" % (name, what), "%s of %s can panic" % (what, name), site): continue
                v = e.resolve(o.st, o.val)
                if what == "id": rep.ok(same_parts(e, o.st, v, mine), name + ":id", "%s reports another identifier than its own" % name, site)
                elif what == "verbose": rep.ok(any(same_parts(e, o.st, x, mine) for x in parts_of(e, o.st, v)), name + ":verbose", "the verbose identifier of %s is another than its own" % name, site)
                elif what == "name": rep.ok(const_text(e, o.st, v) == name, name + ":name", "%s reports another name than its own" % name, site)
                else:
                    al = e.deref(st, args[0])
                    vs = [x for x in o.st.events() if x.k == "viewof"]
                    path = tuple(q[:3] for q in al[1] + clocks[0])
                    rep.ok(len(vs) == 1 and vs[0].a[0][1] == al[0] and tuple(q[:3] for q in vs[0].a[0][2])[:len(path)] == path and holds_term(v, vs[0]), name + ":view", "the view of %s is not that of its own clock" % name, site)
    rep.floor("reports of identity, name and clock", n, 36)


def holds_term(v, ev):
    seen = []
    def go(x, d):
        if not isinstance(x, V) or d > 8: return False
        return x.op == "viewof" and x.a[0] == ev.a[0] or any(go(y, d + 1) for y in x.a)
    return go(v, 0)


def const_text(e, st, v):
    """The constant text a string was made from."""
    for _ in range(6):
        if not isinstance(v, V): return None
        if v.op == "str": return v.a[0]
        if v.op == "fld" and v.a[0].op == "str": v = v.a[0]; continue
        if v.op == "ref" and v.a[0][0] == "h" and isinstance(v.a[0][1], V) and v.a[0][1].op == "str": return v.a[0][1].a[0]
        if v.op == "ref":
            v = e.load(st, *e.deref(st, v))
            continue
        if v.op == "op" and len(v.a) >= 2 and v.a[0] in ("convert", "to_string", "fmt:to_string", "fmt:format", "fmt:from_str", "to_owned", "cast", "copied"): v = v.a[1]; continue
        return v
    return None
