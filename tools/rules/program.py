"""S01-S03: initialising a program: its checks, the channel flavours, and the connection graph."""
from rules import rule
from rules.base import *
from rules.contexts import of_type, alike
from rules.running import deep, typed
from rules.logs import mentions, ends
from rules.endpoints import BUILDERS, BUILD
from layers import ProgramLayer, ChannelLayer

ENDS = ("edge_sender", "edge_receiver")


# ---- loops over collections -------------------------------------------------------------------------------------
def source(it):
    """(value, [adapter names]) of what an iterator runs over: a collection, an option, or an index range of a collection."""
    names = []
    while it is not None and it.op == "iter":
        d = it.a[0]
        if d[0] == "coll": return d[5], names
        if d[0] == "option": return d[2], names
        if d[0] == "ext": return d[2] if isinstance(d[2], V) else None, names
        if d[0] == "range":
            x = len_of(d[3]) if isinstance(d[3], V) else None
            return (x, names) if x is not None and isc(d[2]) and d[2].a[0] == 0 and not d[4] else (None, names)
        names.append(d[1] if d[0] == "adapt" else d[0])
        it = d[2] if len(d) > 2 and isinstance(d[2], V) else None
    return None, names


def runs_over(it, coll):
    v, names = source(it)
    return v is not None and alike(v, coll) and not set(names) & PARTIAL


def is_flat(rec):
    if rec.src is not None: return bool(set(below(rec.src)) & {"flat_map", "flatten"})
    # driven by explicit next: the adapter's own search shows as a loop inside the iteration
    return any(x.k == "loop" and any(o[0] in ("some", "none") for o in x.a[0].exits) for s in rec.iters for x in rec.iter_events(s))


def below(it, d=0):
    """Names of all adapters in an iterator."""
    if not isinstance(it, V) or it.op != "iter" or d > 8: return []
    x = it.a[0]
    r = [x[1] if x[0] == "adapt" else x[0]]
    for y in x[1:]:
        if isinstance(y, V): r += below(y, d + 1)
    return r


def leaves(it, d=0):
    """Collections that an iterator draws from."""
    if not isinstance(it, V) or it.op != "iter" or d > 8: return []
    x = it.a[0]
    if x[0] in ("coll", "option", "ext", "range"):
        v, _ = source(it)
        return [v] if v is not None else []
    return [v for y in x[1:] for v in leaves(y, d + 1)]


def partial(evs, coll):
    """Does an adapter that leaves elements out (or repeats them) stand between a loop and a collection?"""
    return any(x.k == "adapted" and x.a[1] in PARTIAL and any(alike(v, coll) for v in leaves(x.a[0])) for x in evs)


class Visit:
    """One visit of an element of a collection: the path of the iteration, its events, and the position."""
    def __init__(self, rec, s, evs, pos, item):
        self.rec, self.s, self.evs, self.pos, self.item = rec, s, evs, pos, item


def visits_in(rec, coll):
    """Visits of elements of a collection in a loop, also by iterator adapters that drop elements."""
    r = []
    for s in rec.iters:
        evs = rec.iter_events(s)
        for x in evs:
            if x.k == "next" and runs_over(x.a[0], coll): r.append(Visit(rec, s, evs, x.a[2], x.a[1]))
            elif x.k == "loop": r += visits_in(x.a[0], coll)
    return r


def index_visits(e, rec, coll):
    """Visits by a counting loop (while i < v.len())."""
    d = Drive(rec, e)
    if d.index is None or d.root is None or not alike(d.root[3], coll) or d.early: return None
    return [Visit(rec, s, rec.iter_events(s), d.index, None) for s in rec.iters]


def full_loops(e, evs, coll):
    """[(index, record, visits)] of the loops among events that visit every element of a collection."""
    out = []
    for i, x in enumerate(evs):
        if x.k != "loop": continue
        vs = visits_in(x.a[0], coll)
        if not vs:
            # a loop whose every iteration leaves it has no iterations; nothing to see
            vs = index_visits(e, x.a[0], coll)
            if vs: out.append((i, x.a[0], vs))
            continue
        if any(partial(rec_events, coll) for rec_events in [[y for s in x.a[0].iters for y in everything(x.a[0].iter_events(s))], evs[i + 1:i + 2]]): continue
        for y in evs[i + 1:]:
            if y.k == "exhausted" and runs_over(y.a[0], coll):
                out.append((i, x.a[0], vs)); break
    return out


def inner(e, v, coll):
    """Visits of an inner collection from a visit of an outer element, or None when some of its elements may be skipped."""
    if partial(v.evs, coll): return None
    direct = [x for x in v.evs if x.k == "next" and runs_over(x.a[0], coll)]
    if direct and is_flat(v.rec): return [Visit(v.rec, v.s, v.evs, x.a[2], x.a[1]) for x in direct]
    ls = full_loops(e, v.evs, coll)
    if ls: return [w for _, _, vs in ls for w in vs]
    if not direct and any(x.k == "exhausted" and runs_over(x.a[0], coll) for x in v.evs): return []
    return None


def held(e, v, opt):
    """Visits in which an optional value is there, or None when it may have been ignored."""
    k = v.s.var.get(opt)
    if k == 0: return []
    r = inner(e, v, opt)
    if r is not None: return r
    return [v] if k == 1 else None


def same_elem(who, coll, pos):
    return pos is not None and mentions(None, who, lambda x: x.op == "elt" and x.a[1] is pos and alike(x.a[0], coll))


def everything(evs):
    for x in evs:
        yield x
        if x.k == "loop":
            for s in x.a[0].iters: yield from everything(x.a[0].iter_events(s))


def place_of(r):
    return r.a if isinstance(r, V) and r.op == "ref" else r


def puts(v, x):
    """(key, value) put into a collection by the events of a visit, for a collection made by collecting or by a loop."""
    if v.op == "collect":
        return []
    al = tuple(v.a[0][1:]) if v.op == "phi" else None
    if al is None: return []
    return [(y.a[1], y.a[2]) for y in x.evs if y.k == "insert" and tuple(place_of(y.a[0])) == al] + [(y.a[1], None) for y in x.evs if y.k == "push" and tuple(place_of(y.a[0])) == al]


def collected(e, v, s):
    """What an iteration in state s contributes to a collected value."""
    rec = e.loops.get(v.a[0]) if v.op == "collect" else None
    return [x for t, x in rec.results if t is s] if rec is not None else []


class Filled:
    """How a collection was filled: what each iteration adds."""
    def __init__(self, e, v, is_map):
        self.e, self.v, self.is_map = e, v, is_map

    def adds(self, x):
        """Keys (or elements) that a visit adds."""
        if self.v.op == "collect":
            r = collected(self.e, self.v, x.s)
            return [self.e.step(x.s, y, ("f", 0, 0)) for y in r] if self.is_map else r
        return [k for k, _ in puts(self.v, x)]

    def all_adds(self, evs):
        """Everything added anywhere."""
        if self.v.op == "collect":
            rec = self.e.loops.get(self.v.a[0])
            return None if rec is None else [(s, self.e.step(s, y, ("f", 0, 0)) if self.is_map else y) for s, y in rec.results]
        if self.v.op != "phi": return None
        al = tuple(self.v.a[0][1:])
        r = []
        for y in everything(evs):
            if y.k in ("insert", "push") and tuple(place_of(y.a[0])) == al: r.append((None, y.a[1]))
        return r

    def starts_empty(self, evs):
        if self.v.op == "collect": return True
        if self.v.op != "phi": return False
        al = tuple(self.v.a[0][1:])
        v = self.v
        for _ in range(8):
            rec = self.e.loops.get(v.a[0][0])
            if rec is None: return False
            w = self.e.subst_phi(rec.init, v, rec)
            if w.op in ("empty",): return True
            if w.op != "phi" or tuple(w.a[0][1:]) != al: return False
            v = w
        return False


def is_map_ty(p, ty): return ty is not None and "map::" in (p.types[ty].get("p") or "") and "set::" not in (p.types[ty].get("p") or "")


# ---- the program -------------------------------------------------------------------------------------------------
class Program:
    """ProgramBuilder::initialize on an arbitrary program, and the roles of the program's collections."""
    def __init__(self, rep):
        self.rep = rep
        p = self.p = prog("main")
        self.ok = False
        self.paths = self.roles()
        if self.paths is None: return
        key = root(p, BUILD + "initialize")
        if not rep.ok(key is not None, "anchor:initialize", "the program builder has no initialize"): return
        e = self.e = engine(rep, "main")
        e.merge = False
        e.fresh_elems = True
        ProgramLayer(e)
        b = p.bodies[key]
        st = State()
        self.args = [named("program", b["l"][1])] + [named("options", b["l"][i]) for i in range(2, b["argc"] + 1)]
        self.outs = e.run_fn(key, self.args, st)
        rep.use(e)
        self.site = body_site(p, key)
        self.coll = {}
        for n, path in self.paths.items():
            v = self.args[0]
            for s in path: v = e.step(st, v, s)
            self.coll[n] = v
        self.good, self.bad, self.panics = [], [], []
        for o in self.outs:
            if o.kind != "ret": self.panics.append(o); continue
            r = e.resolve(o.st, o.val)
            if r.op == "agg" and r.a[0] == 0: self.good.append((o, r.a[1]))
            elif r.op == "agg": self.bad.append((o, e.resolve(o.st, r.a[1])))
            else: rep.ok(False, "outcome", "the outcome of initialize is not a known success or error", self.site)
        rep.floor("successful outcomes of initialize", len(self.good), 1)
        self.ok = True

    def roles(self):
        """Where each constructor of the builder registers what it makes."""
        rep, p = self.rep, self.p
        got = {}
        for n in list(BUILDERS) + ["add_child"]:
            key = root(p, BUILD + n)
            if not rep.ok(key is not None, "anchor:" + n, "the program builder has no %s" % n): return None
            e = engine(rep, "main")
            e.merge = False
            ProgramLayer(e)
            st = State()
            args = e.sym_args(key, st)
            al = e.deref(st, args[0])[0]
            for o in e.run_fn(key, args, st):
                if o.kind != "ret": continue
                ps = [x for x in o.st.events() if x.k == "push" and place_of(x.a[0])[0] == al]
                if not rep.ok(len(ps) == 1, n + ":registers", "%s does not register exactly one object with the program" % n, body_site(p, key)): return None
                got.setdefault("nodes" if n == "add_child" else "void" if n == "void" else "edges", set()).add(tuple(x[:3] for x in place_of(ps[0].a[0])[1]))
                rep.count("registrations")
        if not rep.ok(set(got) == {"nodes", "void", "edges"} and all(len(x) == 1 for x in got.values()) and len(set.union(*got.values())) == 3, "roles", "contexts, void channels and other channels are not kept apart by the program builder", None): return None
        return {n: next(iter(x)) for n, x in got.items()}

    # -- facts
    def end_of(self, s, which, coll, pos):
        """The term for an endpoint of an element of a collection, if asked for on this path."""
        r = [t for t in s.var if t.op == "op" and t.a[0] == which and same_elem(t.a[1], coll, pos)]
        return r[0] if r else None

    def payload(self, s, t): return self.e.step(s, t, ("f", 1, 0))

    def flavors(self, evs): return [x for x in evs if x.k == "flavor"]

    def is_id(self, v, coll, pos):
        return v.op == "op" and v.a[0] == "edge_id" and same_elem(v.a[1], coll, pos)


_PR = {}


def program(rep):
    c = Program(rep)
    return c if c.ok else None


def first_effect(evs):
    """Index of the first event that sets up a channel or initialises a context."""
    for i, x in enumerate(evs):
        if any(y.k in ("flavor", "init") for y in everything([x])): return i
    return len(evs)


def node_ids(c, evs, v):
    """Is a collection exactly the identities of all contexts of the program?"""
    e = c.e
    f = Filled(e, v, is_map_ty(c.p, v.ty) or v.op == "collect" and any(x.op == "agg" and len(x.a) > 2 for _, x in (e.loops[v.a[0]].results if v.a[0] in e.loops else [])))
    alls = f.all_adds(evs)
    if not alls or not f.starts_empty(evs): return False
    nodes = c.coll["nodes"]
    leaves = 0
    found = False
    for i, rec, vs in full_loops(e, evs, nodes):
        good = True
        ids = []
        for w in vs:
            t = ids_of(w.evs, nodes, w.pos)
            if t is None: good = False; break
            sub = inner(e, w, t)
            if sub is None: good = False; break
            for z in sub:
                k = [a for a in f.adds(z) if id_of(a, z.pos)]
                if not k: good = False
                ids += k
        if good and ids: found = True; leaves = ids
    return found and all(any(a is k or alike(a, k) for k in leaves) for _, a in alls)


def ids_of(evs, nodes, pos):
    """The collection of identities that a context reports, if asked on this path."""
    for x in evs:
        if x.k in ("next", "exhausted"):
            v, _ = source(x.a[0])
            if v is not None and v.op == "op" and v.a[0] == "ctx_ids" and same_elem(v.a[1], nodes, pos): return v
    return None


def id_of(a, key):
    """Is a the identity in a verbose identity?"""
    return a.op == "fld" and a.a[0] is key and a.a[2] == 0 and key is not None


def known_member(c, evs, s, v):
    """Does the path know that an identity is (1) or is not (0) one of the program's contexts?"""
    for t, k in s.truth.items():
        if t.op == "op" and t.a[0] in ("haskey", "contains") and alike(t.a[2], v) and node_ids(c, evs, t.a[1]): return k
    return None


@rule("S01")
def s01(rep):
    rep.rule("On every path on which initialize succeeds, loops that visit every channel and every void channel have found a sender for each and, for other channels, a receiver, and have found each of these identities in a collection filled from the identities of all contexts; the loops come before the first channel is set up or context initialised. On every path on which it fails, the error names a channel whose sender (receiver) the path found missing, or an identity it did not find among all contexts, and no channel was set up and no context initialised.")
    c = program(rep)
    if c is None: return
    e = c.e
    for o, _ in c.good:
        evs = o.st.events()
        lim = first_effect(evs)
        for n in ("edges", "void"):
            coll = c.coll[n]
            ls = [(i, rec, vs) for i, rec, vs in full_loops(e, evs, coll) if i < lim]
            for which in ENDS:
                if n == "void" and which == "edge_receiver": continue
                what = "%s of a %schannel" % (which[5:], "void " if n == "void" else "")
                have = any(vs and all(fact_some(c, w, which, coll) for w in vs) for _, _, vs in ls)
                rep.ok(have, "connected:%s:%s" % (n, which), "a program can be initialised although the %s is missing" % what, c.site)
                rep.ok(any(vs and all(registered(c, evs, w, which, coll) for w in vs) for _, _, vs in ls), "registered:%s:%s" % (n, which), "a program can be initialised although the %s is not one of its contexts" % what, c.site)
                rep.count("obligations per channel", 2)
    for o, err in c.bad:
        evs = o.st.events()
        rep.ok(first_effect(evs) == len(evs), "effects", "a program that is refused has already been partly set up", c.site)
        name = c.p.variants(err.ty)[err.a[0]][0] if err.op == "agg" and err.ty is not None else None
        rep.count("failing paths")
        if name in ("DisconnectedSender", "DisconnectedReceiver"):
            which = "edge_sender" if name == "DisconnectedSender" else "edge_receiver"
            x = e.resolve(o.st, err.a[1])
            ok = x.op == "op" and x.a[0] == "edge_id" and any(t.op == "op" and t.a[0] == which and alike(t.a[1], x.a[1]) and k == 0 for t, k in o.st.var.items()) and any(mentions(e, x, lambda y: y.op == "elt" and alike(y.a[0], c.coll[n])) for n in ("edges", "void") if not (n == "void" and which == "edge_receiver"))
            rep.ok(ok, "cause:" + name, "initialize can report %s for a channel that has a %s" % (name, which[5:]), c.site)
        elif name == "UnregisteredNode":
            x = e.resolve(o.st, err.a[1])
            isend = any(t.op == "op" and t.a[0] in ENDS and k == 1 and alike(c.payload(o.st, t), x) for t, k in o.st.var.items())
            rep.ok(isend and known_member(c, evs, o.st, x) == 0, "cause:" + name, "initialize can report an unregistered context that is registered or not named by a channel", c.site)
        else: rep.ok(False, "cause", "initialize can fail with an unknown error", c.site)


def fact_some(c, w, which, coll):
    t = c.end_of(w.s, which, coll, w.pos)
    return t is not None and w.s.var[t] == 1


def registered(c, evs, w, which, coll):
    t = c.end_of(w.s, which, coll, w.pos)
    if t is None: t = next((source(x.a[0])[0] for x in w.evs if x.k in ("next", "exhausted") and (lambda q: q is not None and q.op == "op" and q.a[0] == which and same_elem(q.a[1], coll, w.pos))(source(x.a[0])[0])), None)
    if t is None: return listed(c, evs, w, which, coll)
    if w.s.var.get(t) == 0: return True
    v = c.payload(w.s, t)
    if known_member(c, evs, w.s, v) == 1: return True
    sub = inner(c.e, w, t)
    return sub is not None and all(z.s.var.get(t) == 0 or known_member(c, evs, z.s, v) == 1 for z in sub)


# ---- flavours ----------------------------------------------------------------------------------------------------
def inference(c, s):
    """What a path knows about the request for flavour inference."""
    for t, k in s.truth.items():
        if t.op == "fld" and named_field(c.p, t) == "run_flavor_inference": return k
    return None


def named_field(p, t):
    b = t.a[0]
    if b.ty is None or p.tk(b.ty) != "adt": return None
    f = p.variants(b.ty)[t.a[1] if isinstance(t.a[1], int) else 0][2]
    return f[t.a[2]][0] if isinstance(t.a[2], int) and t.a[2] < len(f) else None


def flavor_name(c, v):
    return c.p.variants(v.ty)[v.a[0]][0] if v.op == "agg" and v.ty is not None else None


class Keys:
    """Lookups of graph vertices: which map and which kind of key stand for a channel and for a context."""
    def __init__(self, c, evs):
        self.c, self.evs = c, evs

    def lookup(self, v):
        """(map place, kind of key, name in the key) of a vertex looked up in a map."""
        if v.op != "elt" or not isinstance(v.a[1], V): return None
        m = v.a[0]
        while m.op == "upd": m = m.a[0]
        if m.op == "phi": al = tuple(m.a[0][1:])
        elif m.op == "collect": al = m
        else: return None
        k, x = self.key(v.a[1])
        return (al, k), x

    def key(self, k):
        """(kind, name) of a key."""
        if k.op == "agg" and len(k.a) == 2 and isinstance(k.a[1], V): return (k.ty, k.a[0]), k.a[1]
        return None, k


def scc_members(c, evs, v, graph=None):
    """Is a set exactly the vertices that share a component of the connection graph with another one?"""
    e = c.e
    sccs = [x for x in evs if x.k == "scc" and (graph is None or x.a[0] == graph)]
    f = Filled(e, v, False)
    alls = f.all_adds(evs)
    if not alls or not f.starts_empty(evs): return False
    for y in sccs:
        comps = y.a[1]
        for i, rec, vs in full_loops(e, evs, comps):
            mine, good = [], True
            for w in vs:
                comp = e.resolve(w.s, mk("elt", (comps, w.pos), None))
                comp = next((source(x.a[0])[0] for x in w.evs if x.k in ("next", "exhausted") and (lambda q: q is not None and q.op == "elt" and q.a[1] is w.pos and alike(q.a[0], comps))(source(x.a[0])[0])), None)
                n = size_known(w.s, comps, w.pos)
                if comp is None:
                    # not looked into: must be a component of one vertex
                    if n != "one": good = False
                    continue
                sub = inner(e, w, comp)
                if sub is None: good = False; break
                for z in sub:
                    ks = [a for a in f.adds(z) if a.op == "elt" and a.a[1] is z.pos and alike(a.a[0], comp)]
                    if (not ks) if n != "one" else False: good = False
                    if ks and size_known(z.s, comps, w.pos) != "many": good = False
                    mine += ks
            if good and mine and all(any(alike(a, k) for k in mine) for _, a in alls): return True
    return False


def size_known(s, comps, pos):
    """Does a path know that a component has more than one vertex ("many"), or not ("one")?"""
    for t, k in s.truth.items():
        if t.op != "op" or t.a[0] not in ("Lt", "Le", "Eq"): continue
        for a, b, flip in ((t.a[1], t.a[2], False), (t.a[2], t.a[1], True)):
            x = len_of(b)
            if not isc(a) or x is None or x.op != "elt" or x.a[1] is not pos or not alike(x.a[0], comps): continue
            n, op = a.a[0], t.a[0]
            if op == "Eq" and n == 1: return "one" if k else "many"   # components are never empty
            if op == "Lt" and not flip and n == 1 or op == "Le" and not flip and n == 2: return "many" if k else "one"    # 1 < len
            if op == "Lt" and flip and n == 2 or op == "Le" and flip and n == 1: return "one" if k else "many"        # len < 2
    return None


@rule("S02")
def s02(rep):
    rep.rule("On every path on which initialize succeeds, one loop over all void channels sets each up once as void and one loop over all other channels sets each up once: as cyclic if inference is off; if it is on, as cyclic or acyclic exactly according to whether the channel's vertex is in the set of vertices of components with more than one vertex that the graph library reports. Nothing else is set up. After that, one loop initialises every context once, and the initialised program consists of the same contexts and channels.")
    c = program(rep)
    if c is None: return
    e = c.e
    modes = set()
    for o, data in c.good:
        evs = o.st.events()
        on = inference(c, o.st)
        modes.add(on)
        rep.count("successful outcomes")
        used = set()
        last = -1
        for n in ("void", "edges"):
            coll = c.coll[n]
            done = False
            for i, rec, vs in full_loops(e, evs, coll):
                fl = [(w, [x for x in everything(w.evs) if x.k == "flavor" and same_elem(x.a[0], coll, w.pos)]) for w in vs]
                if not any(xs for _, xs in fl): continue
                rep.ok(all(len(xs) == 1 for _, xs in fl) and not done, "once:" + n, "a %schannel can be set up more than once, or not at all" % ("void " if n == "void" else ""), c.site)
                done = True
                last = max(last, i)
                for w, xs in fl:
                    for x in xs:
                        used.add(id(x))
                        name = flavor_name(c, e.resolve(w.s, x.a[1]))
                        if n == "void":
                            rep.ok(name == "Void", "void", "a void channel is not set up as void", c.site)
                            continue
                        rep.count("flavour assignments")
                        if on != 1 or name not in ("Cyclic", "Acyclic"):
                            rep.ok(name == "Cyclic", "flavour", "a channel is set up as %s although nothing shows that it lies on no cycle" % name, c.site)
                            continue
                        m = member(c, evs, w, coll)
                        rep.ok(m == (0 if name == "Acyclic" else 1), "inferred:" + name, "with inference a channel is set up as %s although the graph does not say so" % name.lower(), c.site)
            rep.ok(done, "all:" + n, "some %schannels may never be set up" % ("void " if n == "void" else ""), c.site)
        rep.ok(all(id(x) in used for x in everything(evs) if x.k == "flavor"), "other", "a channel is set up outside the loops over the program's channels", c.site)
        # contexts
        coll = c.coll["nodes"]
        done, mine = False, set()
        for i, rec, vs in full_loops(e, evs, coll):
            ini = [(w, [x for x in everything(w.evs) if x.k == "init"]) for w in vs]
            if not any(xs for _, xs in ini): continue
            rep.ok(not done and all(len(xs) == 1 and same_elem(xs[0].a[0], coll, w.pos) for w, xs in ini), "init:once", "a context can be initialised more than once, or not at all", c.site)
            rep.ok(i > last, "init:order", "a context can be initialised before all channels are set up", c.site)
            done = True
            mine |= {id(x) for _, xs in ini for x in xs}
        rep.ok(done, "init:all", "some contexts may never be initialised", c.site)
        rep.ok(all(id(x) in mine for x in everything(evs) if x.k == "init"), "init:other", "a context is initialised outside the loop over all contexts", c.site)
        # what is returned
        for n in ("nodes", "edges", "void"):
            rep.ok(holds_coll(c, o.st, data, c.coll[n]), "returned:" + n, "the initialised program does not consist of the same %s" % {"nodes": "contexts", "edges": "channels", "void": "void channels"}[n], c.site)
    rep.ok(modes == {0, 1}, "modes", "initialize does not depend on whether flavour inference is requested", c.site)


def holds_coll(c, st, v, coll):
    e = c.e
    v = e.resolve(st, v)
    if alike(v, coll): return True
    if v.op == "agg": return any(holds_coll(c, st, x, coll) for x in v.a[1:] if isinstance(x, V))
    # the whole of a structure that contains it
    x = coll
    while x.op == "fld":
        x = x.a[0]
        if alike(x, v): return True
    return False


def member(c, evs, w, coll):
    """Is the vertex of a channel in the set of vertices that lie on cycles (1), or not (0), on a path?"""
    ks = Keys(c, evs)
    for t, k in w.s.truth.items():
        if t.op != "op" or t.a[0] not in ("haskey", "contains"): continue
        q = ks.lookup(t.a[2])
        if q is None or not c.is_id(q[1], coll, w.pos): continue
        if scc_members(c, evs, t.a[1]): return k
    return None


# ---- the connection graph ----------------------------------------------------------------------------------------
class Graph:
    """What is added to the connection graph on one successful path with inference."""
    def __init__(self, c, o):
        self.c, self.o, self.e = c, o, c.e
        self.all = o.st.events()
        at = [i for i, x in enumerate(self.all) if x.k == "scc"]
        self.scc = self.all[at[0]] if len(at) == 1 else None
        self.evs = self.all[:at[0]] if at else self.all
        self.g = self.scc.a[0] if self.scc else None
        self.used = set()
        self.keys = Keys(c, self.all)

    def vertices(self, evs): return [x for x in evs if x.k == "add_node" and x.a[0] == self.g]
    def arcs(self, evs): return [x for x in evs if x.k == "add_edge" and x.a[0] == self.g]

    def stored(self, w):
        """[(map and kind, name, vertex)] stored in a map by a visit, for vertices it adds to the graph."""
        new = [x.a[2] for x in self.vertices(w.evs)]
        r = []
        for x in w.evs:
            if x.k == "insert" and any(alike(x.a[2], v) for v in new):
                k, n = self.keys.key(x.a[1])
                r.append(((tuple(place_of(x.a[0])), k), n, x.a[2]))
        return r


def channel_ids(c, evs, coll):
    """[(collection, is the element the identity itself)] of what lists the identity of every channel in a collection."""
    r = [coll]
    f = None
    seen = set()
    for i, x in enumerate(evs):
        if x.k == "collect": cands = [x.a[0]]
        elif x.k == "loop": cands = [p for p in (x.a[0].entry.mem.values() if x.a[0].entry else []) if isinstance(p, V) and p.op == "phi" and p.a[0][0] == x.a[0].serial]
        else: continue
        for v in cands:
            if v.op not in ("collect", "phi") or id(v) in seen: continue
            seen.add(id(v))
            f = Filled(c.e, v, False)
            for _, rec, vs in full_loops(c.e, evs, coll):
                if vs and all(any(c.is_id(a, coll, w.pos) for a in f.adds(w)) for w in vs):
                    r.append(v); break
    return r


def names_channel(c, v, w, coll, src):
    """Is v the identity of the channel a visit is about?"""
    if src is coll: return c.is_id(v, coll, w.pos)
    return v.op == "elt" and v.a[1] is w.pos and alike(v.a[0], src)


@rule("S03")
def s03(rep):
    rep.rule("On the path with inference, before the components of the directed graph are computed: a loop over every channel of the program adds a vertex for its identity; a loop over all contexts asks each for its declared connections, and for every declared pair of sets adds a fresh vertex with an arc from every named source and to every named destination, and marks the context as managed; a loop over all identities adds a vertex for every context that is not managed; a loop over every two-ended channel adds an arc from its sender's vertex to its own unless the sender is managed, and one to its receiver's unless the receiver is. No other arc is added. The memory unit declares, for its write side, the addresses and data of every port as sources and every acknowledgement as destination, and for its read side additionally the addresses of every read port as sources and every response as destination.")
    c = program(rep)
    if c is None: return
    n = 0
    for o, _ in c.good:
        if inference(c, o.st) != 1: continue
        n += 1
        graph_rules(rep, c, Graph(c, o))
    rep.floor("successful outcomes with inference", n, 1)
    declares(rep)


def graph_rules(rep, c, G):
    e, evs = c.e, G.evs
    if not rep.ok(G.scc is not None, "scc", "the cycles of the connection graph are not computed exactly once", c.site): return
    gv = G.scc.a[2]
    rep.ok(gv.ty is not None and "Undirected" not in c.p.ts(gv.ty), "directed", "the connection graph is not directed", c.site)
    # vertices of channels
    ck = None
    last_chan = -1
    for n in ("edges", "void"):
        coll = c.coll[n]
        ok = False
        for src in channel_ids(c, evs, coll):
            for i, rec, vs in full_loops(e, evs, src):
                st = [[x for x in G.stored(w) if names_channel(c, x[1], w, coll, src)] for w in vs]
                if st and all(len(x) == 1 for x in st) and len({x[0][0] for x in st}) == 1:
                    kind = st[0][0][0]
                    if ck is None: ck = kind
                    ok = ck == kind
                    last_chan = max(last_chan, i)
        rep.ok(ok, "vertex:" + n, "some %schannels have no vertex of their own in the connection graph" % ("void " if n == "void" else ""), c.site)
    if ck is None: return

    def chan(v):
        q = G.keys.lookup(v)
        return q[1] if q is not None and q[0] == ck else None

    # declared connections
    nodes = c.coll["nodes"]
    mm = None
    last_decl = -1
    ok = False
    for i, rec, vs in full_loops(e, evs, nodes):
        asked = [(w, declared(w, nodes)) for w in vs]
        if not any(t is not None for _, t in asked): continue
        good = all(t is not None for _, t in asked)
        rep.ok(good, "declared:asked", "some contexts are never asked for the connections they declare", c.site)
        last_decl = i
        for w, t in asked:
            if t is None: continue
            ws = held(e, w, t)
            if not rep.ok(ws is not None, "declared:used", "connections that a context declares can be ignored", c.site): continue
            for x in ws:
                conns = c.payload(x.s, t)
                sub = inner(e, x, conns)
                if not rep.ok(sub is not None, "declared:entries", "not every entry of the declared connections is used", c.site): continue
                for y in sub:
                    ok = True
                    m = [z for z in y.evs if z.k == "insert" and alike(z.a[1], y.pos) or z.k == "push" and alike(z.a[1], y.pos)]
                    if rep.ok(len({tuple(place_of(z.a[0])) for z in m}) == 1, "declared:managed", "a context that declares its own connections is not remembered as such", c.site): mm = tuple(place_of(m[0].a[0]))
                    pairs = next((source(z.a[0])[0] for z in y.evs if z.k == "exhausted" and (lambda q: q is not None and q.op == "elt" and q.a[1] is y.pos and alike(q.a[0], conns))(source(z.a[0])[0])), None)
                    if pairs is None:
                        pairs = next((source(z.a[0])[0] for z in y.evs if z.k == "next" and (lambda q: q is not None and q.op == "elt" and q.a[1] is y.pos and alike(q.a[0], conns))(source(z.a[0])[0])), None)
                    ps = inner(e, y, pairs) if pairs is not None else None
                    if not rep.ok(ps is not None, "declared:pairs", "not every declared connection of a context is used", c.site): continue
                    for z in ps: pair(rep, c, G, z, pairs, chan)
    rep.ok(ok, "declared", "declared connections never reach the connection graph", c.site)
    # vertices of contexts
    xk = None
    last_ctx = -1
    ok = False
    for v, f, i, rec, vs in id_loops(c, evs, nodes):
        good = True
        for w, name in vs:
            st = [x for x in G.stored(w) if alike(x[1], name) and x[0] != ck]
            man = managed(w.s, mm, name)
            if st and xk is None: xk = st[0][0]
            if not (man == 1 or len(st) == 1 and st[0][0] == xk): good = False
        if good and xk is not None: ok, last_ctx = True, max(last_ctx, i)
    rep.ok(ok, "vertex:context", "some contexts that declare no connections have no vertex in the connection graph", c.site)
    # arcs of channels
    coll = c.coll["edges"]
    ok, first = False, None
    for i, rec, vs in full_loops(e, evs, coll):
        if not any(G.arcs(everything(w.evs)) for w in vs): continue
        ok = True
        first = i if first is None else min(first, i)
        for w in vs:
            arcs = G.arcs(list(everything(w.evs)))
            for which in ENDS:
                t = c.end_of(w.s, which, coll, w.pos)
                if t is None:
                    rep.ok(False, "arc:" + which, "a channel is entered into the connection graph without asking for its %s" % which[5:], c.site)
                    continue
                if w.s.var[t] == 0: continue
                name = c.payload(w.s, t)
                got = []
                for a in arcs:
                    x, ch = (a.a[1], a.a[2]) if which == "edge_sender" else (a.a[2], a.a[1])
                    qc, qx = chan(ch), G.keys.lookup(x)
                    if qc is not None and c.is_id(qc, coll, w.pos) and qx is not None and qx[0] == xk and alike(qx[1], name): got.append(a)
                man = managed(w.s, mm, name)
                side = "from its sender" if which == "edge_sender" else "to its receiver"
                rep.count("channel ends linked")
                if man == 1: rep.ok(not got, "arc:managed:" + which, "a context that declares its own connections is also linked implicitly", c.site)
                else:
                    rep.ok(man == 0, "arc:known:" + which, "a channel is linked %s without knowing whether that context declares its own connections" % side, c.site)
                    rep.ok(len(got) == 1, "arc:" + which, "a channel is not linked %s in the connection graph" % side, c.site)
                    G.used |= {id(a) for a in got}
    rep.ok(ok, "arcs", "channels are not linked to their contexts in the connection graph", c.site)
    rep.ok(first is None or max(last_chan, last_ctx, last_decl) < first, "order", "channels are linked before all vertices are known", c.site)
    rep.ok(all(id(a) in G.used for a in G.arcs(everything(evs))), "extra", "the connection graph contains a link that is neither declared nor between a channel and its own contexts", c.site)
    rep.count("arcs", len({id(a) for a in G.arcs(everything(evs))}))


def declared(w, nodes):
    """The connections a context declares, if asked on this path."""
    for t in w.s.var:
        if t.op == "op" and t.a[0] == "ctx_edge_connections" and same_elem(t.a[1], nodes, w.pos): return t
    return None


def managed(s, mm, name):
    for t, k in s.truth.items():
        if t.op == "op" and t.a[0] in ("haskey", "contains") and alike(t.a[2], name) and t.a[1].op == "phi" and tuple(t.a[1].a[0][1:]) == mm: return k
    return None


def pair(rep, c, G, z, pairs, chan):
    """One declared pair of sets: sources -> fresh vertex -> destinations."""
    e = c.e
    vs = G.vertices(z.evs)
    if not rep.ok(len(vs) == 1, "declared:vertex", "a declared connection does not get a vertex of its own", c.site): return
    T = vs[0].a[2]
    rep.count("declared pairs")
    for side in (0, 1):
        coll = next((source(x.a[0])[0] for x in z.evs if x.k in ("next", "exhausted") and part_of(source(x.a[0])[0], pairs, z.pos, z.item, side)), None)
        sub = inner(e, z, coll) if coll is not None else None
        what = ("sources", "destinations")[side]
        if not rep.ok(sub is not None, "declared:%s" % what, "not every one of the declared %s is used" % what, c.site): continue
        for y in sub:
            arcs = G.arcs(list(everything(y.evs)))
            good = [a for a in arcs if alike(a.a[2 if side == 0 else 1], T) and (lambda q: q is not None and (alike(q, y.pos) or alike(q, y.item)))(chan(a.a[1 if side == 0 else 2]))]
            rep.ok(len(good) == 1, "declared:arc:%s" % what, "a declared connection is not entered from its sources and to its destinations", c.site)
            G.used |= {id(a) for a in good}


def part_of(v, pairs, pos, item, side):
    """Is v one side of a pair that is an element of a list?"""
    if v is None or v.op != "fld" or v.a[2] != side: return False
    b = v.a[0]
    if item is not None and alike(b, item): return True
    return b.op == "elt" and b.a[1] is pos and alike(b.a[0], pairs)


def id_loops(c, evs, nodes):
    """Loops that visit the identity of every context: [(.., index, record, [(visit, identity)])]."""
    e = c.e
    r = []
    for i, rec, vs in full_loops(e, evs, nodes):
        out = []
        for w in vs:
            t = ids_of(w.evs, nodes, w.pos)
            sub = inner(e, w, t) if t is not None else None
            if sub is None: out = None; break
            for z in sub: out.append((z, e.step(z.s, z.pos, ("f", 0, 0))))
        if out: r.append((None, None, i, rec, out))
    for x in evs:
        if x.k == "collect": cands = [x.a[0]]
        elif x.k == "loop": cands = [p for p in (x.a[0].entry.mem.values() if x.a[0].entry else []) if isinstance(p, V) and p.op == "phi" and p.a[0][0] == x.a[0].serial]
        else: continue
        for v in cands:
            if v.op not in ("collect", "phi"): continue
            ls = full_loops(e, evs, v)
            if not ls or not node_ids(c, evs, v): continue
            for i, rec, vs in ls:
                out = []
                for w in vs:
                    if w.pos is None: continue
                    el = mk("elt", (v, w.pos), None)
                    names = {id(k): k for q in everything(w.evs) if q.k in ("add_node", "insert") for k in (G_key(q),) if k is not None}
                    names.update({id(t.a[2]): t.a[2] for t in w.s.truth if t.op == "op" and t.a[0] in ("haskey", "contains")})
                    nm = [k for k in names.values() if key_of(k, v, w)]
                    out.append((w, nm[0] if nm else el))
                r.append((v, None, i, rec, out))
    return r


def G_key(q):
    k = q.a[1]
    if k.op == "agg" and len(k.a) == 2 and isinstance(k.a[1], V): return k.a[1]
    return k


def key_of(k, v, w):
    """Is k the key (or the element) of a collection that a visit is about?"""
    if k is w.pos and k.op != "const": return True
    if k.op == "elt" and k.a[1] is w.pos and alike(k.a[0], v): return True
    return k.op == "fld" and k.a[2] == 0 and k.a[0].op == "elt" and k.a[0].a[1] is w.pos and alike(k.a[0].a[0], v)


# ---- declared connections of the memory unit ---------------------------------------------------------------------
def declares(rep):
    p = prog("main")
    key = [x["key"] for x in p.roots if x.get("trait") == "context::Context" and x["n"] == "edge_connections" and of_type(x, p, "PMU") and x["key"] in p.bodies]
    if not rep.ok(len(key) == 1, "anchor:pmu", "the memory unit does not declare its connections"): return
    e = engine(rep, "main")
    e.merge = False
    e.fresh_elems = True
    ProgramLayer(e)
    ChannelLayer(e, None)
    st = State()
    args = e.sym_args(key[0], st)
    site = body_site(p, key[0])
    n = 0
    for o in e.run_fn(key[0], args, st):
        if o.kind != "ret": continue
        v = e.resolve(o.st, o.val)
        if not rep.ok(v.op == "agg" and v.a[0] == 1, "pmu:some", "the memory unit can decline to declare its connections", site): continue
        n += 1
        evs = o.st.events()
        entries = map_entries(e, v.a[1])
        if not rep.ok(entries is not None, "pmu:entries", "the connections declared by the memory unit are not known", site): continue
        # what each declared set contains
        decl = []
        for k, pairs in entries:
            ps = vec_elems(e, o.st, pairs)
            if not rep.ok(ps is not None, "pmu:pairs", "the connections declared by the memory unit are not a known list", site): continue
            decl.append((k, [tuple(covered(e, p, evs, e.step(o.st, q, ("f", 0, i))) for i in (0, 1)) for q in ps]))
        ports = {}
        for rec in {id(x.a[0]): x.a[0] for x in everything(evs) if x.k == "loop"}.values():
            for s in rec.iters:
                for x in rec.iter_events(s):
                    if x.k != "next": continue
                    c, _ = source(x.a[0])
                    t = p.types[c.ty]["a"][0] if c is not None and c.ty is not None and p.types[c.ty]["k"] == "adt" and p.types[c.ty].get("a") else None
                    if t is not None and (p.adt(t) or "").split("::")[-1] in ("PMUReadBundle", "PMUWriteBundle"): ports[(p.adt(t)).split("::")[-1]] = (c, t)
        rep.count("port lists", len(ports))
        if not rep.ok(set(ports) == {"PMUReadBundle", "PMUWriteBundle"}, "pmu:ports", "the memory unit does not look at all of its ports when it declares connections", site): continue

        def fields(b, kind): return {(b, i) for i in range(p.nfields(ports[b][1], 0)) if ends(p, p.field_ty(ports[b][1], 0, i), kind)}
        for b, others in (("PMUWriteBundle", ()), ("PMUReadBundle", ("PMUWriteBundle",))):
            side = "write" if b == "PMUWriteBundle" else "read"
            owner = ports[b][0].a[0]
            mine = [q for k, ps in decl if below_place(k, owner) for q in ps]
            if not rep.ok(bool(mine), "pmu:%s" % side, "the memory unit declares no connections for its %s side" % side, site): continue
            for src in sorted(set.union(fields(b, "Receiver"), *[fields(x, "Receiver") for x in others])):
                for dst in sorted(fields(b, "Sender")):
                    rep.count("dependencies of the memory unit")
                    rep.ok(any(src in S and dst in D for S, D in mine), "pmu:%s:%s.%d:%d" % (side, src[0], src[1], dst[1]), "the memory unit does not declare that, at every port, %s depends on %s of every port" % (field_name(p, ports, dst), field_name(p, ports, src)), site)
    rep.floor("outcomes of the memory unit's declaration", n, 1)
    rep.use(e)


def field_name(p, ports, f):
    t = ports[f[0]][1]
    return "%s of %s" % (p.variants(t)[0][2][f[1]][0], f[0])


def below_place(v, owner):
    while isinstance(v, V) and v.op == "fld":
        if alike(v, owner): return True
        v = v.a[0]
    return isinstance(v, V) and alike(v, owner)


def map_entries(e, v):
    r = []
    while v.op == "upd":
        r.append((v.a[1], v.a[2])); v = v.a[0]
    return r[::-1] if v.op == "empty" or v.op == "agg" and len(v.a) == 1 else None


def vec_elems(e, st, v):
    v = e.resolve(st, v)
    if v.op == "empty": return []
    if v.op == "push":
        r = vec_elems(e, st, v.a[0])
        return None if r is None else r + [v.a[1]]
    if v.op == "agg": return list(v.a[1:])
    return None


def covered(e, p, evs, v, d=0):
    """{(bundle, field)} such that a set contains the identity of that field of every port of that kind."""
    if d > 8: return set()
    while v.op == "upd": v = v.a[0]
    r = set()
    if v.op not in ("phi", "collect"): return r
    rec = e.loops.get(v.a[0][0] if v.op == "phi" else v.a[0])
    if rec is None: return r
    f = Filled(e, v, False)
    colls = {}
    for s in rec.iters:
        for x in rec.iter_events(s):
            if x.k == "next":
                c, _ = source(x.a[0])
                if c is not None and c.ty is not None: colls[id(c)] = c
    for c in colls.values():
        for _, lr, vs in full_loops(e, evs, c):
            if lr is not rec or not vs: continue
            groups = {}
            for w in vs:
                if not any(x.k == "next" and runs_over(x.a[0], c) for x in w.evs): continue
                sub = [x.a[2] for x in w.evs if x.k == "next" and not runs_over(x.a[0], c)]
                got = set()
                for a in f.adds(w): got |= port_of(p, a, c, w.pos)
                if is_flat(rec) and not sub and not got: continue   # the visit in which the inner list has ended
                groups.setdefault(sub[0] if sub and is_flat(rec) else None, []).append(got)
            for g in groups.values(): r |= set.intersection(*g)
    if v.op == "phi": r |= covered(e, p, evs, e.subst_phi(rec.init, v, rec), d + 1)
    return r


def port_of(p, a, c, pos):
    """The field of a port whose channel an identity names."""
    if a.op != "op" or a.a[0] != "chan_id": return set()
    x = a.a[1]
    while x.op == "fld" and not (x.a[0].op == "elt"): x = x.a[0]
    if x.op != "fld" or not (x.a[0].a[1] is pos and alike(x.a[0].a[0], c)): return set()
    t = p.types[c.ty]["a"][0]
    return {((p.adt(t) or "").split("::")[-1], x.a[2])}


def listed(c, evs, w, which, coll):
    """The same for an endpoint that is visited as part of a list of endpoints."""
    for x in w.evs:
        v = source(x.a[0])[0] if x.k in ("next", "exhausted") else None
        if v is None or v.op != "agg": continue
        for i, t in enumerate(v.a[1:]):
            if not (isinstance(t, V) and t.op == "op" and t.a[0] == which and same_elem(t.a[1], coll, w.pos)): continue
            vs = inner(c.e, w, v)
            if vs is None: continue
            mine = [z for z in vs if z.pos is not None and isc(z.pos) and z.pos.a[0] == i]
            name = c.payload(w.s, t)
            good = bool(mine)
            for z in mine:
                sub = inner(c.e, z, t)
                if z.s.var.get(t) == 0 or sub == []: continue
                if not all(known_member(c, evs, y.s, name) == 1 for y in (sub or [z])): good = False
            if good: return True
    return False
