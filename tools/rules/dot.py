"""D03: the drawing of a program."""
from rules import rule
from rules.base import *
from rules.contexts import alike, of_type
from rules.logs import mentions, ends
from rules.running import run_program, typed
from rules.program import visits_in, full_loops, everything, node_ids, same_elem, Program, is_flat, place_of, Filled, source
from layers import SelfLayer, EdgeLayer, ProgramLayer

TRAIT = "simulation::dot::DotConvertible"


def adt_named(p, name):
    r = [i for i, t in enumerate(p.types) if t["k"] == "adt" and t["p"].startswith("simulation::") and t["p"].endswith("::" + name)]
    return r[0] if r else None


class Drawing:
    """A drawing function run on an arbitrary program or node, and how the statements it makes come about."""
    def __init__(self, rep, e, outs, site):
        self.rep, self.e, self.p, self.outs, self.site = rep, e, e.p, outs, site
        self.calls, self.recs = {}, {}
        self.lists = []
        for o in outs:
            self.note(o.st.events(), o.kind == "ret", set())

    def note(self, evs, ok, seen):
        if ok: self.lists.append(evs)
        for x in evs:
            if x.k == "call" and isinstance(x.a[2], V): self.calls[x.a[2]] = (x.a[0], x.a[1])
            elif x.k == "recursive": self.recs[x.a[2]] = x
            elif x.k == "loop" and x.a[0].serial not in seen:
                seen.add(x.a[0].serial)
                rec = x.a[0]
                for s in rec.iters: self.note(rec.iter_events(s), True, seen)
                for o in rec.exits:
                    if isinstance(o[1], State): self.note(rec.iter_events(o[1]) if False else o[1].events()[-60:], False, seen)

    def complete(self, rec, coll):
        """Does a loop visit every element of a collection on every path?"""
        n = 0
        for evs in self.lists:
            if not any(x.k == "loop" and x.a[0] is rec for x in evs): continue
            n += 1
            if not any(r is rec for _, r, _ in full_loops(self.e, evs, coll)): return None
        if not n: return None
        for evs in self.lists:
            for _, r, vs in full_loops(self.e, evs, coll):
                if r is rec: return vs
        return None

    # -- statements
    def made(self, v, d=0):
        """A vector as a list of what it was put together from: ("one", x) an element; ("each", record, [(state, list)]) what the
        iterations of a loop add; ("draw", arguments, result) what a recursive call adds; ("base", x) unknown."""
        e = self.e
        if d > 40 or not isinstance(v, V): return [("base", v)]
        if v.op == "empty": return []
        if v.op == "push": return self.made(v.a[0], d + 1) + [("one", v.a[1])]
        if v.op == "recur":
            x = [y for y in self.recs.values() if alike(tuple(y.a[1]), tuple(v.a[1])) or y.a[1] == v.a[1]]
            return self.made(v.a[0], d + 1) + [("draw", v.a[1], x[0].a[2] if x else None, v)]
        if v.op == "op" and v.a[0] == "append": return self.made(v.a[1], d + 1) + self.made(v.a[2], d + 1)
        if v in self.recs: return [("draw", self.recs[v].a[1], v, None)]
        if v.op == "agg" and v.ty is not None and self.p.tk(v.ty) in ("array", "slice"): return [("one", x) for x in v.a[1:]]
        if v.op == "phi":
            rec = e.loops.get(v.a[0][0])
            if rec is None: return [("base", v)]
            init = e.subst_phi(rec.init, v, rec)
            if init.op == "phi" and init is v: return [("base", v)]
            its = []
            for s in rec.iters:
                end = e.subst_phi(s, v, rec)
                its.append((s, self.upto(end, v, d + 1)))
            return self.made(init, d + 1) + [self.simple(("each", rec, its))]
        if v.op == "collect":
            rec = e.loops.get(v.a[0])
            if rec is None: return [("base", v)]
            return [self.simple(("each", rec, [(s, [("one", x)]) for s, x in rec.results]))]
        return [("base", v)]

    def upto(self, v, base, d):
        if v is base or alike(v, base): return []
        if v.op == "push": return self.upto(v.a[0], base, d + 1) + [("one", v.a[1])]
        if v.op == "recur":
            x = [y for y in self.recs.values() if y.a[1] == v.a[1]]
            return self.upto(v.a[0], base, d + 1) + [("draw", v.a[1], x[0].a[2] if x else None, v)]
        if v.op == "op" and v.a[0] == "append": return self.upto(v.a[1], base, d + 1) + self.made(v.a[2], d + 1)
        if v.op == "phi" and v.a[0][1:] == base.a[0][1:]:
            rec = self.e.loops.get(v.a[0][0])
            if rec is not None:
                init = self.e.subst_phi(rec.init, v, rec)
                if init is not v: return self.upto(init, base, d + 1) + [self.simple(("each", rec, [(s, self.upto(self.e.subst_phi(s, v, rec), v, d + 1)) for s in rec.iters]))]
        return [("base", v)]

    def simple(self, it):
        """A loop that moves every element of a collection over adds what that collection was made of."""
        _, rec, its = it
        colls = []
        for s, xs in its:
            if len(xs) != 1 or xs[0][0] != "one" or xs[0][1].op != "elt": return it
            colls.append((s, xs[0][1]))
        if not colls: return it
        first = colls[0][1].a[0]
        if all(x.a[0] is first or alike(x.a[0], first) for _, x in colls):
            vs = self.complete(rec, first)
            if vs is not None and all(any(x.a[1] is w.pos for _, x in colls if _ is w.s) for w in vs) and len(vs) == len(colls): return ("all", first)
        return it

    def flat(self, xs):
        """The same list with collections that were taken over whole replaced by what they were made of."""
        r = []
        for x in xs:
            if x[0] == "all": r += self.flat(self.made(x[1]))
            elif x[0] == "each": r.append(("each", x[1], [(s, self.flat(self.opened(x[1], s, ys))) for s, ys in x[2]]))
            else: r.append(x)
        return r

    def opened(self, rec, s, xs):
        """What an iteration of a flattening loop hands on: the elements of a collection made in it."""
        r = []
        for x in xs:
            if x[0] == "one" and x[1].op == "elt" and is_flat(rec) and any(y.k == "next" and y.a[2] is x[1].a[1] for y in rec.iter_events(s)): r += self.made(x[1].a[0])
            else: r.append(x)
        return r

    def added(self, rec, its, w):
        """What a visit adds: one list per path of the visit."""
        r = [l for s, l in its if s is w.s]
        if r or not (is_flat(rec) or is_flat(w.rec)): return r
        # an iteration that only notes that an element's statements are used up
        cs = [source(y.a[0])[0] for y in w.evs if y.k == "exhausted" and (same_iter(y, w) is False)]
        return [self.flat(self.made(c)) for c in cs[-1:] if c is not None]

    def every(self, xs):
        for x in xs:
            yield x
            if x[0] == "each":
                for _, ys in x[2]: yield from self.every(ys)

    # -- shapes
    def unwrap(self, v):
        while isinstance(v, V):
            if v.op == "op" and v.a[0] == "convert" and len(v.a) == 2: v = v.a[1]
            elif v.op == "agg" and v.ty is not None and (self.p.adt(v.ty) or "").split("::")[-1] in ("Stmt", "Vertex") and len(v.a) == 2: v = v.a[1]
            else: break
        return v

    def kind(self, v):
        """("node", id, attributes) | ("edge", ends, attributes) | ("sub", id, statements) | ("attr", key, value)"""
        v = self.unwrap(v)
        if v in self.calls and self.calls[v][0] == "dot_structures::Node::new": return ("node",) + tuple(self.calls[v][1])
        if v.op != "agg" or v.ty is None: return ("?", v)
        n = (self.p.adt(v.ty) or "").split("::")[-1]
        if n == "Node": return ("node", v.a[1], v.a[2])
        if n == "Edge": return ("edge", v.a[1], v.a[2])
        if n == "Subgraph": return ("sub", v.a[1], v.a[2])
        if n == "Attribute": return ("attr", v.a[1], v.a[2])
        if n == "GraphAttributes": return ("attrs", v)
        return ("?", v)

    def pair(self, v):
        """Names of the two ends of an edge."""
        v = self.unwrap(v)
        if v.op == "agg" and v.ty is not None and self.p.variants(v.ty)[v.a[0]][0] == "Pair": return [self.name(self.unwrap(x)) for x in v.a[1:]]
        if v.op == "agg" and self.p.variants(v.ty)[v.a[0]][0] == "Chain":
            xs = self.made(v.a[1])
            if all(x[0] == "one" for x in xs): return [self.name(self.unwrap(x[1])) for x in xs]
        return []

    def name(self, v):
        """The text in a node id."""
        v = self.unwrap(v)
        for _ in range(3):
            if v.op == "agg" and v.ty is not None and (self.p.adt(v.ty) or "").split("::")[-1] in ("NodeId", "Id"): v = v.a[1]
        return plain_text(v)

    def attrs(self, v):
        """[(key term, value term)] of a list of attributes, None when it is not a plain list."""
        xs = self.made(v)
        if any(x[0] != "one" for x in xs): return None
        r = [self.kind(x[1]) for x in xs]
        return [(x[1], x[2]) for x in r] if all(x[0] == "attr" for x in r) else None


def same_iter(y, w):
    """Is it the iterator that the visit's element came from?"""
    return any(x.k == "next" and x.a[2] is w.pos and same_root(x.a[0], y.a[0]) for x in w.evs)


def plain_text(v):
    """A text without formatting steps that only pass it on."""
    while v.op == "op":
        if v.a[0] == "fmt:format" and len(v.a) == 2: v = v.a[1]
        elif v.a[0] == "fmt:new" and len(v.a) == 3 and v.a[2].op == "agg" and len(v.a[2].a) == 2 and pieces(v) == ["", ""]: v = v.a[2].a[1]
        elif v.a[0] == "fmt:new_display" and len(v.a) == 2 and v.a[1].op == "op" and v.a[1].a[0] in ("fmt:format", "fmt:to_string"): v = v.a[1]
        else: break
    return v


def pieces(v):
    """Literal parts of a format string around its arguments, None when not understood."""
    for x in walk_terms(v.a[1]):
        t = x if isinstance(x, str) else None
        if x is not None and isinstance(x, V) and x.op == "sym": t = show(x)
        if t is None or 'b"' not in t: continue
        try: raw = eval(t[t.index('b"'):])
        except Exception: return None
        out, i, cur = [], 0, b""
        while i < len(raw):
            c = raw[i]
            if c == 0: break
            if c < 0x80: cur += raw[i + 1:i + 1 + c]; i += 1 + c
            elif c == 0xc0: out.append(cur.decode("utf8", "replace")); cur = b""; i += 1
            else: return None
        return out + [cur.decode("utf8", "replace")]
    return None


def walk_terms(v, d=0):
    yield v
    if isinstance(v, V) and d < 6:
        for x in v.a: yield from walk_terms(x, d + 1)


def with_hole(v, who):
    """A term with one part of it left open."""
    if isinstance(v, V):
        if alike(v, who): return "@"
        return (v.op,) + tuple(with_hole(x, who) for x in v.a)
    return tuple(with_hole(x, who) for x in v) if isinstance(v, tuple) else v


def has_hole(t): return t == "@" or isinstance(t, tuple) and any(has_hole(x) for x in t)


def only_hole(t):
    """Does the text depend on nothing but the open part (and constants)?"""
    if t == "@": return True
    if isinstance(t, tuple):
        if t and t[0] in ("elt", "phi", "ref"): return False
        return all(only_hole(x) for x in t)
    return True


def clean_hole(t):
    """Does the open part go into the text as it is (only selected from and formatted)?"""
    if t == "@": return True
    if not isinstance(t, tuple) or not t: return False
    if t[0] == "op" and not (isinstance(t[1], str) and (t[1].startswith("fmt:") or t[1] in ("convert", "userAdd"))): return False
    return any(clean_hole(x) for x in t[1:])


def shows(v, who): return clean_hole(with_hole(v, who))


def text_const(v):
    """The constant text in an attribute's key."""
    for x in walk_terms(plain_text(v)):
        if isinstance(x, V) and x.op == "str": return x.a[0]
        if isinstance(x, V) and x.op == "agg" and len(x.a) == 2: return text_const(x.a[1])
    return None


class Node:
    """What is known about a context to be drawn."""
    def __init__(self, ident, name, kids, timed, is_child):
        self.ident, self.name, self.kids, self.timed, self.is_child = ident, name, kids, timed, is_child


def emptiness(s, kids):
    """Does the path know that the children are none (1) or some (0)?"""
    for t, k in s.truth.items():
        if t.op != "op" or len(t.a) != 3: continue
        for a, b, fl in ((t.a[1], t.a[2], 0), (t.a[2], t.a[1], 1)):
            c = len_of(a)
            if c is None or not kids(c) or not isc(b): continue
            if t.a[0] == "Eq" and b.a[0] == 0: return k
            if t.a[0] == "Ne" and b.a[0] == 0: return 1 - k
            if t.a[0] == "Lt" and not fl and b.a[0] == 1: return k
            if t.a[0] == "Lt" and fl and b.a[0] == 0: return 1 - k
            if t.a[0] == "Le" and not fl and b.a[0] == 0: return k
            if t.a[0] == "Le" and fl and b.a[0] == 1: return 1 - k
    return None


class Nodes:
    """The statements for one context."""
    def __init__(self, D, timed): self.D, self.rep, self.timed, self.ids = D, D.rep, timed, []

    def visited(self, s, node):
        """Is the identity known to be in the set of contexts drawn before?"""
        for t, k in s.truth.items():
            if k == 1 and t.op == "op" and t.a[0] in ("haskey", "contains") and alike(t.a[2], node.ident): return t.a[1]
        return None

    def check(self, s, xs, node, evs, what):
        """evs: events of the path"""
        D, rep = self.D, self.rep
        rep.count("drawn contexts")
        for x in everything(evs):
            if x.k == "insert" and x.a[1].ty is not None and ends(D.p, x.a[1].ty, "Identifier"):
                rep.ok(alike(x.a[1], node.ident), what + ":marks", "a context is marked as drawn that is not being drawn", D.site)
        if not xs:
            rep.ok(self.visited(s, node) is not None, what + ":dropped", "a context can be left out of the drawing", D.site)
            return
        if not rep.ok(len(xs) == 1 and xs[0][0] == "one", what + ":one", "a context is not drawn as exactly one node", D.site): return
        k = D.kind(xs[0][1])
        if not rep.ok(k[0] in ("node", "sub"), what + ":one", "a context is not drawn as exactly one node", D.site): return
        name = D.name(k[1])
        rep.ok(shows(name, node.ident), what + ":name", "a context's node is not named after its identity", D.site)
        if k[0] == "node":
            rep.ok(emptiness(s, node.kids) == 1, what + ":children", "a context that may have children is drawn without them", D.site)
            self.ids.append(with_hole(name, node.ident))
            attrs = D.attrs(k[2])
        else:
            rep.ok(emptiness(s, node.kids) == 0, what + ":leaf", "a context without children may get no node", D.site)
            xs = D.flat(D.made(k[2]))
            attrs = []
            kids = 0
            for x in xs:
                if x[0] == "one":
                    y = self.attribute(x[1])
                    if rep.ok(y is not None, what + ":extra", "something that is neither an attribute nor a child is drawn inside a context", D.site): attrs += y
                elif x[0] == "each": kids += self.children(s, x, node, what)
                else: rep.ok(False, what + ":extra", "something that is neither an attribute nor a child is drawn inside a context", D.site)
            rep.ok(kids == 1, what + ":nested", "the children of a context are not all drawn inside it", D.site)
        if not rep.ok(attrs is not None, what + ":attributes", "the attributes of a context's node are not known", D.site): return
        label = [v for a, v in attrs if text_const(a) == "label"]
        rep.ok(len(label) == 1 and shows(label[0], node.ident) and shows(label[0], node.name), what + ":label", "a context's node is not labelled with its name and identity", D.site)
        if self.timed: rep.ok(any(self.elapsed(v, node) for _, v in attrs), what + ":elapsed", "a context's node does not show its elapsed time", D.site)

    def elapsed(self, v, node):
        hit = []
        mentions(None, v, lambda x: bool(x.op == "op" and x.a[0] == "view_tlb" and node.timed(x.a[1]) and hit.append(x)))
        return any(shows(v, x) for x in hit)

    def attribute(self, v):
        D = self.D
        k = D.kind(v)
        if k[0] == "attr": return [(k[1], k[2])]
        if k[0] == "attrs":
            xs = [x for y in k[1].a[1:] for x in (D.attrs(y) or [None])]
            return None if None in xs else xs
        return None

    def children(self, s, x, node, what):
        """Does a loop draw every child?"""
        D, rep, e = self.D, self.rep, self.D.e
        _, rec, its = x
        for evs in D.lists:
            for _, r, vs in [(i, r, vs) for i, r, vs in self.loops(evs, rec, node)]:
                good = True
                for w in vs:
                    ys = D.added(rec, its, w)
                    good = good and len(ys) == 1 and len(ys[0]) == 1 and ys[0][0][0] == "draw" and self.of_child(w, ys[0][0][1], node)
                if good and vs: return 1
        return 0

    def loops(self, evs, rec, node):
        """The loop, if it visits every child."""
        for c in {id(y): y for y in sources(rec)}.values():
            if node.kids(c) and self.D.complete(rec, c) is not None:
                yield from [(i, r, vs) for i, r, vs in full_loops(self.D.e, evs, c) if r is rec]

    def of_child(self, w, args, node):
        """Is the child of this visit what the recursive call draws?"""
        e = self.D.e
        n = 0
        for a in args:
            t = target(e, w.s, a)
            if t is not None and node.is_child(t, w.pos): n += 1
        return n == 1


def sources(rec):
    for s in rec.iters:
        for x in rec.iter_events(s):
            if x.k in ("next", "exhausted"):
                v, _ = source(x.a[0])
                if v is not None: yield v
    d = Drive(rec, None)
    if d.root is not None: yield d.root[3]


def target(e, s, a):
    """What a reference points to."""
    a = e.resolve(s, a)
    if a.op != "ref" and (a.ty is None or e.p.tk(a.ty) != "ref"): return a
    al, path = e.deref(s, a)
    v = e.load(s, al, path)
    return None if v is UNDEF else v


# ---- the two drawings
class Side:
    """Which context a drawing is about: a summary, or an identity with the map of all identities."""
    def __init__(self, e, p): self.e, self.p = e, p

    def part(self, s, v, name):
        return self.e.step(s, v, ("f", 0, self.p.field_index(v.ty, name)))

    def summary(self, s, v, timed):
        """v: a ContextSummary"""
        p, e = self.p, self.e
        ident = [self.e.step(s, v, ("f", 0, i)) for i in range(p.nfields(v.ty, 0)) if ends(p, p.field_ty(v.ty, 0, i), "VerboseIdentifier")]
        kids = [self.e.step(s, v, ("f", 0, i)) for i in range(p.nfields(v.ty, 0)) if p.ts(p.field_ty(v.ty, 0, i)).startswith("alloc::vec::Vec<") and "ContextSummary" in p.ts(p.field_ty(v.ty, 0, i))]
        if len(ident) != 1 or len(kids) != 1: return None
        return Node(self.part(s, ident[0], "id"), self.part(s, ident[0], "name"), lambda c: alike(c, kids[0]), timed, lambda t, pos: t.op == "elt" and alike(t.a[0], kids[0]) and t.a[1] is pos)

    def identity(self, s, v, ok_map):
        """v: a VerboseIdentifier (or the identity and name of a context)"""
        i, n = self.part(s, v, "id"), self.part(s, v, "name")

        def kids(c): return c.op == "elt" and ok_map(c.a[0]) and (alike(c.a[1], v) or c.a[1].op == "agg" and len(c.a[1].a) == 3 and alike(c.a[1].a[1], i) and alike(c.a[1].a[2], n))
        return Node(i, n, kids, None, lambda t, pos: t is pos or t.op == "elt" and t.a[1] is pos)


def time_field(p, ty):
    r = [i for i in range(p.nfields(ty, 0)) if ends(p, p.field_ty(ty, 0, i), "TimeView")]
    return r[0] if len(r) == 1 else None


def fields_of_spec(rep, p):
    """Which field of a channel's description each of its accessors hands out."""
    r = {}
    for n in ("capacity", "latency", "resp_latency"):
        ks = [x["key"] for x in p.roots if x["n"] == n and x.get("trait") is None and of_type(x, p, "ChannelSpec") and x["key"] in p.bodies]
        if not rep.ok(len(ks) == 1, "anchor:" + n, "channels have no %s any more" % n): return None
        e = engine(rep, "main")
        st = State()
        outs = [o for o in e.run_fn(ks[0], e.sym_args(ks[0], st), st) if o.kind == "ret"]
        if not rep.ok(len(outs) == 1 and outs[0].val.op == "fld", "spec:" + n, "the %s of a channel is not a plain part of its description" % n, body_site(p, ks[0])): return None
        r[n] = outs[0].val.a[2]
    return r


def edges(D, xs, coll, nodeids, rep, what, spec):
    """Every channel between two contexts gives exactly one edge, and no edge joins anything else."""
    e = D.e
    loops = []
    for x in D.every(xs):
        if x[0] != "each": continue
        vs = D.complete(x[1], coll)
        if vs is None: continue
        loops.append((x, vs))
    if not rep.ok(len(loops) == 1, what + ":edges", "the drawing does not go over every channel of the program once", D.site): return
    (_, rec, its), vs = loops[0]
    for w in vs:
        ys = [y for l in D.added(rec, its, w) for y in D.every(l)]
        snd = [(t, k) for t, k in w.s.var.items() if t.op == "op" and t.a[0] == "edge_sender" and same_elem(t.a[1], coll, w.pos)]
        rcv = [(t, k) for t, k in w.s.var.items() if t.op == "op" and t.a[0] == "edge_receiver" and same_elem(t.a[1], coll, w.pos)]
        if any(k == 0 for _, k in snd + rcv): continue
        rep.count("channel visits")
        es = [y for y in ys if y[0] == "one" and D.kind(y[1])[0] == "edge"]
        if not rep.ok(len(es) == 1 and len(ys) == 1, what + ":edge", "a channel between two contexts is not drawn as exactly one edge", D.site): continue
        if not rep.ok(bool(snd and rcv), what + ":ends", "an edge is drawn without knowing the ends of its channel", D.site): continue
        k = D.kind(es[0][1])
        ends_ = D.pair(k[1])
        ids = [e.step(w.s, t[0][0], ("f", 1, 0)) for t in (snd, rcv)]
        ok = len(ends_) == 2 and all(with_hole(n, i) in nodeids for n, i in zip(ends_, ids))
        rep.ok(ok, what + ":ends", "an edge does not go from the node of the sender to the node of the receiver", D.site)
        attrs = D.attrs(k[2])
        if not rep.ok(attrs is not None, what + ":attributes", "the attributes of an edge are not known", D.site): continue
        who = [t.a[1] for t, _ in snd][0]
        lab = [v for a, v in attrs if text_const(a) == "label"]
        rep.ok(len(lab) == 1 and any(shows(lab[0], x) for x in terms(lab[0], lambda x: x.op == "op" and x.a[0] == "edge_id" and same_elem(x.a[1], coll, w.pos))), what + ":label", "an edge is not labelled with its channel's identity", D.site)
        for n, f in spec.items():
            hit = [(a, v, x) for a, v in attrs for x in terms(v, lambda x: x.op == "fld" and x.a[2] == f and of_spec(x.a[0], coll, w.pos))]
            rep.ok(any(shows(v, x) for _, v, x in hit), what + ":shows:" + n, "an edge does not show its channel's %s" % n.replace("_", " "), D.site)
            for _, v, x in hit: rep.ok(not mislabelled(v, x, n), what + ":words:" + n, "a channel's %s is shown as something else" % n.replace("_", " "), D.site)


def of_spec(v, coll, pos):
    while v.op == "fld" and v.a[1] == "*": v = v.a[0]
    return v.op == "op" and v.a[0] == "edge_spec" and same_elem(v.a[1], coll, pos)


def terms(v, pred):
    r = []
    mentions(None, v, lambda x: bool(pred(x) and r.append(x)))
    return r


def mislabelled(v, x, n):
    """Is the literal before a value in its format string the name of another part of the description?"""
    for f in terms(v, lambda y: y.op == "op" and y.a[0] == "fmt:new" and len(y.a) == 3 and y.a[2].op == "agg"):
        ps = pieces(f)
        if ps is None or len(ps) != len(f.a[2].a): continue
        for lit, arg in zip(ps, f.a[2].a[1:]):
            if not shows(arg, x): continue
            lit = lit.lower()
            resp, lat, cap = "resp" in lit, "laten" in lit, "capac" in lit
            if n == "capacity" and (lat or resp): return True
            if n == "latency" and (resp or cap): return True
            if n == "resp_latency" and (cap or lat and not resp): return True
    return False


def one_drawing(rep, name, spec, roles):
    p = prog("main")
    key = [x["key"] for x in p.roots if x.get("trait") == TRAIT and x["n"] == "to_dot" and x["key"] in p.bodies]
    ty = adt_named(p, name)
    if not rep.ok(ty is not None and len(key) >= 1, "anchor:" + name, "%s programs cannot be drawn any more" % name): return
    own = [x for x in p.roots if x["key"] in key and x.get("self") is not None and p.adt(x["self"]) == p.adt(ty)]
    k = own[0]["key"] if own else key[0]
    e = engine(rep, "main")
    e.merge, e.fresh_elems = False, True
    L = ProgramLayer(e)
    SelfLayer(e, ty, p.ts(p.pointee(p.bodies[k]["l"][1])) if hasattr(p, "pointee") else p.ts(e.pointee(p.bodies[k]["l"][1])))
    st = State()
    g = named("graph", ty)
    al = e.new_alloc(st, g)
    outs = e.run_fn(k, [e.ref(al, ())], st)
    rep.use(e)
    D = Drawing(rep, e, outs, body_site(p, k))
    side = Side(e, p)
    if name == "Executed":
        nodes = [e.step(st, g, ("f", 0, i)) for i in range(p.nfields(ty, 0)) if "ContextSummary" in p.ts(p.field_ty(ty, 0, i))]
        chans = [e.step(st, g, ("f", 0, i)) for i in range(p.nfields(ty, 0)) if "ChannelHandle" in p.ts(p.field_ty(ty, 0, i))]
    else:
        d = [e.step(st, g, ("f", 0, i)) for i in range(p.nfields(ty, 0)) if ends(p, p.field_ty(ty, 0, i), "ProgramData")]
        nodes = [e.step(st, x, ("f", 0, roles["nodes"][-1][2])) for x in d]
        chans = [e.step(st, x, ("f", 0, roles["edges"][-1][2])) for x in d]
    if not rep.ok(len(nodes) == 1 and len(chans) == 1, "fields:" + name, "the contexts and channels of an %s program are not where they were" % name.lower(), D.site): return
    nodes, chans = nodes[0], chans[0]
    N = Nodes(D, name == "Executed")
    n = 0
    for o in outs:
        if o.kind != "ret": continue
        n += 1
        gr = e.resolve(o.st, o.val)
        stm = [x for x in gr.a[1:] if isinstance(x, V) and x.ty is not None and "Stmt" in p.ts(x.ty)] if gr.op == "agg" else []
        if not rep.ok(len(stm) == 1, name + ":graph", "the drawing is not a known graph", D.site): return
        strict = [e.resolve(o.st, x) for x in gr.a[1:] if isinstance(x, V) and x.ty is not None and p.ts(x.ty) == "bool"]
        rep.ok(p.variants(gr.ty)[gr.a[0]][0] == "DiGraph", name + ":directed", "the drawing does not say which way a channel goes", D.site)
        rep.ok(len(strict) == 1 and strict[0].op == "int" and not strict[0].a[0], name + ":strict", "the drawing merges several channels between the same two contexts", D.site)
        xs = D.flat(D.made(stm[0]))
        rep.ok(not any(x[0] in ("base", "draw") for x in xs), name + ":statements", "the drawing contains statements of unknown origin", D.site)
        evs = o.st.events()
        # contexts
        loops = [(x, D.complete(x[1], nodes)) for x in xs if x[0] == "each" and D.complete(x[1], nodes) is not None]
        if not rep.ok(len(loops) == 1, name + ":contexts", "the drawing does not go over every context once", D.site): continue
        (_, rec, its), vs = loops[0]
        if not rep.ok(bool(vs), name + ":contexts", "the drawing does not go over every context once", D.site): continue
        for w in vs:
            ys = D.added(rec, its, w)
            if name == "Executed":
                v = e.step(w.s, nodes, ("ix", w.pos))
                tf = time_field(p, v.ty)
                node = side.summary(w.s, v, lambda r: r.op == "ref" and len(r.a[1]) >= 2 and r.a[1][-1][:3] == ("f", 0, tf) and r.a[1][-2][0] == "ix" and r.a[1][-2][1] is w.pos)
            else:
                i, nm = [next(iter(terms_in(w, q, nodes)), None) for q in ("ctx_id", "ctx_name")]
                if not rep.ok(i is not None, name + ":identity", "a context is drawn without asking for its identity", D.site): continue
                vi = mk("agg", (0, i, nm if nm is not None else i), adt_of(p, "VerboseIdentifier"))
                whole = Whole(e, p, nodes, rep, D)
                node = side.identity(w.s, vi, lambda m: whole.all_ids(evs, m))
            if not rep.ok(len(ys) == 1 and node is not None, name + ":context", "a context is not drawn as exactly one node", D.site): continue
            if not ys[0] and name == "Initialized":
                t = N.visited(w.s, node)
                rep.ok(t is not None and starts_empty(e, t), name + ":seen", "a context can be left out of the drawing although it was not drawn before", D.site)
            N.check(w.s, ys[0], node, w.evs, name)
        for x in xs:
            if x[0] == "one": rep.ok(D.kind(x[1])[0] in ("attr", "attrs"), name + ":extra", "something that belongs to no context or channel is drawn", D.site)
            elif x[0] == "each" and x[1] is not rec:
                rep.ok(D.complete(x[1], chans) is not None, name + ":extra", "something that belongs to no context or channel is drawn", D.site)
        edges(D, xs, chans, N.ids, rep, name, spec)
    rep.floor("drawings of %s programs" % name.lower(), n, 1)
    recursion(rep, name, D, ty, N)


def adt_of(p, n):
    return next((i for i, t in enumerate(p.types) if t["k"] == "adt" and t["p"].endswith("::" + n)), None)


def terms_in(w, q, nodes):
    """Terms of a visit that ask its context for something."""
    pool = list(w.s.truth) + list(w.s.var) + [a for x in everything(w.evs) for a in x.a if isinstance(a, V)] + [b for x in everything(w.evs) for a in x.a if isinstance(a, tuple) for b in a if isinstance(b, V)]
    for t in pool:
        yield from terms(t, lambda y: y.op == "op" and y.a[0] == q and same_elem(y.a[1], nodes, w.pos))


def starts_empty(e, v):
    for _ in range(6):
        if v.op == "empty": return True
        if v.op != "phi": return False
        rec = e.loops.get(v.a[0][0])
        if rec is None: return False
        w = e.subst_phi(rec.init, v, rec)
        if w is v: return False
        v = w
    return False


class Whole:
    """The map of the identities of all contexts, with their children."""
    def __init__(self, e, p, nodes, rep, D): self.e, self.p, self.coll, self.rep, self.D = e, p, {"nodes": nodes}, rep, D

    def all_ids(self, evs, m):
        if not node_ids_with_kids(self, evs, m): return False
        return True


def node_ids_with_kids(c, evs, m):
    """Does the map hold every identity that any context reports, each with what the context reports for it?"""
    from rules.program import ids_of, inner
    e = c.e
    f = Filled(e, m, True)
    alls = f.all_adds(evs)
    if not alls or not f.starts_empty(evs): return False
    if m.op == "collect":
        rec = e.loops.get(m.a[0])
        pairs = [(s, e.step(s, x, ("f", 0, 0)), e.step(s, x, ("f", 0, 1))) for s, x in rec.results]
    else:
        al = tuple(m.a[0][1:])
        pairs = [(None, y.a[1], y.a[2]) for y in everything(evs) if y.k == "insert" and tuple(place_of(y.a[0])) == al]
    nodes = c.coll["nodes"]
    for i, rec, vs in full_loops(e, evs, nodes):
        good, n = True, 0
        for w in vs:
            t = ids_of(w.evs, nodes, w.pos)
            sub = inner(e, w, t) if t is not None else None
            if sub is None: good = False; break
            for z in sub:
                ks = [a for a in f.adds(z) if a is z.pos or alike(a, z.pos)]
                if len(ks) != 1: good = False
                n += 1
        if good and n and all(v.op == "elt" and v.a[0].op == "op" and v.a[0].a[0] == "ctx_ids" and alike(v.a[1], k) for _, k, v in pairs): return True
    return False


def recursion(rep, name, D, ty, N):
    """The function that draws a nested context, on an arbitrary one."""
    p = D.p
    fns = {x.a[0] for x in D.recs.values()}
    for f in sorted(fns):
        ks = [x["key"] for x in p.roots if x["p"] == f and x["key"] in p.bodies] or [k for k, b in p.bodies.items() if b["p"] == f]
        if not rep.ok(len(ks) == 1, name + ":nested", "the drawing of nested contexts is not known"): continue
        nested(rep, name, ks[0], f, N)
    rep.ok(len(fns) >= 1, name + ":nested", "nested contexts are not drawn like other contexts", D.site)


def nested(rep, name, key, f, N0):
    p = prog("main")
    b = p.bodies[key]
    e = engine(rep, "main")
    e.merge, e.fresh_elems = False, True
    ProgramLayer(e)
    SelfLayer(e, adt_named(p, name))
    st = State()
    args = e.sym_args(key, st)
    want = "ContextSummary" if name == "Executed" else "VerboseIdentifier"
    who = [i for i, a in enumerate(args) if ends(p, strip_refs(e, a.ty), want)]
    sink = [i for i, a in enumerate(args) if p.tk(a.ty) == "ref" and p.types[a.ty].get("mut") and "Stmt" in p.ts(a.ty)]
    site = body_site(p, key)
    if not rep.ok(len(who) == 1 and len(sink) <= 1, name + ":nested", "the drawing of nested contexts is not known", site): return
    init = None
    if sink:
        al, path = e.deref(st, args[sink[0]])
        init = e.load(st, al, path)
    if p.tk(args[who[0]].ty) == "ref":
        nal, npath = e.deref(st, args[who[0]])
        v = e.load(st, nal, npath)
    else: nal, npath, v = None, (), args[who[0]]
    outs = e.run_fn(key, args, st)
    rep.use(e)
    D = Drawing(rep, e, outs, site)
    N = Nodes(D, N0.timed)
    side = Side(e, p)
    n = 0
    for o in outs:
        if o.kind != "ret": continue
        n += 1
        res = e.load(o.st, *e.deref(o.st, args[sink[0]])) if sink else e.resolve(o.st, o.val)
        xs = D.flat(D.made(res))
        if init is not None:
            if not rep.ok(bool(xs) and xs[0][0] == "base" and alike(xs[0][1], init), name + ":sink", "the drawing of a nested context loses what was drawn before", site): continue
            xs = xs[1:]
        if name == "Executed":
            tf = time_field(p, v.ty)
            node = side.summary(o.st, v, lambda r: r.op == "ref" and r.a[0] == nal and [y[:3] for y in r.a[1]] == [y[:3] for y in npath] + [("f", 0, tf)])
        else:
            node = side.identity(o.st, v, lambda m: any(same_map(e, o.st, a, m) for a in args))
        if not rep.ok(node is not None, name + ":nested", "the drawing of nested contexts is not known", site): continue
        N.check(o.st, xs, node, o.st.events(), name + ":nested")
    rep.floor("paths of the drawing of nested contexts (%s)" % name.lower(), n, 2)
    rep.ok(all(x in N0.ids for x in N.ids), name + ":nested:name", "nested contexts are named differently from other contexts", site)
    # nested calls pass on everything else they were given
    for d, same in ((D, True),):
        for x in d.recs.values():
            for i, a in enumerate(x.a[1]):
                if i in who or i in sink: continue
                rep.ok(a is args[i] or alike(a, args[i]) or place_eq(e, outs[0].st, a, args[i]), name + ":nested:arguments", "nested contexts are drawn with other information", site)


def strip_refs(e, ty):
    while ty is not None and e.p.tk(ty) == "ref": ty = e.pointee(ty)
    return ty


def same_map(e, s, a, m):
    if a.ty is None or e.p.tk(a.ty) != "ref": return alike(a, m)
    v = e.load(s, *e.deref(s, a))
    return v is not UNDEF and alike(v, m)


def place_eq(e, s, a, b):
    try: return e.deref(s, a) == e.deref(s, b)
    except Exception: return False


def handed_over(rep, roles):
    """An executed program keeps exactly the channels of the program that was run."""
    got = run_program(rep, "main")
    if got is None: return
    e, cl, st, args, outs, site = got
    p = e.p
    d = typed(e, st, args[0], lambda ty: ends(p, ty, "ProgramData"))
    if not rep.ok(len(d) == 1, "anchor:data", "an initialised program holds no program data", site): return
    chans = e.step(st, d[0], ("f", 0, roles["edges"][-1][2]))
    n = 0
    for o in outs:
        if o.kind != "ret": continue
        n += 1
        r = e.resolve(o.st, o.val)
        got = [e.step(o.st, r, ("f", 0, i)) for i in range(p.nfields(r.ty, 0)) if "ChannelHandle" in p.ts(p.field_ty(r.ty, 0, i))]
        rep.ok(len(got) == 1 and alike(e.resolve(o.st, got[0]), chans), "executed:channels", "an executed program does not keep the channels of the program that was run", site)
    rep.floor("returns of a run", n, 1)


@rule("D03")
def d03(rep):
    rep.rule("to_dot, run on an arbitrary initialised and on an arbitrary executed program: a loop that visits every context adds exactly one node per context, named and labelled from its identity (an initialised context may be left out only if its identity is in the set of those drawn before), a context with children as a cluster inside which a loop over all its children draws each of them by the same function, checked on an arbitrary context; a loop that visits every channel adds exactly one edge for each with two ends, between nodes named as those of its sender and receiver, labelled with its identity, capacity and latencies; nodes of executed programs show the elapsed time of their own summary; nothing else is drawn.")
    p = prog("main")
    spec = fields_of_spec(rep, p)
    roles = Program.__new__(Program)
    roles.rep, roles.p = rep, p
    r = roles.roles()
    if spec is None or r is None: return
    one_drawing(rep, "Initialized", spec, r)
    one_drawing(rep, "Executed", spec, r)
    handed_over(rep, r)
