"""Path-partitioned abstract interpreter over the MIR dump.

Explores every path of a function from an arbitrary state. Values are interned terms; unknown structures are
materialised lazily; unknown discriminants and comparisons split the path; loops are run to a fixpoint of a
value-equality domain and leave a record of their iteration paths; calls into the crate are inlined, calls out of
it go through models (std_models.py) or become opaque events.
"""
import sys
from ir import Prog, POINTERS, method_name

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


# ------------------------------------------------------------------ terms
class V:
    __slots__ = ("op", "a", "ty")
    def __repr__(self): return show(self)


_tab = {}


def mk(op, a, ty=None):
    k = (op, a, ty)
    v = _tab.get(k)
    if v is None:
        v = V.__new__(V)
        v.op, v.a, v.ty = op, a, ty
        _tab[k] = v
    return v


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


def sym(hint, ty=None):
    return mk("sym", (uid(), hint), ty)


def named(name, ty=None):
    """A symbol identified by its name alone."""
    return mk("sym", (name,), ty)


def const(n, ty=None):
    return mk("int", (n,), ty)


def isc(v): return v.op == "int"


def show(v, d=0):
    if not isinstance(v, V): return str(v)
    if d > 7: return ".."
    s = lambda x: show(x, d + 1)
    o, a = v.op, v.a
    if o == "int": return str(a[0])
    if o == "str": return repr(a[0])
    if o == "sym": return "%s" % (a[0] if len(a) == 1 else "%s#%s" % (a[1], a[0]))
    if o == "fld": return "%s.%s%s" % (s(a[0]), a[2], "" if a[1] == 0 else "@%s" % a[1])
    if o == "agg": return "{%s|%s}" % (a[0], ",".join(s(x) for x in a[1:]))
    if o == "ref": return "&%s%s" % (a[0] if not isinstance(a[0], tuple) else show_alloc(a[0], d + 1), "".join(".%s" % (show(x[2], d + 1) if x[0] == "f" else (x[0] + (s(x[1]) if len(x) > 1 else ""))) for x in a[1]))
    if o == "op": return "%s(%s)" % (a[0], ",".join(s(x) for x in a[1:]))
    if o == "phi": return "phi%s" % (a[0],)
    return "%s(%s)" % (o, ",".join(s(x) for x in a))


def show_alloc(al, d=0):
    if al[0] == "h": return "*%s" % show(al[1], d)
    return "_".join(str(x) for x in al)


UNDEF = mk("undef", ())
ZST = mk("zst", ())


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("mem", "var", "nvar", "truth", "ord", "ev", "stack", "aux")

    def __init__(self):
        self.mem = {}      # alloc -> value
        self.var = {}      # enum term -> variant
        self.nvar = {}     # enum term -> frozenset of excluded variants
        self.truth = {}    # bool term -> 0/1
        self.ord = ()      # (x, y, c, strict): x <= y + c
        self.ev = None     # linked list (prev, event)
        self.stack = ()
        self.aux = {}      # rule-specific state

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.var = dict(self.var); s.nvar = dict(self.nvar); s.truth = dict(self.truth)
        s.ord = self.ord; s.ev = self.ev; s.stack = self.stack; s.aux = dict(self.aux)
        return s

    def events(self):
        r = []
        e = self.ev
        while e is not None:
            r.append(e[1]); e = e[0]
        r.reverse()
        return r


class Ev:
    __slots__ = ("k", "a", "site", "st", "id")

    def __init__(self, k, a, site):
        self.k, self.a, self.site = k, a, site
        self.id = uid()

    def __repr__(self): return "%s(%s)@%s" % (self.k, ", ".join(show(x) if isinstance(x, V) else str(x) for x in self.a), self.site)


class Loop:
    """Record of a loop: the fixpoint entry state, and the outcomes of one iteration."""
    def __init__(self, header, serial):
        self.header, self.serial = header, serial
        self.iters = []      # states at back edges
        self.entry = None
        self.src = None      # iterator term, when driven by one
        self.kind = None
        self.met, self.new_met = set(), 0
        self.results = []    # (state, value) of completed iterations of a model loop

    def iter_events(self, st):
        """Events of the iteration that ended in state st."""
        r = []
        e = st.ev
        while e is not None and e is not self.entry.ev:
            r.append(e[1]); e = e[0]
        r.reverse()
        return r


class Out:
    """Outcome of a call: kind 'ret' or 'panic'."""
    __slots__ = ("st", "kind", "val")
    def __init__(self, st, kind, val): self.st, self.kind, self.val = st, kind, val


class Call:
    __slots__ = ("c", "args", "dty", "line", "frame", "name")
    def __init__(self, c, args, dty, line, frame):
        self.c, self.args, self.dty, self.line, self.frame = c, args, dty, line, frame
        self.name = c["n"] if c else ""


class Frame:
    __slots__ = ("id", "body", "loops", "mem0")
    def __init__(self, fid, body, loops): self.id, self.body, self.loops = fid, body, loops


def older(t, serial):
    """Was the term built only from symbols that existed before a uid?"""
    if not isinstance(t, V): return True
    if t.op == "sym": return len(t.a) == 1 or t.a[0] < serial
    if t.op == "phi": return t.a[0][0] < serial
    return all(older(x, serial) for x in t.a if isinstance(x, V))


# ------------------------------------------------------------------ order reasoning
INF = 10 ** 30


def split(v):
    """term -> (base, offset) for sums with constants."""
    off = 0
    while v.op == "op":
        if v.a[0] == "Add":
            if isc(v.a[2]): off += v.a[2].a[0]; v = v.a[1]; continue
            if isc(v.a[1]): off += v.a[1].a[0]; v = v.a[2]; continue
        elif v.a[0] == "time": v = v.a[1]; continue
        break
    if isc(v): return None, v.a[0] + off
    return v, off


ORDC = {}


def prove_le(st, x, y, c=0, need_strict=False):
    """x <= y + c on this path (over the extended naturals)? With need_strict: x < y + c and x finite."""
    key = (st.ord, x, y, c, need_strict)
    r = ORDC.get(key)
    if r is None:
        if len(ORDC) > 200000: ORDC.clear()
        r = _ple(st.ord, x, y, c, need_strict, {}, 0)
        ORDC[key] = r
    return r


def _ple(facts, x, y, c, strict, seen, depth):
    if depth > 40: return False
    if y.op == "op" and y.a[0] == "tinf":
        return (not strict) or _finite(facts, x)
    bx, ox = split(x); by, oy = split(y)
    k = c + oy - ox
    if bx is None and by is None:
        return (0 < k) if strict else (0 <= k)
    if bx is None:
        if not strict and k >= 0: return True     # ox <= by + ... since 0 <= by
        if strict and k > 0: return True
        # lower bounds of y
    if bx is by and bx is not None:
        if not strict and k >= 0: return True
        if strict and k > 0 and is_int(bx): return True
        if strict and k > 0 and _finite(facts, bx): return True
    if bx is not None and bx.op == "op":
        n = bx.a[0]
        if n == "max": return all(_ple(facts, z, y, c - ox, strict, seen, depth + 1) for z in bx.a[1:])
        if n == "min" and any(_ple(facts, z, y, c - ox, strict, seen, depth + 1) for z in bx.a[1:]): return True
        if n == "Add" and by is not None and by.op == "op" and by.a[0] == "Add":
            # a + b <= a' + b' pointwise
            for (p, q) in ((by.a[1], by.a[2]), (by.a[2], by.a[1])):
                for (u, w) in ((bx.a[1], bx.a[2]),):
                    if _ple(facts, u, p, k, False, seen, depth + 1) and _ple(facts, w, q, 0, False, seen, depth + 1):
                        if not strict: return True
        if n == "Sub" and _ple(facts, bx.a[2], bx.a[1], 0, False, {}, depth + 1):
            # no wrap: x - w <= x - g where g <= w
            if _ple(facts, bx.a[1], y, c - ox + lower_bound(facts, bx.a[2]), strict, seen, depth + 1): return True
        if n in ("Div", "Rem") and not strict and _ple(facts, bx.a[1], y, c - ox, False, seen, depth + 1): return True
        if n == "Rem" and by is bx.a[2] and k >= 0: return True     # strict holds too: a % b < b
    if by is not None and by.op == "op":
        n = by.a[0]
        if n == "max":
            if any(_ple(facts, x, z, c + oy, strict, seen, depth + 1) for z in by.a[1:]): return True
        if n == "min": 
            if all(_ple(facts, x, z, c + oy, strict, seen, depth + 1) for z in by.a[1:]): return True
        if n == "Sub" and isc(by.a[2]) and (c + oy <= 0 or _ple(facts, by.a[2], by.a[1], 0, False, {}, depth + 1)):
            # x + w <= z gives x <= z - w (no wrap)
            if _ple(facts, x, by.a[1], c + oy - by.a[2].a[0], strict, seen, depth + 1): return True
        if n == "Add" and by is not bx:
            # z <= z + w ; if w >= 1 known then z + 1 <= z + w
            for (z, w) in ((by.a[1], by.a[2]), (by.a[2], by.a[1])):
                g = lower_bound(facts, w)
                if z is bx and not strict and k + g >= 0: return True
                if z is bx and strict and k + g > 0 and _finite(facts, z): return True
                if not strict and _ple(facts, x, z, c + oy + g, strict, seen, depth + 1): return True
    # graph step from bx
    sk = (bx, by, strict)
    if seen.get(sk, -INF) >= k: return False
    seen[sk] = k
    for (p, q, d, s) in facts:
        if p is bx and bx is not None:
            # a strict fact p < q + d + 1 (p finite) turns a strict goal into a plain one
            if _ple(facts, q, y, c - ox - d - (1 if strict and s else 0), strict and not s, seen, depth + 1):
                return True
        elif bx is None and isc(p):
            if ox <= p.a[0]:
                if _ple(facts, q, y, c - d + (p.a[0] - ox) - (1 if strict and s else 0), strict and not s, seen, depth + 1): return True
    return False


def is_int(v):
    return v.ty is not None and TIME_TY[0] is not None and v.ty != TIME_TY[0]


TIME_TY = [None]


def _finite(facts, x):
    if is_int(x): return True
    if x.op == "op" and x.a[0] == "time": return True
    for (p, q, d, s) in facts:
        if p is x and s: return True
    if x.op == "op" and x.a[0] == "Add": return all(isc(y) or _finite(facts, y) for y in x.a[1:])
    return False


def lower_bound(facts, w):
    """A constant g with g <= w."""
    if isc(w): return w.a[0]
    g = 0
    for (p, q, d, s) in facts:
        if q is w and isc(p): g = max(g, p.a[0] - d)
    return g


# ------------------------------------------------------------------ interpreter
WIDTHS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}


class Engine:
    def __init__(self, prog, handlers=None, max_paths=60000, track_panics=True, trace=None):
        self.p = prog
        self.h = handlers or []       # list of lookup functions: (engine, callee) -> handler or None
        self.hc = {}
        self.paths = 0
        self.max_paths = max_paths
        self.functions = set()
        self.externals = {}
        self.fid = 0
        self.fresh_elems = False
        self.on_usercall = []        # (engine, state, args): further effects of calling an unknown function
        self.max_depth = 90
        self.opaque_local = 0
        self.merge = True
        self.drop_interest_extra = None
        self._nd = {}
        self.tick = 0
        self.type_opaque = {}         # ADT path -> sort name, treated as scalars
        self.no_inline = lambda c: False
        self.on_clone = None
        self.lock_havoc = None
        self.park_hook = None
        self.fresh_atomics = False    # atomic loads yield fresh values (other threads write them)
        self.loops = {}
        self.hooks = {}               # event kind -> called with (state, event) after it is recorded
        self.pseudo_init = {}         # kind of pseudo cell -> initial value of a cell
        TIME_TY[0] = None

    # ---- events and facts
    def emit(self, st, k, *a, site=None):
        if site is None: site = self.site(st)
        e = Ev(k, a, site)
        st.ev = (st.ev, e)
        h = self.hooks.get(k)
        if h is not None: h(st, e)
        return e

    def site(self, st):
        if not st.stack: return ("?", "?", 0)
        f, line = st.stack[-1]
        b = self.p.bodies[f]
        return (b["p"], b["file"], line)

    def le(self, st, x, y, c=0, strict=False):
        """Adds the fact x <= y + c (strict: x < y + c)."""
        bx, ox = split(x); by, oy = split(y)
        k = c + oy - ox
        if strict: k -= 1
        if bx is None and by is None: return
        if bx is None:
            # const <= by + k
            if -k <= 0 and not strict: return
            f = (const(0), by, k, strict) if k >= 0 else (const(-k), by, 0, strict)
        elif by is None:
            f = (bx, const(0), k, strict) if k < 0 else (bx, const(k), 0, strict)
        else:
            f = (bx, by, k, strict)
        if f in st.ord: return
        st.ord = st.ord + (f,)
        if bx is not None and bx.op == "op" and bx.a[0] == "max":
            for z in bx.a[1:]: self.le(st, z, f[1], f[2] + (1 if f[3] else 0), f[3])
        if by is not None and by.op == "op" and by.a[0] == "min":
            for z in by.a[1:]: self.le(st, f[0], z, f[2] + (1 if f[3] else 0), f[3])

    def assume(self, st, t, val):
        """Adds bool fact t == val; returns False when contradictory."""
        t = self.simp(st, t)
        if isc(t): return bool(t.a[0]) == bool(val)
        if t.op == "op":
            n = t.a[0]
            if n == "Not": return self.assume(st, t.a[1], not val)
            if n == "BitAnd" and val: return self.assume(st, t.a[1], 1) and self.assume(st, t.a[2], 1)
            if n == "BitOr" and not val: return self.assume(st, t.a[1], 0) and self.assume(st, t.a[2], 0)
            if n == "Ne": return self.assume(st, mk("op", ("Eq", t.a[1], t.a[2]), t.ty), not val)
            if n in ("Gt", "Ge"): return self.assume(st, mk("op", ("Lt" if n == "Gt" else "Le", t.a[2], t.a[1]), t.ty), val)
            if n in ("Lt", "Le"):
                x, y = t.a[1], t.a[2]
                d = self.decide(st, t)
                if d is not None: return bool(d) == bool(val)
                if n == "Lt":
                    if val: self.le(st, x, y, 0, True)
                    else: self.le(st, y, x)
                else:
                    if val: self.le(st, x, y)
                    else: self.le(st, y, x, 0, True)
                st.truth[t] = 1 if val else 0
                return True
            if n == "Eq":
                d = self.decide(st, t)
                if d is not None: return bool(d) == bool(val)
                x, y = t.a[1], t.a[2]
                for p, q in ((x, y), (y, x)):
                    if p.op == "discr" and isc(q):
                        return self.assume_discr(st, p, q.a[0], val)
                if val:
                    self.le(st, x, y); self.le(st, y, x)
                elif self.natural(x) and self.natural(y):
                    # ordered and different
                    if prove_le(st, x, y): self.le(st, x, y, 0, True)
                    elif prove_le(st, y, x): self.le(st, y, x, 0, True)
                st.truth[t] = 1 if val else 0
                return True
        if t.op == "discr": pass
        if t in st.truth: return st.truth[t] == (1 if val else 0)
        st.truth[t] = 1 if val else 0
        return True

    def natural(self, v): return v.ty is not None and (v.ty == TIME_TY[0] or self.p.tk(v.ty) == "uint")

    def assume_discr(self, st, d, n, val):
        e = self.resolve(st, d.a[0])
        vs = self.p.variants(e.ty)
        if vs is None: return True
        vi = self.p.types[e.ty]["dmap"].get(n)
        return self.assume_variant(st, e, vi, val)

    def assume_variant(self, st, e, vi, val=True):
        e = self.resolve(st, e)
        if e.op == "agg": return (e.a[0] == vi) == bool(val)
        if e in st.var: return (st.var[e] == vi) == bool(val)
        ex = st.nvar.get(e, frozenset())
        nv = len(self.p.variants(e.ty) or ())
        if val:
            if vi is None or vi in ex: return False
            st.var[e] = vi
        else:
            if vi is None: return True
            ex = ex | {vi}
            if nv and len(ex) == nv - 1:
                st.var[e] = next(i for i in range(nv) if i not in ex)
            else: st.nvar[e] = ex
        return True

    def decide(self, st, t):
        """Truth of a bool term on this path, or None."""
        if isc(t): return t.a[0]
        if t in st.truth: return st.truth[t]
        if t.op == "op":
            n = t.a[0]
            if n == "Not":
                r = self.decide(st, t.a[1]); return None if r is None else 1 - r
            if n == "Ne":
                r = self.decide(st, mk("op", ("Eq", t.a[1], t.a[2]), t.ty)); return None if r is None else 1 - r
            if n == "Gt": return self.decide(st, mk("op", ("Lt", t.a[2], t.a[1]), t.ty))
            if n == "Ge": return self.decide(st, mk("op", ("Le", t.a[2], t.a[1]), t.ty))
            if n in ("Lt", "Le", "Eq"):
                x, y = t.a[1], t.a[2]
                if isc(x) and isc(y):
                    return int({"Lt": x.a[0] < y.a[0], "Le": x.a[0] <= y.a[0], "Eq": x.a[0] == y.a[0]}[n])
                if x is y: return {"Lt": 0, "Le": 1, "Eq": 1}[n]
                if n == "Lt":
                    if prove_le(st, y, x): return 0
                    if prove_le(st, x, y, 0, True): return 1
                elif n == "Le":
                    if prove_le(st, x, y): return 1
                    if prove_le(st, y, x, 0, True): return 0
                else:
                    t2 = mk("op", ("Eq", y, x), t.ty)
                    if t2 in st.truth: return st.truth[t2]
                    for p, q in ((x, y), (y, x)):
                        if p.op == "discr" and isc(q):
                            e = self.resolve(st, p.a[0])
                            vi = self.p.types[e.ty]["dmap"].get(q.a[0])
                            if e.op == "agg": return int(e.a[0] == vi)
                            if e in st.var: return int(st.var[e] == vi)
                            if vi is None or vi in st.nvar.get(e, ()): return 0
                            return None
                    if prove_le(st, x, y, 0, True) or prove_le(st, y, x, 0, True): return 0
                    if prove_le(st, x, y) and prove_le(st, y, x): return 1
            if n == "BitAnd":
                a, b = self.decide(st, t.a[1]), self.decide(st, t.a[2])
                if a == 0 or b == 0: return 0
                if a == 1 and b == 1: return 1
            if n == "BitOr":
                a, b = self.decide(st, t.a[1]), self.decide(st, t.a[2])
                if a == 1 or b == 1: return 1
                if a == 0 and b == 0: return 0
        return None

    def simp(self, st, t):
        d = self.decide(st, t) if (t.op == "op" or t in st.truth) else None
        return const(d, self.p.bool_ty) if d is not None else t

    def truth_split(self, st, t):
        """[(state, 0/1)] for the feasible truth values of a bool term."""
        d = self.decide(st, t)
        if d is not None: return [(st, d)]
        r = []
        if t.op == "op" and t.a[0] in ("Eq", "Ne") and t.a[1].ty == self.p.bool_ty and t.a[2].ty == self.p.bool_ty:
            for s, a in self.truth_split(st, t.a[1]):
                for s2, b in self.truth_split(s, t.a[2]):
                    v = int((a == b) == (t.a[0] == "Eq"))
                    if s2 is st: s2 = st.copy()
                    s2.truth[t] = v
                    r.append((s2, v))
            return r
        for v in (0, 1):
            s = st.copy()
            if self.assume(s, t, v): r.append((s, v))
        return r

    def variant_split(self, st, v):
        """[(state, resolved agg value)] over the feasible variants of an enum value."""
        v = self.resolve(st, v)
        if v.op == "agg": return [(st, v)]
        vs = self.p.variants(v.ty) if v.ty is not None else None
        if not vs: return [(st, v)]
        r = []
        for i in range(len(vs)):
            s = st.copy()
            if self.assume_variant(s, v, i, True): r.append((s, self.resolve(s, v)))
        return r

    def resolve(self, st, v):
        """Replaces a symbolic enum whose variant is known by an aggregate of lazy fields."""
        if v.op in ("agg", "int", "ref", "str"): return v
        i = st.var.get(v)
        if i is not None: return self.expand(v, i)
        return v

    def expand(self, v, variant=0):
        n = self.p.nfields(v.ty, variant) or 0
        return mk("agg", (variant,) + tuple(self.field_of(v, variant, i) for i in range(n)), v.ty)

    def field_of(self, v, variant, i, fty=None):
        """Field of a value; lazy when the value is not an aggregate."""
        if v.op == "agg" and v.a[0] == variant and i + 1 < len(v.a): return v.a[i + 1]
        ty = self.p.field_ty(v.ty, variant, i)
        if ty is None: ty = fty
        return mk("fld", (v, variant, i), ty)

    # ---- memory
    def new_alloc(self, st, v, tag="b"):
        al = (tag, uid())
        st.mem[al] = v
        return al

    def ref(self, al, path=(), ty=None): return mk("ref", (al, path), ty)

    def deref(self, st, v, pty=None):
        """(alloc, path) a pointer value designates."""
        v = self.resolve(st, v)
        if v.op == "ref": return v.a
        if v.op == "agg" and v.ty is not None and self.p.adt(v.ty) in POINTERS: return self.deref(st, v.a[1])
        al = ("h", v)
        if al not in st.mem:
            st.mem[al] = mk("fld", (v, "*", 0), self.pointee(v.ty) if v.ty is not None else pty)
        return (al, ())

    def pointee(self, ty):
        if ty is None: return None
        t = self.p.types[ty]
        if t["k"] in ("ref", "ptr"): return t["t"]
        if t["k"] == "adt" and t["a"]: return t["a"][0]
        return None

    def load(self, st, al, path):
        v = st.mem.get(al)
        if v is None:
            if al[0] == "h": v = mk("fld", (al[1], "*", 0), self.pointee(al[1].ty)); st.mem[al] = v
            else: return UNDEF
        for s in path: v = self.step(st, v, s)
        return self.resolve(st, v)

    def elem_ty(self, ty):
        if ty is None: return None
        t = self.p.types[ty]
        if t["k"] in ("slice", "array"): return t["t"]
        if t["k"] == "adt" and t["a"]: return t["a"][1] if "map::" in t["p"] and len(t["a"]) > 1 else t["a"][0]
        return None

    def step(self, st, v, s):
        v = self.resolve(st, v)
        k = s[0]
        if k == "f":
            if v.op == "agg":
                if s[2] + 1 < len(v.a): return v.a[s[2] + 1]
                return self.field_of(v, s[1], s[2], s[3] if len(s) > 3 else None)
            if v.op == "ref" and (v.ty is None or self.p.tk(v.ty) in ("ref", "ptr") or self.p.adt(v.ty) in POINTERS): return v
            if v.ty is not None and self.p.adt(v.ty) in POINTERS: return v
            if v is UNDEF: return UNDEF
            return self.field_of(v, s[1], s[2], s[3] if len(s) > 3 else None)
        if k == "in":
            if v.op == "cell": return v.a[0]
            return mk("fld", (v, "in", 0), s[1] if len(s) > 1 and s[1] is not None else self.inner_ty(v.ty))
        if k == "ix":
            i = s[1]
            if v.op == "agg" and isc(i) and i.a[0] + 1 < len(v.a): return v.a[i.a[0] + 1]
            w = v
            while w.op == "upd":
                if w.a[1] is i: return w.a[2]
                e = self.decide(st, mk("op", ("Eq", w.a[1], i), self.p.bool_ty))
                if e == 1: return w.a[2]
                if e == 0: w = w.a[0]; continue
                break
            if w.op == "op" and w.a[0] == "repeat" and w.a[1].op != "sym": return w.a[1]
            return mk("elt", (w, i), self.elem_ty(v.ty))
        if k == "ss": return mk("op", ("subslice", v) + tuple(const(x) for x in s[1:3]), v.ty)
        return mk("fld", (v, k, 0), None)

    def inner_ty(self, ty):
        if ty is None: return None
        t = self.p.types[ty]
        if t["k"] == "adt" and t["a"]: return t["a"][-1] if t["p"].startswith("lock_api") else t["a"][0]
        return None

    def store(self, st, al, path, val):
        if not path:
            st.mem[al] = val
            return
        cur = st.mem.get(al)
        if cur is None: cur = self.load(st, al, ())
        st.mem[al] = self.put(st, cur, path, val)

    def put(self, st, v, path, val):
        if not path: return val
        s = path[0]
        v = self.resolve(st, v)
        k = s[0]
        if k == "f":
            if v.op != "agg":
                if v.op == "ref": return self.put(st, v, path[1:], val) if len(path) > 1 else val
                if v.ty is not None and self.p.nfields(v.ty, s[1] or 0) is not None:
                    v = self.expand(v, s[1] or 0)
                elif v is UNDEF:
                    return mk("agg", (s[1],) + tuple([UNDEF] * s[2]) + (self.put(st, UNDEF, path[1:], val),), None)
                else:
                    return sym("put", v.ty)
            a = list(v.a)
            while s[2] + 1 >= len(a): a.append(UNDEF)
            a[s[2] + 1] = self.put(st, a[s[2] + 1], path[1:], val)
            return mk("agg", tuple(a), v.ty)
        if k == "in":
            return mk("cell", (self.put(st, self.step(st, v, s), path[1:], val),), v.ty)
        if k == "ix":
            i = s[1]
            if v.op == "agg" and isc(i) and i.a[0] + 1 < len(v.a):
                a = list(v.a); a[i.a[0] + 1] = self.put(st, a[i.a[0] + 1], path[1:], val)
                return mk("agg", tuple(a), v.ty)
            nv = self.put(st, self.step(st, v, s), path[1:], val)
            if v.op == "upd" and v.a[1] is i: v = v.a[0]
            return mk("upd", (v, i, nv), v.ty)
        return sym("put", v.ty)

    # ---- places and operands
    def place_addr(self, st, fr, pl):
        """(alloc, path, type) of a place."""
        if isinstance(pl, int): return (fr.id, pl), ()
        al, path = (fr.id, pl[0]), ()
        variant = 0
        for e in pl[1]:
            if e == "*":
                v = self.load(st, al, path)
                al, path = self.deref(st, v)
                variant = 0
            elif e[0] == "f":
                path = path + (("f", variant, e[1], e[2]),)
                # transparent wrappers
                variant = 0
            elif e[0] == "d": variant = e[1]
            elif e[0] == "i": path = path + (("ix", self.load(st, (fr.id, e[1]), ())),)
            elif e[0] == "ci":
                if e[2]:
                    base = self.load(st, al, path)
                    path = path + (("ix", mk("op", ("fromend", base, const(e[1])), self.p.usize_ty)),)
                else: path = path + (("ix", const(e[1], self.p.usize_ty)),)
            elif e[0] == "ss": path = path + (("ss", e[1], e[2]),)
            else: path = path + (("x",),)
        # field steps through pointers-as-structs are the identity
        return al, path

    def read_place(self, st, fr, pl):
        if isinstance(pl, int):
            v = st.mem.get((fr.id, pl))
            if v is None: return UNDEF
            return self.resolve(st, v)
        al, path = self.place_addr(st, fr, pl)
        return self.load(st, al, path)

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("c", "m"): return self.read_place(st, fr, o[1])
        if k == "k": return self.konst(st, fr, o[1])
        return const(0, self.p.bool_ty)

    def konst(self, st, fr, c):
        k, ty = c[0], c[1]
        if k == "int": return const(int(c[2]), ty)
        if k == "str": return mk("str", (c[2],), ty)
        if k == "zst":
            t = self.p.types[ty]
            if t["k"] == "fndef": return mk("fn", (t["c"],), ty)
            if t["k"] == "closure" or t["k"] == "tuple": return mk("agg", (0,), ty)
            if t["k"] == "adt": return mk("agg", (0,), ty)
            return mk("agg", (0,), ty)
        if k == "scal":
            t = self.p.types[ty]
            if t["k"] == "adt" and t.get("enum"):
                vi = t["dmap"].get(int(c[2]))
                if vi is not None: return mk("agg", (vi,), ty)
            return mk("op", ("scal", const(int(c[2]))), ty)
        if k == "static":
            al = ("static", c[2])
            if al not in st.mem: st.mem[al] = mk("sym", ("static:" + c[2],), self.pointee(ty))
            return self.ref(al, (), ty)
        if k == "fn": return mk("fn", (c[2],), ty)
        if k == "const":
            cal = self.p.callees[c[2]]
            b = cal.get("b")
            if b and b in self.p.bodies:
                outs = self.run_body(st, b, [], None, True)
                outs = [o for o in outs if o.kind == "ret"]
                if len(outs) == 1:
                    o = outs[0]
                    # constants have no effects: keep the caller's state, adopt its memory
                    st.mem.update(o.st.mem)
                    return o.val
            return mk("sym", ("const:" + cal["p"] + "".join("," + self.p.ts(x) for x in cal["a"]),), ty)
        return mk("sym", ("opaque:" + str(c[2]),), ty)

    def binop(self, st, op, x, y, ty):
        if op.endswith("WithOverflow"):
            v = self.binop(st, op[:-12], x, y, None)
            return mk("agg", (0, v, const(0, self.p.bool_ty)), None)
        if op.endswith("Unchecked"): op = op[:-9]
        B = self.p.bool_ty
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if x.op == "discr" and y.op == "discr" and op in ("Eq", "Ne"):
                ex, ey = self.resolve(st, x.a[0]), self.resolve(st, y.a[0])
                if ex.op == "agg": x = self.discr(st, ex)
                if ey.op == "agg": y = self.discr(st, ey)
            for a, b, o in ((x, y, op), (y, x, SWAPCMP[op])):
                if a.op == "discr" and a.a[0].op == "op" and a.a[0].a[0] == "Cmp" and isc(b):
                    n = b.a[0]
                    if n >= 128: n -= 256
                    p, q = a.a[0].a[1], a.a[0].a[2]
                    if n == 0: return self.binop(st, o, p, q, B)
                    if n == 1 and o in ("Eq", "Ge"): return self.binop(st, "Gt", p, q, B)
                    if n == 1 and o in ("Ne", "Lt"): return self.binop(st, "Le", p, q, B)
                    if n == -1 and o in ("Eq", "Le"): return self.binop(st, "Lt", p, q, B)
                    if n == -1 and o in ("Ne", "Gt"): return self.binop(st, "Ge", p, q, B)
            t = mk("op", (op, x, y), B)
            return self.simp(st, t)
        if op == "Cmp":
            return mk("op", ("Cmp", x, y), ty)
        if isc(x) and isc(y):
            a, b = x.a[0], y.a[0]
            rty = x.ty if x.ty is not None else y.ty
            try:
                r = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a // b, "Rem": lambda: a % b,
                     "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "Shl": lambda: a << b, "Shr": lambda: a >> b}[op]()
                if r >= 0: return const(r, rty)
            except (KeyError, ZeroDivisionError): pass
        rty = ty if ty is not None else (x.ty if x.ty is not None else y.ty)
        if op == "Add":
            if isc(y) and y.a[0] == 0: return x
            if isc(x) and x.a[0] == 0: return y
            if isc(x): x, y = y, x
            if isc(y) and x.op == "op" and x.a[0] == "Add" and isc(x.a[2]):
                return mk("op", ("Add", x.a[1], const(x.a[2].a[0] + y.a[0], y.ty)), rty)
            if x.op == "op" and x.a[0] == "Sub" and x.a[2] is y and op == "Add": return x.a[1]
            if isc(y) and x.op == "op" and x.a[0] == "Sub" and isc(x.a[2]):
                n = y.a[0] - x.a[2].a[0]
                if n == 0: return x.a[1]
                if n < 0: return mk("op", ("Sub", x.a[1], const(-n, y.ty)), rty)
                return mk("op", ("Add", x.a[1], const(n, y.ty)), rty)
            if not isc(y) and id(y) < id(x): pass
        if op == "Sub":
            if isc(y) and y.a[0] == 0: return x
            if x is y: return const(0, rty)
            if isc(y) and x.op == "op" and x.a[0] == "Add" and isc(x.a[2]):
                n = x.a[2].a[0] - y.a[0]
                if n == 0: return x.a[1]
                if n > 0: return mk("op", ("Add", x.a[1], const(n, y.ty)), rty)
            if x.op == "op" and x.a[0] == "Add" and x.a[2] is y: return x.a[1]
            if x.op == "op" and x.a[0] == "Add" and x.a[1] is y: return x.a[2]
        if op in ("BitAnd", "BitOr", "BitXor") and self.p.tk(x.ty if x.ty is not None else y.ty) == "bool":
            for p, q in ((x, y), (y, x)):
                d = self.decide(st, p)
                if d is not None:
                    if op == "BitAnd": return q if d else const(0, B)
                    if op == "BitOr": return const(1, B) if d else q
                    return mk("op", ("Not", q), B) if d else q
        if op in ("Mul",):
            if isc(y) and y.a[0] == 1: return x
            if isc(x) and x.a[0] == 1: return y
        return mk("op", (op, x, y), rty)

    def discr(self, st, v):
        v = self.resolve(st, v)
        if v.op == "agg" and v.ty is not None and self.p.variants(v.ty):
            return const(self.p.variants(v.ty)[v.a[0]][1], None)
        if v.op == "agg" and v.ty is not None and self.p.types[v.ty]["k"] == "closure": return const(v.a[0], None)
        return mk("discr", (v,), None)

    def rvalue(self, st, fr, r, dty):
        """Value of an rvalue."""
        k = r[0]
        if k == "use": return self.operand(st, fr, r[1])
        if k == "ref":
            al, path = self.place_addr(st, fr, r[1])
            if path and al in st.mem:
                path = self.norm_path(st, al, path)
                if isinstance(path, V): return path
            return mk("ref", (al, path), dty)
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            kk = r[1]
            if kk[0] == "adt":
                if self.p.adt(kk[1]) in POINTERS and ops: return ops[0]
                return mk("agg", (kk[2],) + ops, kk[1])
            if kk[0] == "closure": return mk("agg", (0,) + ops, kk[1])
            if kk[0] == "rawptr": return ops[0]
            return mk("agg", (0,) + ops, dty)
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), dty if not r[1].endswith("WithOverflow") else None)
        if k == "un":
            x = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if self.p.tk(x.ty) == "bool" or x.ty == self.p.bool_ty or x.op == "op":
                    if isc(x) and x.a[0] in (0, 1) and self.p.tk(dty) == "bool": return const(1 - x.a[0], dty)
                    if x.op == "op" and x.a[0] == "Not": return x.a[1]
                return self.simp(st, mk("op", ("Not", x), dty))
            if r[1] == "PtrMetadata":
                if x.op == "ref": return self.length(st, self.load(st, *x.a))
                return mk("op", ("len", x), dty)
            return mk("op", (r[1], x), dty)
        if k == "discr":
            v = self.discr(st, self.read_place(st, fr, r[1]))
            if isc(v) and v.a[0] >= 128 and dty is not None and self.p.ts(dty) == "i8": return const(v.a[0] - 256, None)
            return v
        if k == "cast":
            kind = r[1]
            if kind == "BoxDerefTransmute" and r[2][0] in ("c", "m") and isinstance(r[2][1], list) and r[2][1][1]:
                # the pointer inside a box is the box
                return self.operand(st, fr, [r[2][0], [r[2][1][0], r[2][1][1][:-1]] if len(r[2][1][1]) > 1 else r[2][1][0]])
            x = self.operand(st, fr, r[2])
            if kind.startswith("coerce") or kind in ("PtrToPtr", "Transmute", "Subtype"):
                if kind.startswith("coerce:ClosureFnPointer") or kind.startswith("coerce:ReifyFnPointer"): return x
                if kind == "Transmute" and self.p.tk(x.ty) not in ("ref", "ptr") and self.p.adt(x.ty) not in POINTERS and x.op != "ref":
                    return mk("op", ("transmute", x), r[3])
                if x.op in ("sym", "fld", "phi", "elt", "op") and x.ty is not None and kind in ("PtrToPtr", "Transmute"): return x
                return x
            if kind == "IntToInt":
                if isc(x): return const(x.a[0] % (1 << WIDTHS[self.p.ts(r[3])]) if self.p.ts(r[3]) in WIDTHS else x.a[0], r[3])
                if x.op == "discr":
                    return x
                if x.ty == r[3]: return x
                return mk("op", ("cast", x), r[3])
            return mk("op", ("cast:" + kind, x), r[3])
        if k == "rep":
            x = self.operand(st, fr, r[1])
            return mk("op", ("repeat", x, mk("str", (r[2],))), dty)
        if k == "tls":
            al = ("static", r[1])
            if al not in st.mem: st.mem[al] = mk("sym", ("tls:" + r[1],), self.pointee(dty))
            return self.ref(al, (), dty)
        return sym("rv", dty)

    def norm_path(self, st, al, path):
        """Drops field steps through transparent pointer wrappers."""
        out = ()
        v = st.mem.get(al)
        for s in path:
            if v is not None:
                v = self.resolve(st, v)
                if s[0] == "f" and (v.op == "ref" or (v.op not in ("agg",) and v.ty is not None and self.p.adt(v.ty) in POINTERS)):
                    continue
                v = self.step(st, v, s)
            out = out + (s,)
        return out

    def length(self, st, v):
        if v.op == "agg": return const(len(v.a) - 1, self.p.usize_ty)
        if v.op == "upd": return self.length(st, v.a[0])
        if v.op == "op" and v.a[0] == "repeat" and v.a[2].op != "str": return v.a[2]
        if v.op == "push": return self.binop(st, "Add", self.length(st, v.a[0]), const(1, self.p.usize_ty), self.p.usize_ty)
        if v.op == "empty": return const(0, self.p.usize_ty)
        if v.op == "collect" and v.a[1] is not None: return v.a[1]
        if v.op == "str": return const(len(v.a[0]), self.p.usize_ty)
        if v.ty is not None:
            t = self.p.types[v.ty]
            if t["k"] == "array" and "n" in t: return const(t["n"], self.p.usize_ty)
        return mk("op", ("len", v), self.p.usize_ty)

    # ---- helpers for the models
    def mxn(self, st, n, a, b):
        """max / min term."""
        if a is b: return a
        if prove_le(st, a, b): return b if n == "max" else a
        if prove_le(st, b, a): return a if n == "max" else b
        return mk("op", (n, a, b), a.ty if a.ty is not None else b.ty)

    def ordering_split(self, st, v):
        """[(state, -1/0/1)] of a core::cmp::Ordering value."""
        v = self.resolve(st, v)
        if v.op == "agg": return [(st, v.a[0] - 1)]
        B = self.p.bool_ty
        if v.op == "op" and v.a[0] == "Cmp":
            x, y = v.a[1], v.a[2]
            r = []
            for d, f in ((0, ("Eq", x, y)), (-1, ("Lt", x, y)), (1, ("Lt", y, x))):
                s = st.copy()
                if self.assume(s, mk("op", f, B), 1): r.append((s, d))
            return r
        return [(s, a.a[0] - 1) for s, a in self.variant_split(st, v) if a.op == "agg"] or [(st.copy(), -1), (st.copy(), 0), (st, 1)]

    def method_callee(self, ty, trait, name):
        """Callee index of a local impl's trait method for a type, if one was resolved in the dump."""
        if ty is None: return None
        if not hasattr(self.p, "_mc"):
            self.p._mc = {}
            for i, c in enumerate(self.p.callees):
                if c.get("trait") and c["a"] and c.get("b") in self.p.bodies:
                    self.p._mc.setdefault((c["a"][0], c["trait"], c["n"]), i)
        return self.p._mc.get((ty, trait, name))

    def default_callee(self, ty): return self.method_callee(ty, "core::default::Default", "default")

    def closure_ret(self, f):
        t = self.p.types[f.ty] if f is not None and f.ty is not None else None
        if t is not None and t["k"] == "closure" and t.get("b") in self.p.bodies: return self.p.bodies[t["b"]]["l"][0]
        c = self.p.callees[f.a[0]] if f is not None and f.op == "fn" else None
        if c is not None: return c.get("out")
        return None

    def ext_item_ty(self, v): return None

    def iter_len(self, st, it):
        """Number of elements an iterator yields, when it has a closed form."""
        if it is None or it.op != "iter": return None
        d = it.a[0]
        if d[0] == "coll": return self.length(st, d[5])
        if d[0] in ("map", "copied", "enum", "rev", "inspect", "byref"): return self.iter_len(st, d[2])
        if d[0] == "range" and d[3] is not None and not d[4]: return self.binop(st, "Sub", d[3], d[2], self.p.usize_ty)
        if d[0] == "chain":
            a, b = self.iter_len(st, d[2]), self.iter_len(st, d[3])
            if a is not None and b is not None: return self.binop(st, "Add", a, b, self.p.usize_ty)
        return None

    def assume_empty(self, st, it):
        n = self.iter_len(st, it)
        if n is None: return True
        return self.assume(st, self.binop(st, "Eq", n, const(0, self.p.usize_ty), self.p.bool_ty), 1)

    def atomic_load(self, st, al, cell, ty):
        if self.fresh_atomics:
            r = sym("atomic", ty)
            return r
        return self.load(st, al, cell[:-1] + (("in", ty),))

    def elem_facts(self, st, coll, e):
        """Adds to e the bounds every element of a collected value has."""
        rec = self.loops.get(coll.a[0])
        if rec is None or not rec.results: return
        for x, d, s, up in self.common_bounds(rec):
            if up: self.le(st, e, x, d, s)
            else: self.le(st, x, e, d, s)

    def common_bounds(self, rec):
        """Bounds (x, c, strict, upper) with x older than the loop that hold for every result of its iterations."""
        st0, v0 = rec.results[0]
        cand = set()
        for p, q, d, s in st0.ord:
            for t in (p, q):
                if t is not None and not isc(t) and older(t, rec.serial): cand.add(t)
        if older(v0, rec.serial): cand.add(v0)
        res = []
        for x in cand:
            if all(prove_le(b, x, v) for b, v in rec.results): res.append((x, 0, False, False))
            if all(prove_le(b, v, x) for b, v in rec.results): res.append((x, 0, False, True))
        return res

    # ---- execution
    def run_fn(self, key, args, st=None):
        """All outcomes of a function from the given (default: arbitrary) state."""
        if st is None: st = State()
        return self.run_body(st, key, args, None)

    def sym_args(self, key, st, names=None):
        b = self.p.bodies[key]
        dbg = {}
        for n, pl in b["dbg"]:
            if isinstance(pl, int): dbg[pl] = n
        return [named(dbg.get(i, "arg%d" % i), b["l"][i]) for i in range(1, b["argc"] + 1)]

    def run_body(self, st, key, args, line, keep=False):
        body = self.p.bodies[key]
        if len(st.stack) > self.max_depth: raise Budget("call depth")
        self.functions.add(key)
        self.fid += 1
        fr = Frame(self.fid, body, self.p.loops(key))
        st = st.copy()
        st.stack = st.stack + ((key, body["ln"]),)
        for i, a in enumerate(args): st.mem[(fr.id, i + 1)] = a
        outs = []
        exits = self.explore(st, fr, 0, ())
        for kind, s, x in exits:
            s.stack = s.stack[:-1]
            if kind == "ret":
                v = s.mem.get((fr.id, 0), UNDEF)
                if v is UNDEF:
                    v = mk("agg", (0,), body["l"][0]) if self.p.tk(body["l"][0]) == "tuple" else UNDEF
                v = self.resolve(s, v)
                if keep and v.op == "ref" and v.a[0][0] == fr.id:
                    # a constant that refers to another one
                    al = ("h", mk("sym", ("promoted:%s:%d" % (key, v.a[0][1]),)))
                    s.mem[al] = s.mem.get(v.a[0], UNDEF)
                    v = self.ref(al, v.a[1], v.ty)
                self.free(s, fr, body)
                outs.append(Out(s, "ret", v))
            elif kind == "panic":
                self.free(s, fr, body)
                outs.append(Out(s, "panic", x))
        if len(outs) > 1: outs = self.merge_outs(outs)
        return outs

    def free(self, st, fr, body):
        m = st.mem
        for i in range(len(body["l"])): m.pop((fr.id, i), None)

    def merge_outs(self, outs):
        """Joins outcomes that differ only in path facts."""
        res = []
        for o in outs:
            for i, q in enumerate(res):
                if self.merge and q.kind == o.kind and q.val is o.val and q.st.ev is o.st.ev and q.st.aux == o.st.aux and self.same_mem(q.st, o.st):
                    q.st.var = {k: v for k, v in q.st.var.items() if o.st.var.get(k) == v}
                    q.st.nvar = {k: v for k, v in q.st.nvar.items() if o.st.nvar.get(k) == v}
                    q.st.truth = {k: v for k, v in q.st.truth.items() if o.st.truth.get(k) == v}
                    keep = set(o.st.ord)
                    q.st.ord = tuple(f for f in q.st.ord if f in keep)
                    break
                v = self.one_flag(q, o)
                if v is not None:
                    q.st, q.val = v
                    break
            else: res.append(o)
        return res

    def one_flag(self, q, o):
        """Joins `if b { .. true .. } else { .. false .. }` into b: (state, value), or None when the outcomes differ in more than b."""
        if q.kind != "ret" or o.kind != "ret" or q.st.ev is not o.st.ev or q.st.aux != o.st.aux: return None
        B = self.p.bool_ty
        def leaves(x, y, out):
            if x is y: return True
            if x.op == "agg" and y.op == "agg" and x.ty == y.ty and x.a[0] == y.a[0] and len(x.a) == len(y.a):
                return all(leaves(a, b, out) for a, b in zip(x.a[1:], y.a[1:]))
            if isc(x) and isc(y) and x.ty == B and y.ty == B:
                out.append(x.a[0]); return True
            return False
        ls = []
        if not leaves(q.val, o.val, ls) or not ls: return None
        ts = [t for t, v in q.st.truth.items() if o.st.truth.get(t) == 1 - v]
        if len(ts) != 1 or not self.same_mem(q.st, o.st): return None
        b = ts[0]
        vb = q.st.truth[b]
        m = q.st.copy()
        m.var = {k: v for k, v in q.st.var.items() if o.st.var.get(k) == v}
        m.nvar = {k: v for k, v in q.st.nvar.items() if o.st.nvar.get(k) == v}
        m.truth = {k: v for k, v in q.st.truth.items() if o.st.truth.get(k) == v}
        keep = set(o.st.ord)
        m.ord = tuple(f for f in q.st.ord if f in keep)
        for s, v in ((q.st, vb), (o.st, 1 - vb)):
            c = m.copy()
            if not self.assume(c, b, v): return None
            if any(c.truth.get(k) != x for k, x in s.truth.items()) or any(c.var.get(k) != x for k, x in s.var.items()) \
               or any(c.nvar.get(k) != x for k, x in s.nvar.items()) or not set(s.ord) <= set(c.ord): return None
        nb = mk("op", ("Not", b), B)
        def build(x, y):
            if x is y: return x
            if x.op == "agg": return mk("agg", (x.a[0],) + tuple(build(a, c) for a, c in zip(x.a[1:], y.a[1:])), x.ty)
            return b if x.a[0] == vb else nb
        return m, build(q.val, o.val)

    def same_mem(self, a, b):
        ma, mb = a.mem, b.mem
        for k, v in ma.items():
            w = mb.get(k)
            if w is not v and not (w is None and (k[0] == "h" or (k[0] in self.pseudo_init and v is self.pseudo_init[k[0]](k)))): return False
        for k, w in mb.items():
            if k not in ma and k[0] != "h" and not (k[0] in self.pseudo_init and w is self.pseudo_init[k[0]](k)): return False
        return True

    def explore(self, st, fr, bb, active):
        """Runs from a block. Returns [(kind, state, x)], kind in ret/panic/back (x = header)/exit (x = (header, block))."""
        work = [(st, bb)]
        res = []
        first = True
        while work:
            st, bb = work.pop()
            self.paths += 0
            if active:
                h = active[-1]
                if bb == h and not (first):
                    res.append(("back", st, h)); continue
                if bb not in fr.loops[h]:
                    res.append(("exit", st, (h, bb))); continue
            if bb in fr.loops and not (active and bb == active[-1] and first):
                first = False
                for kind, s, x in self.run_loop(st, fr, bb, active):
                    if kind == "exit" and x[0] == bb: work.append((s, x[1]))
                    else: res.append((kind, s, x))
                continue
            first = False
            self.exec_block(st, fr, bb, work, res)
            self.tick += 1
            if len(work) + len(res) > self.max_paths: raise Budget("paths in " + fr.body["p"])
        return res

    def run_loop(self, st, fr, h, active):
        r = self.written_out(st, fr, h, active)
        if r is not None: return r
        rec = Loop(h, uid())
        def once(s): return self.explore(s, fr, h, active + (h,))
        def is_back(o): return o[0] == "back" and o[2] == h
        return self.fixpoint(st, rec, once, is_back, fr)

    def written_out(self, st, fr, h, active):
        """A loop over a few elements that are written out in the source is a sequence of rounds."""
        from std_models import spelled_out, it_mk
        stmts, term, _ = fr.body["bb"][h]
        if term[0] != "call" or not isinstance(term[1], int) or self.p.callees[term[1]]["n"] != "next" or len(term[2]) != 1: return None
        refs, l = {}, term[2][0][1] if term[2][0][0] in ("m", "c") else None
        for x in stmts:
            if x[0] == "=" and isinstance(x[1], int) and x[2][0] == "ref": refs[x[1]] = x[2][1]
        while l in refs:
            l = refs[l]
            if isinstance(l, list) and l[1] == ["*"] and l[0] in refs: l = l[0]
            if not isinstance(l, int): return None
        it = st.mem.get((fr.id, l))
        few = spelled_out(it) if isinstance(it, V) and it.op == "iter" else None
        if few is None or len(few[0][5].a) > 6: return None
        base, steps = few
        s = st.copy()
        s.mem[(fr.id, l)] = it_mk("few", uid(), it, base, tuple(steps), 0)
        live, outs = [s], []
        while live:
            nxt = []
            for s in live:
                for o in self.explore(s, fr, h, active + (h,)):
                    if o[0] == "back" and o[2] == h: nxt.append(o[1])
                    else: outs.append(o)
            live = nxt
            if len(live) > 16: return None
        return outs

    def fixpoint(self, st, rec, once, is_back, fr=None):
        """Runs `once` from a join-closed entry state; returns the outcomes that leave the loop."""
        S = st.copy()
        S.ev = (st.ev, Ev("loop", (rec,), self.site(st)))
        rec.init = st
        for n in range(40):
            rec.entry = S
            ev_sv = S.ev
            outs = once(S.copy())
            backs = [o for o in outs if is_back(o)]
            J = self.join_states(S, [self.back_state(o) for o in backs], rec)
            if J is None: break
            S = J
            S.ev = ev_sv
            rec.entry = S
        else: raise Budget("loop fixpoint")
        rec.iters = [self.back_state(o) for o in backs]
        rec.back_outs = backs
        rec.exits = [o for o in outs if not is_back(o)]
        self.loops[rec.serial] = rec
        return [o for o in outs if not is_back(o)]

    def back_state(self, o): return o[1]

    def join_states(self, S, backs, rec):
        """None when the entry state already covers the back-edge states."""
        changed = False
        N = S.copy()
        mem = {}
        for al, v in S.mem.items():
            nv = v
            for b in backs:
                w = b.mem.get(al)
                if w is None:
                    if al[0] == "h" or al[0] in self.pseudo_init: continue      # lazily created later, still unmodified there
                    w = UNDEF
                if w is not nv: nv = self.join(S, b, nv, w, (rec.serial, al, ()))
            if nv is not v: changed = True
            mem[al] = nv
        # heap cells first touched inside the loop and left modified; those of objects that only one round knows stay with that round
        met, new = rec.met, set()
        for b in backs:
            for al, w in b.mem.items():
                if (al[0] in ("h", "static") or al[0] in self.pseudo_init) and al not in mem:
                    init = mk("fld", (al[1], "*", 0), self.pointee(al[1].ty)) if al[0] == "h" else (self.pseudo_init[al[0]](al) if al[0] in self.pseudo_init else None)
                    if init is not None and w is not init and self.made_in(al, rec) and al not in met:
                        new.add(al)
                    elif init is not None and w is not init and not self.fresh_in(al, S, rec):
                        nv = self.join(S, b, init, w, (rec.serial, al, ()))
                        mem[al] = nv
                        changed = True
        more = len(new) > rec.new_met
        rec.met, rec.new_met = met | new, len(new)
        if changed or more:
            mem = self.congruent(S, mem, backs, rec)
            changed = any(v is not S.mem.get(al) for al, v in mem.items()) or more
        var = {k: v for k, v in S.var.items() if all(b.var.get(k) == v for b in backs)}
        nvar = {}
        for k, v in S.nvar.items():
            ok = v
            for b in backs:
                if k in b.var:
                    if b.var[k] in ok: ok = frozenset()
                else: ok = ok & b.nvar.get(k, frozenset())
            if ok: nvar[k] = ok
        truth = {k: v for k, v in S.truth.items() if all(b.truth.get(k) == v for b in backs)}
        keep = [f for f in S.ord if all(self.implied(b, self.subst_fact(b, f, rec)) for b in backs)]
        aux = {}
        for k, v in S.aux.items():
            ws = [b.aux.get(k) for b in backs]
            if all(w is v or w == v for w in ws): aux[k] = v
            elif isinstance(v, V):
                for b, w in zip(backs, ws): v = self.join(S, b, v, w if w is not None else UNDEF, (rec.serial, ("aux", k), ()))
                aux[k] = v
            else: aux[k] = v
        for b in backs:
            for k, v in b.aux.items():
                if k not in aux and not isinstance(v, V): pass
        if aux != S.aux: changed = True
        if len(var) != len(S.var) or len(truth) != len(S.truth) or len(keep) != len(S.ord) or nvar != S.nvar: changed = True
        N.mem, N.var, N.nvar, N.truth, N.ord, N.aux = mem, var, nvar, truth, tuple(keep), aux
        if changed: self.loop_facts(S, N, backs, rec)
        return N if changed else None

    def congruent(self, S, mem, backs, rec):
        """Cells that were equal at the entry and are equal after every iteration share one phi."""
        new = []
        for al, v in mem.items():
            o = S.mem.get(al)
            if o is not v: new += [(ph, old) for _, ph, old in self.new_phis(v, o, rec, ()) if ph is not old]
        sub, group = {}, {}
        for ph, old in new:
            if old is UNDEF: continue
            vals = tuple(self.subst_phi(b, ph, rec) for b in backs)
            if old.op == "phi" and old.a[0][0] == rec.serial and tuple(self.subst_phi(b, old, rec) for b in backs) == vals: sub[ph] = old
            elif (old, vals) in group: sub[ph] = group[(old, vals)]
            else: group[(old, vals)] = ph
        if not sub: return mem
        def rep(v):
            if v.op == "phi": return sub.get(v, v)
            if v.op == "agg":
                a = tuple(rep(x) for x in v.a[1:])
                return v if all(x is y for x, y in zip(a, v.a[1:])) else mk("agg", (v.a[0],) + a, v.ty)
            if v.op == "cell":
                x = rep(v.a[0])
                return v if x is v.a[0] else mk("cell", (x,), v.ty)
            return v
        return {al: (rep(v) if S.mem.get(al) is not v else v) for al, v in mem.items()}

    def loop_facts(self, S, N, backs, rec):
        """Proposes bounds of freshly widened scalars; the following fixpoint rounds keep the inductive ones."""
        cands = None
        for al, v in N.mem.items():
            o = S.mem.get(al)
            if o is v: continue
            for where, ph, old in self.new_phis(v, o, rec, ()):
                if not self.is_scalar(ph.ty) or old is UNDEF: continue
                if cands is None:
                    cands = []
                    for p, q, d, s in S.ord:
                        for t in (p, q):
                            if t is not None and t not in cands: cands.append(t)
                    fresh = []
                    for b in backs:
                        for f in b.ord:
                            for t in f[:2]:
                                if t is not None and t.op == "op" and t.a[0] == "len" and t not in cands and t not in fresh and older(t, rec.serial): fresh.append(t)
                for x in [old] + [c for c in cands if c is not old] + (fresh if self.p.tk(ph.ty) == "uint" else []):
                    if x is ph: continue
                    if prove_le(S, x, old): N.ord = N.ord + ((x, ph, 0, False),)
                    if prove_le(S, old, x): N.ord = N.ord + ((ph, x, 0, False),)

    def is_scalar(self, ty):
        return ty is not None and (self.p.tk(ty) in ("uint", "int") or (self.p.adt(ty) in self.type_opaque))

    def new_phis(self, v, o, rec, path):
        if v is o: return
        if v.op == "phi":
            if v.a[0][0] == rec.serial and (o is None or o is not v): yield path, v, (o if o is not None else UNDEF)
        elif v.op == "agg":
            for i, x in enumerate(v.a[1:]):
                y = None
                if o is not None and o.op == "agg" and i + 1 < len(o.a) and o.a[0] == v.a[0]: y = o.a[i + 1]
                elif o is not None and o.op in ("sym", "fld", "phi", "elt") and o.ty is not None: y = self.field_of(o, v.a[0], i)
                yield from self.new_phis(x, y, rec, path + (i,))
        elif v.op == "cell":
            y = None
            if o is not None: y = o.a[0] if o.op == "cell" else mk("fld", (o, "in", 0), self.inner_ty(o.ty))
            yield from self.new_phis(v.a[0], y, rec, path + ("in",))

    def subst_fact(self, b, f, rec):
        p, q, d, s = f
        return (self.subst_phi(b, p, rec), self.subst_phi(b, q, rec), d, s)

    def subst_phi(self, b, t, rec):
        if t is None or not isinstance(t, V) or t.op != "phi" or t.a[0][0] != rec.serial: return t
        ser, al, path = t.a[0]
        if al[0] == "aux": return b.aux.get(al[1], t)
        v = b.mem.get(al)
        if v is None: return t
        for s in path:
            v = self.resolve(b, v)
            if s == "in":
                v = v.a[0] if v.op == "cell" else mk("fld", (v, "in", 0), self.inner_ty(v.ty))
            elif v.op == "agg" and s + 1 < len(v.a): v = v.a[s + 1]
            else: v = self.field_of(v, 0, s)
        return v

    def implied(self, b, f):
        p, q, d, s = f
        return f in b.ord or prove_le(b, p, q, d + (1 if s else 0), s)

    def made_in(self, al, rec):
        """Is this the heap object of a value that first appeared in a round of this loop? (One that a second round meets again is not.)"""
        v = al[1] if al[0] == "h" else None
        while isinstance(v, V) and v.op == "fld": v = v.a[0]
        return isinstance(v, V) and v.op in ("sym", "mgr") and isinstance(v.a[0], int) and v.a[0] > rec.serial

    def fresh_in(self, al, S, rec):
        """Is this the own heap object of an element that only one iteration visits? (fresh_elems: nothing reads them after the loop.)"""
        v = al[1] if al[0] == "h" and self.fresh_elems else None
        while isinstance(v, V) and v.op == "fld": v = v.a[0]
        return isinstance(v, V) and v.op == "elt" and v.a[1].op == "sym" and v.a[1].a[0] > rec.serial

    def join(self, S, B, v, w, where):
        if v is w: return v
        v2, w2 = self.resolve(S, v), self.resolve(B, w)
        if v2 is w2: return v2
        ser, al, path = where
        if v2.op == "phi" and v2.a[0] == (ser, al, path): return v2
        if v2.op == "agg" and w2.op == "agg" and v2.ty == w2.ty and v2.a[0] == w2.a[0] and len(v2.a) == len(w2.a):
            return mk("agg", (v2.a[0],) + tuple(self.join(S, B, x, y, (ser, al, path + (i,))) for i, (x, y) in enumerate(zip(v2.a[1:], w2.a[1:]))), v2.ty)
        lazy = ("sym", "fld", "elt")
        if v2.op == "cell" and w2.op in lazy and w2.ty == v2.ty: w2 = mk("cell", (mk("fld", (w2, "in", 0), self.inner_ty(w2.ty)),), w2.ty)
        if w2.op == "cell" and v2.op in lazy and w2.ty == v2.ty: v2 = mk("cell", (mk("fld", (v2, "in", 0), self.inner_ty(v2.ty)),), v2.ty)
        if v2.op == "cell" and w2.op == "cell":
            return mk("cell", (self.join(S, B, v2.a[0], w2.a[0], (ser, al, path + ("in",))),), v2.ty)
        if v2 is UNDEF and w2 is UNDEF: return UNDEF
        ty = v2.ty if v2.ty is not None else w2.ty
        # same-shape struct against a lazy struct: expand
        if ty is not None and self.p.tk(ty) in ("adt", "tuple", "closure") and not self.p.is_enum(ty) and self.p.adt(ty) not in self.type_opaque \
                and self.p.nfields(ty, 0) and (v2.op == "agg" or w2.op == "agg") and v2.op != "phi" and v2 is not UNDEF and w2 is not UNDEF:
            return self.join(S, B, v2 if v2.op == "agg" else self.expand(v2), w2 if w2.op == "agg" else self.expand(w2), where)
        return mk("phi", ((ser, al, path),), ty)

    def exec_block(self, st, fr, bb, work, res):
        stmts, term, _ = fr.body["bb"][bb]
        key = st.stack[-1][0]
        for s in stmts:
            if s[0] == "=":
                pl = s[1]
                dty = fr.body["l"][pl] if isinstance(pl, int) else self.place_ty(fr, pl)
                st.stack = st.stack[:-1] + ((key, s[3]),)
                v = self.rvalue(st, fr, s[2], dty)
                if isinstance(pl, int): st.mem[(fr.id, pl)] = v
                else:
                    al, path = self.place_addr(st, fr, pl)
                    self.write(st, al, path, v)
            elif s[0] == "sd":
                al, path = self.place_addr(st, fr, s[1])
                v = self.load(st, al, path)
                if v.op == "agg": self.write(st, al, path, mk("agg", (s[2],) + v.a[1:], v.ty))
                else: self.write(st, al, path, mk("agg", (s[2],), v.ty))
        k = term[0]
        if k == "goto": work.append((st, term[1]))
        elif k == "ret": res.append(("ret", st, None))
        elif k == "switch":
            v = self.operand(st, fr, term[1])
            self.switch(st, fr, v, term, work)
        elif k == "call":
            st.stack = st.stack[:-1] + ((key, term[5]),)
            f = term[1]
            args = [self.operand(st, fr, a) for a in term[2]]
            pl = term[3]
            dty = fr.body["l"][pl] if isinstance(pl, int) else self.place_ty(fr, pl)
            if isinstance(f, int): outs = self.call(st, f, args, dty, term[5], fr)
            else: outs = self.call_value(st, self.operand(st, fr, f), args, dty, term[5], fr)
            for o in outs:
                if o.kind == "panic": res.append(("panic", o.st, o.val)); continue
                if term[4] is None: res.append(("panic", o.st, "diverges")); continue
                s2 = o.st
                if isinstance(pl, int): s2.mem[(fr.id, pl)] = o.val
                else:
                    al, path = self.place_addr(s2, fr, pl)
                    self.write(s2, al, path, o.val)
                work.append((s2, term[4]))
        elif k == "drop":
            st.stack = st.stack[:-1] + ((key, term[4]),)
            if not self.needs_drop(term[3]): work.append((st, term[2]))
            else:
                al, path = self.place_addr(st, fr, term[1])
                for o in self.drop_at(st, al, path, term[3]):
                    if o.kind == "panic": res.append(("panic", o.st, o.val))
                    else: work.append((o.st, term[2]))
        elif k == "assert":
            st.stack = st.stack[:-1] + ((key, term[5]),)
            c = self.operand(st, fr, term[1])
            want = 1 if term[2] else 0
            if term[4] in ("overflow", "ub"):
                work.append((st, term[3])); return
            for s2, v in self.truth_split(st, c):
                if v == want: work.append((s2, term[3]))
                else: res.append(("panic", s2, term[4]))
        elif k == "unreachable": pass
        elif k == "unwind": res.append(("panic", st, "unwind"))
        else: res.append(("panic", st, "other terminator"))

    def place_ty(self, fr, pl):
        ty = fr.body["l"][pl[0]]
        for e in pl[1]:
            if e == "*": ty = self.pointee(ty)
            elif e[0] == "f": ty = e[2]
            elif e[0] in ("i", "ci"): ty = self.elem_ty(ty)
        return ty

    def write(self, st, al, path, v):
        if path and al in st.mem: path = self.norm_path(st, al, path)
        self.on_write(st, al, path, v)
        self.store(st, al, path, v)

    def on_write(self, st, al, path, v):
        """Hook for rules that watch stores."""

    def switch(self, st, fr, v, term, work):
        targets, other = term[2], term[3]
        if isc(v):
            n = v.a[0]
            for val, b in targets:
                if int(val) == n or (n < 0 and int(val) in (n + (1 << 8), n + (1 << 16), n + (1 << 32), n + (1 << 64), n + (1 << 128))): work.append((st, b)); return
            work.append((st, other)); return
        if v.op == "discr" and v.a[0].op == "op" and v.a[0].a[0] == "Cmp" and v.a[0] not in st.var: v = v.a[0]
        if v.op == "discr":
            e = self.resolve(st, v.a[0])
            if e.op == "agg":
                return self.switch(st, fr, self.discr(st, e), term, work)
            for val, b in targets:
                s = st.copy()
                if self.assume_discr(s, v, int(val), True): work.append((s, b))
            s = st.copy()
            ok = True
            for val, b in targets:
                if not self.assume_discr(s, v, int(val), False): ok = False; break
            if ok: 
                vs = self.p.variants(e.ty)
                if vs and len({int(x[0]) for x in targets}) >= len(vs): ok = False
            if ok: work.append((s, other))
            return
        if len(targets) == 1 and int(targets[0][0]) == 0 and (self.p.tk(v.ty) == "bool" or v.ty is None or v.op == "op" and v.a[0] in ("Eq", "Lt", "Le", "Not", "Ne", "Gt", "Ge", "BitAnd", "BitOr")):
            for s, t in self.truth_split(st, v):
                work.append((s, targets[0][1] if t == 0 else other))
            return
        if v.op == "op" and v.a[0] == "Cmp":
            x, y = v.a[1], v.a[2]
            B = self.p.bool_ty
            seen = set()
            for val, b in targets:
                n = int(val)
                seen.add(n)
                s = st.copy()
                f = {0: ("Eq", x, y), 1: ("Lt", y, x)}.get(n, ("Lt", x, y))
                if self.assume(s, mk("op", f, B), 1): work.append((s, b))
            s = st.copy()
            for n in seen:
                f = {0: ("Eq", x, y), 1: ("Lt", y, x)}.get(n, ("Lt", x, y))
                if not self.assume(s, mk("op", f, B), 0): return
            if len(seen) < 3: work.append((s, other))
            return
        for val, b in targets:
            s = st.copy()
            if self.assume(s, mk("op", ("Eq", v, const(int(val), v.ty)), self.p.bool_ty), 1): work.append((s, b))
        s = st.copy()
        for val, b in targets:
            if not self.assume(s, mk("op", ("Eq", v, const(int(val), v.ty)), self.p.bool_ty), 0): return
        work.append((s, other))

    # ---- calls
    def handler(self, ci):
        if ci in self.hc: return self.hc[ci]
        c = self.p.callees[ci]
        r = None
        for f in self.h:
            r = f(self, c)
            if r: break
        self.hc[ci] = r
        return r

    def call(self, st, ci, args, dty, line, fr):
        c = self.p.callees[ci]
        h = self.handler(ci)
        if h is not None:
            r = h(self, st, Call(c, args, dty, line, fr))
            if r is not None: return self.norm_outs(r)
        k = c["k"]
        if k == "ctor":
            return [Out(st, "ret", mk("agg", (c["ctor"][1],) + tuple(args), c.get("out", dty)))]
        if c.get("trait") in FN_TRAITS and c["n"] in ("call", "call_mut", "call_once"):
            return self.call_fn_trait(st, c, args, dty, line, fr)
        b = c.get("b")
        if b and b in self.p.bodies and not self.no_inline(c):
            if any(f == b for f, _ in st.stack):
                return [Out(st, "ret", self.recur(st, c["p"], args, dty))]
            return self.run_body(st, b, args, line)
        return self.opaque(st, c, args, dty)

    def norm_outs(self, r):
        if isinstance(r, list): return [x if isinstance(x, Out) else Out(x[0], "ret", x[1]) for x in r]
        return [Out(r[0], "ret", r[1])] if isinstance(r, tuple) else r

    def call_fn_trait(self, st, c, args, dty, line, fr):
        f = args[0]
        a = args[1]
        a = self.resolve(st, a)
        if a.op == "agg": al = list(a.a[1:])
        else:
            t = self.p.types[a.ty] if a.ty is not None else None
            n = len(t["ts"]) if t and t["k"] == "tuple" else 0
            al = [self.field_of(a, 0, i) for i in range(n)]
        if c["n"] in ("call", "call_mut"):
            return self.call_value(st, f, al, dty, line, fr, byref=True)
        return self.call_value(st, f, al, dty, line, fr)

    def call_value(self, st, f, args, dty, line=0, fr=None, byref=False):
        """Calls a function value; byref: f is a reference to the callable."""
        fv = self.resolve(st, f)
        ref = None
        n = 0
        while True:
            if fv.op == "ref":
                ref = fv
                fv = self.load(st, *fv.a)
                n += 1
                if n > 4: break
                continue
            if fv.ty is not None and self.p.tk(fv.ty) in ("ref", "ptr") or (fv.ty is not None and self.p.adt(fv.ty) in POINTERS):
                if fv.op == "agg": break
                al, path = self.deref(st, fv)
                ref = self.ref(al, path)
                fv = self.load(st, al, path)
                n += 1
                if n > 4: break
                continue
            break
        if fv.op == "fn":
            return self.call(st, fv.a[0], args, dty, line, fr)
        t = self.p.types[fv.ty] if fv.ty is not None else None
        if t is not None and t["k"] == "fndef": return self.call(st, t["c"], args, dty, line, fr)
        if t is not None and t["k"] == "closure" and t.get("b") in self.p.bodies:
            b = t["b"]
            want_ref = t["ck"] in ("Fn", "FnMut")
            if want_ref and ref is None:
                al = self.new_alloc(st, fv, "clo")
                ref = self.ref(al, ())
            if any(x == b for x, _ in st.stack):
                return [Out(st, "ret", self.recur(st, t["p"], args, dty))]
            return self.run_body(st, b, [ref if want_ref else fv] + args, line)
        return self.user_call(st, fv, args, dty)

    def user_call(self, st, fv, args, dty):
        """Call of an unknown (caller-supplied) function value."""
        r = sym("usercall", dty)
        seen = tuple(self.seen_by(st, x) for x in args)
        self.havoc_args(st, args)
        for h in self.on_usercall: h(self, st, args)
        self.emit(st, "usercall", fv, tuple(args), r, seen, tuple(self.seen_by(st, x) for x in args))
        return [Out(st, "ret", r)]

    def seen_by(self, st, v):
        """What a call finds behind a reference it is given."""
        for _ in range(4):
            v = self.resolve(st, v)
            if v.op != "ref" and (v.ty is None or self.p.tk(v.ty) != "ref"): break
            v = self.load(st, *self.deref(st, v))
        return v

    def opaque(self, st, c, args, dty):
        name = c.get("rp") or c["p"]
        if c["k"] in ("unresolved", "virtual"): name = c["p"]
        self.externals[name] = self.externals.get(name, 0) + 1
        r = sym(c["n"], dty)
        seen = tuple(self.seen_by(st, x) for x in args)
        self.havoc_args(st, args)
        self.emit(st, "call", name, tuple(args), r, c, seen)
        if self.p.tk(dty) == "never": return [Out(st, "panic", name)]
        return [Out(st, "ret", r)]

    def recur(self, st, path, args, dty):
        """A call of a function that is already running: its result is unknown, what it was given to change is changed."""
        r = sym("rec", dty)
        for a in args:
            a = self.resolve(st, a)
            if a.ty is None or self.p.tk(a.ty) != "ref" or not self.p.types[a.ty].get("mut"): continue
            al, pth = self.deref(st, a)
            cur = self.load(st, al, pth)
            if cur is not UNDEF: self.write(st, al, pth, mk("recur", (cur, tuple(args)), cur.ty))
        self.emit(st, "recursive", path, tuple(args), r)
        return r

    def havoc_args(self, st, args):
        for a in args:
            a = self.resolve(st, a)
            if a.op == "ref" and a.ty is not None and self.p.types[a.ty].get("mut"):
                cur = self.load(st, *a.a)
                self.store(st, a.a[0], a.a[1], sym("havoc", cur.ty if cur is not UNDEF else self.pointee(a.ty)))
            elif a.ty is not None and self.p.tk(a.ty) == "ref" and self.p.types[a.ty].get("mut"):
                al, path = self.deref(st, a)
                cur = self.load(st, al, path)
                self.store(st, al, path, sym("havoc", cur.ty))

    # ---- drop glue
    DROP_EXTERNAL = ("lock_api::mutex::MutexGuard", "std::sync::poison::mutex::MutexGuard", "std::sync::poison::rwlock::RwLockReadGuard", "std::sync::poison::rwlock::RwLockWriteGuard",
                     "crossbeam_channel::channel::Sender", "crossbeam_channel::channel::Receiver")

    def needs_drop(self, ty):
        if ty is None: return False
        if ty in self._nd: return self._nd[ty]
        self._nd[ty] = False
        t = self.p.types[ty]
        k = t["k"]
        r = False
        if k == "adt":
            if t["p"] in self.DROP_EXTERNAL or (self.drop_interest_extra and self.drop_interest_extra(t)): r = True
            elif t["local"] and "dtor" in t: r = True
            elif t["p"] == "core::mem::manually_drop::ManuallyDrop" or t["p"] == "core::marker::PhantomData": r = False
            elif "vs" in t and t["p"] not in POINTERS: r = any(self.needs_drop(f[1]) for v in t["vs"] for f in v[2])
            else: r = any(self.needs_drop(x) for x in t["a"])
        elif k in ("tuple", "closure"): r = any(self.needs_drop(x) for x in t["ts"])
        elif k in ("array", "slice"): r = self.needs_drop(t["t"])
        self._nd[ty] = r
        return r

    def drop_at(self, st, al, path, ty):
        """Structural drop glue of the value at a location."""
        if not self.needs_drop(ty): return [Out(st, "ret", ZST)]
        t = self.p.types[ty]
        k = t["k"]
        v = self.load(st, al, path)
        if k in ("tuple", "closure"):
            return self.drop_fields(st, al, path, ty, 0)
        if k in ("array", "slice"):
            self.emit(st, "drop_elems", v, ty)
            return [Out(st, "ret", ZST)]
        if k != "adt": return [Out(st, "ret", ZST)]
        h = self.drop_handler(t)
        if h: return self.norm_outs(h(self, st, al, path, ty))
        if "dtor" in t and t["local"]:
            outs = self.call(st, t["dtor"], [self.ref(al, path, None)], self.p.unit_ty, 0, None)
            res = []
            for o in outs:
                if o.kind == "panic": res.append(o)
                else: res += self.drop_fields(o.st, al, path, ty, None)
            return res
        if t["p"] in self.DROP_EXTERNAL:
            self.drop_external(st, v, t)
            return [Out(st, "ret", ZST)]
        if "vs" in t and t["p"] not in POINTERS: return self.drop_fields(st, al, path, ty, None)
        self.emit(st, "drop_owned", v, ty)
        if t["p"] == "alloc::boxed::Box" and t["a"]:
            a2, p2 = self.deref(st, v)
            return self.drop_at(st, a2, p2, t["a"][0])
        return [Out(st, "ret", ZST)]

    def drop_handler(self, t): return None

    def drop_external(self, st, v, t):
        self.emit(st, "drop_ext", v, t["p"])

    def drop_fields(self, st, al, path, ty, variant):
        t = self.p.types[ty]
        if t["k"] == "adt":
            vs = t.get("vs")
            if not vs: return [Out(st, "ret", ZST)]
            if t.get("enum"):
                v = self.load(st, al, path)
                if v is UNDEF: return [Out(st, "ret", ZST)]
                res = []
                groups = self.variant_split(st, v)
                for s, av in groups:
                    if av.op != "agg": continue
                    res += self.drop_list(s, al, path, [(av.a[0], i, f[1]) for i, f in enumerate(vs[av.a[0]][2])])
                return res
            return self.drop_list(st, al, path, [(0, i, f[1]) for i, f in enumerate(vs[0][2])])
        return self.drop_list(st, al, path, [(0, i, x) for i, x in enumerate(t["ts"])])

    def drop_list(self, st, al, path, fields):
        outs = [Out(st, "ret", ZST)]
        for vi, i, fty in fields:
            if not self.needs_drop(fty): continue
            nxt = []
            for o in outs:
                if o.kind == "panic": nxt.append(o); continue
                nxt += self.drop_at(o.st, al, path + (("f", vi, i, fty),), fty)
            outs = nxt
        return outs


SWAPCMP = {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}
FN_TRAITS = {"core::ops::function::Fn", "core::ops::function::FnMut", "core::ops::function::FnOnce"}
