"""D01, D02: sizes and conversions of element types."""
from rules import rule
from rules.base import *
from rules.running import alike
from rules.logs import variant, mentions, ends

BITS = {"bool": 1, "char": 32, "u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "u128": 128, "i128": 128, "f16": 16, "f32": 32, "f64": 64, "f128": 128, "()": 0, "usize": 64, "isize": 64}
WIDTH = "types::StaticallySized"
TYPE = "types::DAMType"


def own(rep, key, config="main"):
    e = engine(rep, config)
    e.merge = False
    st = State()
    args = e.sym_args(key, st)
    outs = e.run_fn(key, args, st)
    rep.use(e)
    rep.count("paths", len(outs))
    return e, st, args, outs


def terms_of(v, op):
    """Operands of nested applications of one commutative operator."""
    return terms_of(v.a[1], op) + terms_of(v.a[2], op) if v.op == "op" and v.a[0] == op else [v]


def width_name(v):
    """The type whose width a symbolic constant is."""
    if v.op != "sym" or not isinstance(v.a[0], str) or not v.a[0].startswith("const:" + WIDTH + "::SIZE,"): return None
    return v.a[0].split(",", 1)[1]


@rule("D01")
def d01(rep):
    rep.rule("Every width constant of the library, evaluated from its body: a built-in scalar's is its width in bits, a tuple's the sum of the widths of its parts, a generic wrapper's the width of the type it stands for; the size of a value of a type with a width is that width, and the size of an array is its number of elements times the width of an element. The widths of the built-in types that programs rely on exist.")
    p = prog("main")
    got = set()
    for x in p.roots:
        if x.get("trait") != WIDTH or x["n"] != "SIZE" or x["key"] not in p.bodies or x.get("self") is None: continue
        ty, name = x["self"], p.ts(x["self"])
        site = body_site(p, x["key"])
        e, st, args, outs = own(rep, x["key"])
        if not rep.ok(len(outs) == 1 and outs[0].kind == "ret", "width:" + name, "the width of %s has no single value" % name, site): continue
        v = e.resolve(outs[0].st, outs[0].val)
        t = p.types[ty]
        if name in BITS:
            got.add(name)
            rep.ok(isc(v) and v.a[0] == BITS[name], "width:" + name, "the width of %s is %s bits, not %d" % (name, v.a[0] if isc(v) else "unknown", BITS[name]), site)
        elif t["k"] == "tuple":
            got.add("tuple")
            want = sorted(p.ts(a) for a in t["ts"])
            parts = [width_name(y) for y in terms_of(v, "Add")]
            rep.ok(None not in parts and sorted(parts) == want, "width:" + name, "the width of %s is not the sum of the widths of its parts" % name, site)
        elif t["k"] == "array":
            rep.ok(sorted((width_name(y) or show(y)) for y in terms_of(v, "Mul")) == sorted([p.ts(p.types[ty]["t"]), str(t.get("n"))]), "width:" + name, "the width of an array is not its length times the width of an element", site)
        elif t["k"] == "adt" and len(t.get("a", ())) == 1:
            got.add("wrapper")
            rep.ok(width_name(v) == p.ts(t["a"][0]), "width:" + name, "the width of %s is not the width of the type it stands for" % name, site)
        else: rep.count("widths not decided", 1)
    for n in ("bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "usize", "()", "tuple", "wrapper"):
        rep.ok(n in got, "missing:" + n, "no width is given for %s" % n)
    sizes = set()
    for x in p.roots:
        if x.get("trait") != TYPE or x["n"] != "dam_size" or x["key"] not in p.bodies or x.get("self") is None: continue
        name = p.ts(x["self"])
        site = body_site(p, x["key"])
        e, st, args, outs = own(rep, x["key"])
        kind = "array" if p.types[x["self"]]["k"] == "adt" and "ndarray::ArrayBase" in name else "value" if p.types[x["self"]]["k"] == "param" else None
        if kind is None: rep.count("sizes not decided", 1); continue
        sizes.add(kind)
        for o in outs:
            if not rep.ok(o.kind == "ret", "size:" + kind + ":panics", "asking for the size of %s can panic" % name, site): continue
            v = e.resolve(o.st, o.val)
            if kind == "value":
                rep.ok(width_name(v) == name, "size:value", "the size of a value is not the width of its type", site)
                continue
            f = terms_of(v, "Mul")
            w = [y for y in f if width_name(y) is not None]
            n = [y for y in f if width_name(y) is None]
            rep.ok(len(w) == 1 and width_name(w[0]) == element(p, x["self"]) and len(n) == 1 and counted(e, o.st, n[0], args[0]), "size:array", "the size of an array is not its number of elements times the width of an element", site)
    for n in ("value", "array"): rep.ok(n in sizes, "missing:size:" + n, "no size is given for %s" % ("arrays" if n == "array" else "values of types with a width"))


def element(p, ty):
    """Element type of an owned n-dimensional array."""
    s = p.types[p.types[ty]["a"][0]]
    return p.ts(s["a"][0]) if s["k"] == "adt" and s.get("a") else None


def counted(e, st, n, self_ref):
    """Is n the number of elements of the array?"""
    own = e.load(st, *e.deref(st, self_ref))
    src = [self_ref, own]
    calls = [x for x in st.events() if x.k == "call"]
    for x in calls:
        m = (x.a[3] or {}).get("n")
        of_self = any(mentions(e, y, lambda v: any(v is z for z in src)) for y in tuple(x.a[1]) + tuple(x.a[4]))
        if not of_self: continue
        if x.a[2] is n: return m in ("len", "size")
        if m in ("dim", "raw_dim", "shape", "into_dimension", "clone", "into_pattern", "view") and x.a[2] is not None: src.append(x.a[2])
    for x in st.events():
        if x.k == "reduce" and x.a[0] == "product" and n.op == "op" and n.a[0] == "product" and n.a[1].op == "loopval" and n.a[1].a[0] == x.a[2].serial:
            r = coll_src(x.a[1])
            return r is not None and not any(y in PARTIAL or y in ("filter", "map") for y in r[4]) and mentions(e, r[3], lambda v: any(v is z for z in src))
    return False


# ---- D02
INDEX = "types::IndexLike"


@rule("D02")
def d02(rep):
    rep.rule("to_usize, where it is defined and wherever it is overridden: every path that returns gives the success value of a checked (or total) conversion of the element itself to usize, unchanged. For the unevaluated type: every arithmetic operation, constant and conversion returns on every path; every method that answers a question about the value (equality, zero, one) returns on none; ordering gives no order; parsing returns the error of the underlying type's parse of the same text exactly when that fails.")
    p = prog("main")
    n = 0
    for x in p.roots:
        if x["n"] != "to_usize" or x["key"] not in p.bodies or x.get("trait") != INDEX and x["p"] != INDEX + "::to_usize": continue
        n += 1
        site = body_site(p, x["key"])
        e, st, args, outs = own(rep, x["key"])
        rets = [o for o in outs if o.kind == "ret"]
        rep.ok(bool(rets), "index:never", "converting an element to an index never succeeds", site)
        for o in rets: rep.ok(exact(e, o.st, e.resolve(o.st, o.val), args[0]), "index:exact", "an index is not the value of the element it was converted from", site)
    rep.floor("conversions to an index", n, 1)
    unevaluated(rep, p)


def exact(e, st, v, self_ref):
    own = e.load(st, *e.deref(st, self_ref))
    same = [self_ref, own]
    while v.op == "op" and v.a[0] in ("convert", "copied", "tryconvert", "cast"):
        if v.a[0] == "cast" and not widens(e.p, v.a[1].ty): return False
        v = v.a[1]
    for x in st.events():
        if x.k not in ("call", "tryconvert", "convert"): continue
        if x.k == "call":
            m = (x.a[3] or {}).get("n")
            if not any(any(y is z for z in same) for y in tuple(x.a[1]) + tuple(x.a[4])): continue
            r = x.a[2]
            if m in ("clone", "to_owned"): same.append(r)
            elif m in ("try_into", "try_from") and st.var.get(r) == 0 and v is e.field_of(r, 0, 0): return True
            elif m in ("into", "from") and v is r: return True
            elif m == "to_usize" and st.var.get(r) == 1 and v is e.field_of(r, 1, 0): return True
    return any(v is y for y in same)


def widens(p, ty):
    """Does a plain conversion of this type to usize keep every value (a generic one is a total conversion)?"""
    return ty is not None and (p.tk(ty) == "param" or p.tk(ty) == "uint" and BITS.get(p.ts(ty), 999) <= 64)


def same_args(e, st, a, b):
    return len(a) == len(b) and all(e.deref(st, x) == e.deref(st, y) if e.p.tk(y.ty) == "ref" else e.resolve(st, x) is e.resolve(st, y) for x, y in zip(a, b))


def unevaluated(rep, p):
    kind = [a["p"] for a in p.adts if a["p"].split("::")[-1] == "Unevaluated"]
    if not rep.ok(len(kind) == 1, "anchor:Unevaluated", "the unevaluated type is gone"): return
    mine = lambda t: t is not None and p.adt(t) == kind[0]
    n = {"ops": 0, "asks": 0, "parses": 0, "order": 0}
    for x in p.roots:
        if x.get("self") is None or not mine(x["self"]) or x["key"] not in p.bodies or x["kind"] == "const" or x.get("trait") is None: continue
        tr, m = x["trait"], x["n"]
        if tr.startswith("core::fmt::"): continue
        b = p.bodies[x["key"]]
        ret = b["l"][0]
        site = body_site(p, x["key"])
        key = tr.split("::")[-1] + "::" + m + (":" + ",".join(p.ts(t) for t in b["l"][2:b["argc"] + 1]) if b["argc"] > 1 else "")
        e, st, args, outs = own(rep, x["key"])
        rets = [o for o in outs if o.kind == "ret"]
        if mine(ret) or p.ts(ret) == "()":
            n["ops"] += 1
            rep.ok(rets and len(rets) == len(outs), "op:" + key, "%s of unevaluated values panics instead of giving an unevaluated value" % m, site)
        elif ends(p, ret, "Result"):
            n["parses"] += 1
            for o in outs:
                if not rep.ok(o.kind == "ret", "parse:panics:" + key, "%s of an unevaluated value can panic" % m, site): continue
                calls = [y for y in o.st.events() if y.k == "call" and (y.a[3] or {}).get("n") == m and same_args(e, o.st, y.a[1], args)]
                if not rep.ok(len(calls) == 1, "parse:asks:" + key, "%s of an unevaluated value does not depend on the type it stands for" % m, site): continue
                r, v = calls[0].a[2], e.resolve(o.st, o.val)
                got = o.st.var.get(r)
                rep.ok(got is not None and variant(o.st, v) == got, "parse:same:" + key, "%s of an unevaluated value succeeds although the text is no value of the type, or the other way round" % m, site)
                if got == 1 and v.op == "agg" and len(v.a) > 1: rep.ok(alike(v.a[1], e.field_of(r, 1, 0)), "parse:error:" + key, "%s of an unevaluated value reports another error" % m, site)
        elif ends(p, ret, "Option"):
            n["order"] += 1
            rep.ok(rets and all(variant(o.st, e.resolve(o.st, o.val)) == 0 for o in rets), "order:" + key, "%s invents a result for unevaluated values" % m, site)
        elif p.tk(ret) == "never": continue
        else:
            n["asks"] += 1
            rep.ok(not rets, "asks:" + key, "%s invents a result for unevaluated values" % m, site)
    rep.floor("operations on unevaluated values", n["ops"], 12)
    rep.floor("questions about unevaluated values", n["asks"], 2)
    rep.floor("parsing of unevaluated values", n["parses"], 2)
    rep.floor("orders of unevaluated values", n["order"], 1)
