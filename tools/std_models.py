"""Models of the std / crossbeam / parking_lot / petgraph functions the analysed crate uses.

Keyed by resolved path. A model returns (state, value), a list of outcomes, or None to fall through to the
generic treatment (opaque event).
"""
from engine import (V, mk, const, sym, named, isc, show, uid, Out, Ev, Loop, UNDEF, ZST, POINTERS)

M = {}


def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d


def lookup(eng, c):
    return M.get(c["p"])


def panic(st, what): return Out(st, "panic", what)


def sty(eng, c, i=0):
    """i-th generic argument type of the call."""
    a = c["a"]
    return a[i] if i < len(a) else None


def cont(eng, st, v):
    """Value behind a reference (follows references to references)."""
    al, path = eng.deref(st, v)
    return eng.load(st, al, path)


def place(eng, st, v):
    al, path = eng.deref(st, v)
    w = eng.load(st, al, path)
    n = 0
    while w.op == "ref" or (w.ty is not None and eng.p.tk(w.ty) in ("ref", "ptr")):
        al, path = eng.deref(st, w)
        w = eng.load(st, al, path)
        n += 1
        if n > 5: break
    return al, path, w


def opt(eng, dty, v=None):
    if v is None: return mk("agg", (0,), dty)
    return mk("agg", (1, v), dty)


def ok(eng, dty, v): return mk("agg", (0, v), dty)
def err(eng, dty, v): return mk("agg", (1, v), dty)


def unit(eng): return mk("agg", (0,), eng.p.unit_ty)


# ------------------------------------------------------------------ pointers and cells
@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")
def m_deref(eng, st, call):
    t = eng.p.types[sty(eng, call.c)]
    p = t.get("p", "")
    al, path = eng.deref(st, call.args[0])
    if p in POINTERS:
        v = eng.load(st, al, path)
        a2, p2 = eng.deref(st, v)
        return st, eng.ref(a2, p2, call.dty)
    if p == "crossbeam_utils::cache_padded::CachePadded":
        return st, eng.ref(al, path + (("in", t["a"][0]),), call.dty)
    if p.endswith("MutexGuard") or p.endswith("RwLockReadGuard") or p.endswith("RwLockWriteGuard"):
        g = eng.load(st, al, path)
        if g.op == "guard":
            return st, eng.ref(g.a[0], g.a[1] + (("in", eng.pointee(call.dty)),), call.dty)
        return st, eng.ref(("h", g), (), call.dty)
    if p.startswith("alloc::"): return st, eng.ref(al, path, call.dty)
    if t.get("local"): return None
    eng.emit(st, "call", p + "::deref", tuple(call.args), None, call.c)
    return st, eng.ref(al, path + (("in", eng.pointee(call.dty)),), call.dty)


@model("crossbeam_utils::cache_padded::CachePadded::<T>::new")
def m_cp_new(eng, st, call): return st, mk("cell", (call.args[0],), call.dty)


@model("core::cell::UnsafeCell::<T>::new", "core::cell::Cell::<T>::new", "core::cell::RefCell::<T>::new", "std::sync::poison::mutex::Mutex::<T>::new", "std::sync::poison::rwlock::RwLock::<T>::new",
       "lock_api::mutex::Mutex::<R, T>::new", "core::sync::atomic::Atomic::<bool>::new", "core::sync::atomic::Atomic::<u64>::new", "core::sync::atomic::Atomic::<usize>::new",
       "core::sync::atomic::Atomic::<u32>::new")
def m_cell_new(eng, st, call): return st, mk("cell", (call.args[0],), call.dty)


@model("core::cell::UnsafeCell::<T>::get", "core::cell::UnsafeCell::<T>::get_mut", "core::cell::UnsafeCell::<T>::raw_get", "core::cell::RefCell::<T>::get_mut")
def m_cell_get(eng, st, call):
    al, path = eng.deref(st, call.args[0])
    return st, eng.ref(al, path + (("in", eng.pointee(call.dty)),), call.dty)


@model("core::ptr::mut_ptr::<impl *mut T>::as_mut", "core::ptr::mut_ptr::<impl *mut T>::as_ref", "core::ptr::const_ptr::<impl *const T>::as_ref")
def m_asmut(eng, st, call):
    r = call.args[0]
    if r.op == "ref": r = eng.ref(r.a[0], r.a[1], eng.p.field_ty(call.dty, 1, 0))
    return st, opt(eng, call.dty, r)


@model("core::mem::take")
def m_take(eng, st, call):
    al, path = eng.deref(st, call.args[0])
    v = eng.load(st, al, path)
    d = default_of(eng, st, sty(eng, call.c), call)
    if d is None: return None
    res = []
    for o in d:
        if o.kind == "ret": eng.write(o.st, al, path, o.val); res.append(Out(o.st, "ret", v))
        else: res.append(o)
    return res


@model("core::mem::replace")
def m_replace(eng, st, call):
    al, path = eng.deref(st, call.args[0])
    v = eng.load(st, al, path)
    eng.write(st, al, path, call.args[1])
    return st, v


@model("core::mem::swap")
def m_swap(eng, st, call):
    a, b = eng.deref(st, call.args[0]), eng.deref(st, call.args[1])
    va, vb = eng.load(st, *a), eng.load(st, *b)
    eng.write(st, a[0], a[1], vb); eng.write(st, b[0], b[1], va)
    return st, unit(eng)


@model("core::mem::drop")
def m_drop(eng, st, call):
    ty = sty(eng, call.c)
    al = eng.new_alloc(st, call.args[0], "drop")
    outs = eng.drop_at(st, al, (), ty)
    return [Out(o.st, o.kind, unit(eng) if o.kind == "ret" else o.val) for o in outs]


@model("core::mem::forget", "core::mem::needs_drop")
def m_forget(eng, st, call):
    if call.name == "needs_drop": return st, const(1, call.dty)
    eng.emit(st, "forget", call.args[0])
    return st, unit(eng)


@model("alloc::boxed::Box::<T>::new", "alloc::rcs::arc::Arc::<T>::new", "alloc::sync::Arc::<T>::new", "alloc::rcs::rc::Rc::<T>::new", "alloc::boxed::Box::<T>::pin")
def m_box_new(eng, st, call):
    al = eng.new_alloc(st, call.args[0], "arc" if "Arc" in call.c["p"] else "box")
    eng.emit(st, "alloc", al, call.args[0], call.c["p"])
    return st, eng.ref(al, (), call.dty)


@model("alloc::boxed::Box::<T>::new_uninit")
def m_uninit(eng, st, call):
    al = eng.new_alloc(st, UNDEF, "box")
    return st, eng.ref(al, (), call.dty)


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_into_vec(eng, st, call):
    v = cont(eng, st, call.args[0])
    while v.op == "agg" and not (v.ty is not None and eng.p.tk(v.ty) == "array"):
        nx = [x for x in v.a[1:] if x is not UNDEF]
        if len(nx) != 1 or (v.ty is None and eng.p.tk(nx[0].ty) == "array" and nx[0].op != "agg"): break
        v = nx[0]
    return st, v


@model("alloc::rcs::arc::Arc::<T, A>::into_inner", "alloc::rcs::arc::Arc::<T, A>::try_unwrap")
def m_arc_inner(eng, st, call):
    v = call.args[0]
    s2 = st.copy()
    eng.emit(st, "arc_into_inner", v, 1)
    eng.emit(s2, "arc_into_inner", v, 0)
    inner = cont(eng, st, v)
    if "try_unwrap" in call.c["p"]: return [(st, ok(eng, call.dty, inner)), (s2, err(eng, call.dty, v))]
    return [(st, opt(eng, call.dty, inner)), (s2, opt(eng, call.dty))]


@model("alloc::rcs::arc::Arc::<T, A>::ptr_eq")
def m_arc_eq(eng, st, call):
    a, b = cont(eng, st, call.args[0]), cont(eng, st, call.args[1])
    return st, eng.binop(st, "Eq", a, b, call.dty)


@model("core::borrow::Borrow::borrow", "core::convert::AsRef::as_ref", "core::borrow::BorrowMut::borrow_mut", "core::convert::AsMut::as_mut",
       "alloc::string::String::as_str", "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice", "core::ptr::const_ptr::<impl *const T>::cast",
       "core::ptr::from_mut", "core::ptr::from_ref", "alloc::vec::Vec::<T, A>::into_boxed_slice", "core::hint::must_use", "core::hint::black_box", "alloc::slice::<impl [T]>::into_vec",
       "core::array::<impl [T; N]>::as_slice")
def m_same(eng, st, call):
    v = call.args[0]
    if call.c["p"].startswith("core::convert::As") and call.c["k"] == "unresolved": return None
    if v.op == "ref": return st, eng.ref(v.a[0], v.a[1], call.dty)
    return st, v


@model("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::slice::<impl [T]>::to_vec")
def m_clone(eng, st, call):
    c = call.c
    if c.get("b") in eng.p.bodies and c["k"] != "cloneshim": return None
    v = cont(eng, st, call.args[0])
    if eng.on_clone: eng.on_clone(st, v, call)
    return st, v


@model("core::clone::Clone::clone_from")
def m_clone_from(eng, st, call):
    v = cont(eng, st, call.args[1])
    al, path = eng.deref(st, call.args[0])
    eng.write(st, al, path, v)
    return st, unit(eng)


def default_of(eng, st, ty, call):
    """Outcomes of T::default()."""
    if ty is None: return None
    p = eng.p.adt(ty)
    k = eng.p.tk(ty)
    if k in ("int", "uint", "bool", "char"): return [Out(st, "ret", const(0, ty))]
    if p in ("alloc::vec::Vec", "alloc::string::String", "alloc::collections::vec_deque::VecDeque", "std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet",
             "alloc::collections::btree::map::BTreeMap", "alloc::collections::btree::set::BTreeSet"):
        return [Out(st, "ret", mk("empty", (), ty))]
    if p == "core::option::Option": return [Out(st, "ret", mk("agg", (0,), ty))]
    if p == "core::marker::PhantomData": return [Out(st, "ret", mk("agg", (0,), ty))]
    if k == "tuple" and not eng.p.types[ty]["ts"]: return [Out(st, "ret", mk("agg", (0,), ty))]
    if p in ("core::sync::atomic::Atomic", "lock_api::mutex::Mutex", "std::sync::poison::mutex::Mutex", "std::sync::poison::rwlock::RwLock",
             "crossbeam_utils::cache_padded::CachePadded", "core::cell::UnsafeCell", "core::cell::RefCell", "core::cell::Cell") or p in POINTERS:
        a = eng.p.types[ty]["a"]
        it = a[-1] if p == "lock_api::mutex::Mutex" else a[0]
        d = default_of(eng, st, it, call)
        if d is None: return None
        res = []
        for o in d:
            if o.kind != "ret": res.append(o); continue
            if p in POINTERS:
                al = eng.new_alloc(o.st, o.val, "arc" if "Arc" in p else "box")
                eng.emit(o.st, "alloc", al, o.val, p)
                res.append(Out(o.st, "ret", eng.ref(al, (), ty)))
            else: res.append(Out(o.st, "ret", mk("cell", (o.val,), ty)))
        return res
    # a local impl: find an instance of Default::default for this type among the callees
    ci = eng.default_callee(ty)
    if ci is not None: return eng.call(st, ci, [], ty, call.line, call.frame)
    for r in eng.p.roots:
        if r.get("trait") == "core::default::Default" and r["n"] == "default" and r.get("self") == ty and r["key"] in eng.p.bodies and not any(f == r["key"] for f, _ in st.stack):
            return eng.run_body(st, r["key"], [], call.line)
    return [Out(st, "ret", mk("op", ("default", mk("type", (ty,))), ty))]


@model("core::default::Default::default")
def m_default(eng, st, call):
    if call.c.get("b") in eng.p.bodies: return None
    return default_of(eng, st, call.dty, call)


# ------------------------------------------------------------------ conversions and comparisons
@model("core::convert::Into::into", "core::convert::From::from")
def m_from(eng, st, call):
    c = call.c
    if c.get("b") in eng.p.bodies: return None
    a = c["a"]
    v = call.args[0]
    if len(a) >= 2 and a[0] == a[1]: return st, v
    if eng.p.adt(call.dty) in POINTERS and v.op != "str" and eng.p.adt(call.dty) is not None and v.ty is not None and eng.p.tk(v.ty) not in ("ref",):
        al = eng.new_alloc(st, v, "box")
        return st, eng.ref(al, (), call.dty)
    if eng.p.tk(call.dty) in ("uint", "int", "float"):
        if isc(v): return st, const(v.a[0], call.dty)
        return st, mk("op", ("cast", v), call.dty)
    if c["k"] == "unresolved":
        eng.emit(st, "convert", v, call.dty)
    return st, mk("op", ("convert", v), call.dty)


@model("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def m_try(eng, st, call):
    if call.c.get("b") in eng.p.bodies: return None
    v = call.args[0]
    vs = eng.p.field_ty(call.dty, 0, 0)
    es = eng.p.field_ty(call.dty, 1, 0)
    s2 = st.copy()
    eng.emit(st, "tryconvert", v, vs, 1)
    eng.emit(s2, "tryconvert", v, vs, 0)
    if isc(v): return st, ok(eng, call.dty, const(v.a[0], vs))
    return [(st, ok(eng, call.dty, mk("op", ("tryconvert", v), vs))), (s2, err(eng, call.dty, mk("op", ("tryerr", v), es)))]


def scalar(eng, v):
    t = eng.p.types[v.ty]["k"] if v.ty is not None else None
    return t in ("int", "uint", "bool", "char", "float", "param") or v.op == "int"


CMPOP = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}


@model(*["core::cmp::PartialEq::" + n for n in ("eq", "ne")] + ["core::cmp::PartialOrd::" + n for n in ("lt", "le", "gt", "ge")])
def m_cmp(eng, st, call):
    c = call.c
    if c.get("b") in eng.p.bodies: return None
    a, b = place(eng, st, call.args[0])[2], place(eng, st, call.args[1])[2]
    n = call.name
    ci = eng.method_callee(a.ty, "core::cmp::PartialEq", "eq") if n == "ne" else None
    if ci is not None:
        outs = eng.call(st, ci, list(call.args), eng.p.bool_ty, call.line, call.frame)
        return [Out(o.st, o.kind, eng.simp(o.st, mk("op", ("Not", o.val), eng.p.bool_ty)) if o.kind == "ret" and not isc(o.val) else (const(1 - o.val.a[0], eng.p.bool_ty) if o.kind == "ret" else o.val)) for o in outs]
    # lt/le/.. of a local type through its partial_cmp
    if n in ("lt", "le", "gt", "ge"):
        ci = eng.method_callee(a.ty, "core::cmp::PartialOrd", "partial_cmp")
        if ci is not None:
            res = []
            for o in eng.call(st, ci, list(call.args), eng.p.callees[ci].get("out"), call.line, call.frame):
                if o.kind != "ret": res.append(o); continue
                for s, ov in eng.variant_split(o.st, o.val):
                    if ov.op != "agg": return None
                    if ov.a[0] == 0: res.append(Out(s, "ret", const(0, eng.p.bool_ty))); continue
                    for s2, d in eng.ordering_split(s, ov.a[1]):
                        res.append(Out(s2, "ret", const(int({"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[n]), eng.p.bool_ty)))
            return res
    # structural comparison of enums / tuples of known shape
    if n in ("eq", "ne"):
        r = struct_eq(eng, st, a, b)
        if r is not None:
            return [(s, const(v if n == "eq" else 1 - v, eng.p.bool_ty)) for s, v in r]
    return st, eng.binop(st, CMPOP[n], a, b, eng.p.bool_ty)


def flat_enum(eng, ty, path):
    """A library's enum without data, whose equality is that of its variants."""
    return (path or "").startswith(("crossbeam", "core::", "alloc::", "std::")) and eng.p.is_enum(ty) and all(eng.p.nfields(ty, i) == 0 for i in range(len(eng.p.variants(ty) or [])))


def struct_eq(eng, st, a, b):
    """Equality of Option-like external enums by variants; None when it should stay a term."""
    p = eng.p.adt(a.ty)
    if p not in ("core::option::Option", "core::cmp::Ordering", "core::result::Result") and not (eng.p.tk(a.ty) == "tuple") and not flat_enum(eng, a.ty, p): return None
    res = []
    if eng.p.tk(a.ty) == "tuple":
        n = len(eng.p.types[a.ty]["ts"])
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            if i == n: res.append((s, 1)); continue
            x = eng.step(s, a, ("f", 0, i)); y = eng.step(s, b, ("f", 0, i))
            r = struct_eq(eng, s, x, y)
            if r is None: r = eng.truth_split(s, eng.binop(s, "Eq", x, y, eng.p.bool_ty))
            for s2, v in r:
                if v: work.append((s2, i + 1))
                else: res.append((s2, 0))
        return res
    for s, x in eng.variant_split(st, a):
        for s2, y in eng.variant_split(s, b):
            if x.op != "agg" or y.op != "agg": return None
            if x.a[0] != y.a[0]: res.append((s2, 0)); continue
            if len(x.a) == 1: res.append((s2, 1)); continue
            r = struct_eq(eng, s2, x.a[1], y.a[1])
            if r is None: r = eng.truth_split(s2, eng.binop(s2, "Eq", x.a[1], y.a[1], eng.p.bool_ty))
            res += r
    return res


@model("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def m_ordcmp(eng, st, call):
    a, b = place(eng, st, call.args[0])[2], place(eng, st, call.args[1])[2]
    if a.ty == eng.p.bool_ty and call.name == "cmp":
        res = []
        for s, x in eng.truth_split(st, a):
            for s2, y in eng.truth_split(s, b): res.append((s2, mk("agg", (1 + (x > y) - (x < y),), call.dty)))
        return res
    if call.c.get("b") in eng.p.bodies: return None
    oty = call.dty if call.name == "cmp" else eng.p.field_ty(call.dty, 1, 0)
    v = mk("op", ("Cmp", a, b), oty)
    return st, v if call.name == "cmp" else opt(eng, call.dty, v)


@model("core::cmp::Ord::max", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::min")
def m_maxmin(eng, st, call):
    if call.c.get("b") in eng.p.bodies and not scalar(eng, call.args[0]): return None
    a, b = call.args
    return minmax(eng, st, call.name, a, b, call)


def minmax(eng, st, n, a, b, call=None):
    hook = getattr(eng, "minmax_hook", {}).get(a.ty)
    if hook is not None: return [Out(st, "ret", hook(eng, st, n, a, b))]
    ci = eng.method_callee(a.ty, "core::cmp::Ord", "cmp")
    if ci is not None and not scalar(eng, a):
        al, bl = eng.new_alloc(st, a), eng.new_alloc(st, b)
        res = []
        for o in eng.call(st, ci, [eng.ref(al, ()), eng.ref(bl, ())], eng.p.callees[ci].get("out"), 0, None):
            if o.kind != "ret": res.append(o); continue
            for s, d in eng.ordering_split(o.st, o.val):
                if n == "max": res.append(Out(s, "ret", a if d > 0 else b))
                else: res.append(Out(s, "ret", b if d > 0 else a))
        return res
    if isc(a) and isc(b): return [Out(st, "ret", const((max if n == "max" else min)(a.a[0], b.a[0]), a.ty))]
    return [Out(st, "ret", eng.mxn(st, n, a, b))]


# ------------------------------------------------------------------ integers
@model(*["core::num::<impl %s>::%s" % (t, m) for t in ("u64", "usize", "u32", "i64", "i32", "u8", "u16") for m in ("saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub", "abs_diff", "pow", "div_ceil",
         "is_power_of_two", "next_power_of_two", "min", "max", "checked_sub", "checked_add", "rem_euclid", "div_euclid", "next_multiple_of", "overflowing_add", "overflowing_sub")])
def m_int(eng, st, call):
    n = call.name
    a = call.args[0]
    b = call.args[1] if len(call.args) > 1 else None
    if n in ("saturating_add",) : return st, eng.binop(st, "Add", a, b, call.dty)     # overflow is ignored throughout
    if n in ("min", "max"): return st, eng.mxn(st, n, a, b)
    if n in ("saturating_sub", "wrapping_sub"):
        res = []
        for s, v in eng.truth_split(st, mk("op", ("Le", b, a), eng.p.bool_ty)):
            res.append((s, eng.binop(s, "Sub", a, b, a.ty) if v else (const(0, a.ty) if n == "saturating_sub" else mk("op", (n, a, b), call.dty))))
        return res
    if n == "checked_sub":
        res = []
        for s, v in eng.truth_split(st, mk("op", ("Le", b, a), eng.p.bool_ty)):
            res.append((s, opt(eng, call.dty, eng.binop(s, "Sub", a, b, a.ty)) if v else opt(eng, call.dty)))
        return res
    if n == "checked_add": return [(st.copy(), opt(eng, call.dty)), (st, opt(eng, call.dty, eng.binop(st, "Add", a, b, a.ty)))]
    if n in ("rem_euclid", "div_euclid") and "impl u" in call.c["p"]:
        return st, eng.binop(st, "Rem" if n == "rem_euclid" else "Div", a, b, call.dty)
    return st, mk("op", (n,) + tuple(call.args), call.dty)


for _t, _o in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem"), ("BitAnd", "bitand"), ("BitOr", "bitor"), ("BitXor", "bitxor"), ("Shl", "shl"), ("Shr", "shr")):
    def _m(eng, st, call, op=_t):
        if call.c.get("b") in eng.p.bodies: return None
        a, b = call.args
        if a.op == "ref" or eng.p.tk(a.ty) == "ref": a = place(eng, st, a)[2]
        if b.op == "ref" or eng.p.tk(b.ty) == "ref": b = place(eng, st, b)[2]
        if eng.p.tk(a.ty) in ("uint", "int") or isc(a): return st, eng.binop(st, op, a, b, call.dty)
        eng.emit(st, "arith", op, a, b)
        return st, mk("op", ("user" + op, a, b), call.dty)
    for _pre in ("core::ops::arith::", "core::ops::bit::"):
        M[_pre + _t + "::" + _o] = _m

    def _ma(eng, st, call, op=_t):
        if call.c.get("b") in eng.p.bodies: return None
        al, path = eng.deref(st, call.args[0])
        a = eng.load(st, al, path)
        b = call.args[1]
        if b.op == "ref" or eng.p.tk(b.ty) == "ref": b = place(eng, st, b)[2]
        if eng.p.tk(a.ty) in ("uint", "int"): v = eng.binop(st, op, a, b, a.ty)
        else:
            eng.emit(st, "arith", op, a, b)
            v = mk("op", ("user" + op, a, b), a.ty)
        eng.write(st, al, path, v)
        return st, unit(eng)
    for _pre in ("core::ops::arith::", "core::ops::bit::"):
        M[_pre + _t + "Assign::" + _o + "_assign"] = _ma


@model("core::ops::arith::Neg::neg", "core::ops::bit::Not::not")
def m_neg(eng, st, call):
    if call.c.get("b") in eng.p.bodies: return None
    a = call.args[0]
    if eng.p.tk(a.ty) == "ref": a = place(eng, st, a)[2]
    if call.name == "not" and eng.p.tk(a.ty) == "bool": return st, eng.simp(st, mk("op", ("Not", a), call.dty)) if not isc(a) else const(1 - a.a[0], call.dty)
    return st, mk("op", ("user" + call.name, a), call.dty)


# ------------------------------------------------------------------ atomics
def atomic(eng, st, call):
    n = call.name
    al, path = eng.deref(st, call.args[0])
    cell = path + (("in", None),)
    args = call.args[1:]
    vty = call.dty if n not in ("store",) else (args[0].ty if args else None)
    if n == "load":
        r = eng.atomic_load(st, al, cell, call.dty)
        eng.emit(st, "atomic", n, eng.ref(al, path), ordname(eng, st, args[0]), r, None)
        return st, r
    if n == "store":
        eng.emit(st, "atomic", n, eng.ref(al, path), ordname(eng, st, args[1]), None, args[0])
        eng.write(st, al, cell, args[0])
        return st, unit(eng)
    if n in ("fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_max", "fetch_min", "swap"):
        old = eng.atomic_load(st, al, cell, call.dty)
        x = args[0]
        if n == "swap": new = x
        elif n == "fetch_add": new = eng.binop(st, "Add", old, x, old.ty)
        elif n == "fetch_sub": new = eng.binop(st, "Sub", old, x, old.ty)
        elif n == "fetch_or": new = eng.binop(st, "BitOr", old, x, old.ty)
        elif n == "fetch_and": new = eng.binop(st, "BitAnd", old, x, old.ty)
        else: new = eng.mxn(st, n[6:], old, x)
        eng.emit(st, "atomic", n, eng.ref(al, path), ordname(eng, st, args[1]), old, new)
        eng.write(st, al, cell, new)
        return st, old
    if n in ("compare_exchange", "compare_exchange_weak"):
        old = eng.atomic_load(st, al, cell, args[0].ty)
        res = []
        for s, t in eng.truth_split(st, eng.binop(st, "Eq", old, args[0], eng.p.bool_ty)):
            outs = [1, 0] if t and n.endswith("weak") else [t]
            for k in outs:
                s2 = s.copy()
                if k:
                    eng.emit(s2, "atomic", n, eng.ref(al, path), ordname(eng, st, args[2]), old, args[1])
                    eng.write(s2, al, cell, args[1])
                    res.append((s2, ok(eng, call.dty, old)))
                else:
                    eng.emit(s2, "atomic", "load", eng.ref(al, path), ordname(eng, st, args[3]), old, None)
                    res.append((s2, err(eng, call.dty, old)))
        return res
    if n in ("get_mut", "as_ptr"): return st, eng.ref(al, cell, call.dty)
    if n == "into_inner": return st, eng.step(st, call.args[0], ("in", None))
    return None


def fetch_update(eng, st, call):
    """One successful exchange of the value the function was given for the one it returned, or none when it declined."""
    al, path = eng.deref(st, call.args[0])
    cell = path + (("in", None),)
    old = eng.atomic_load(st, al, cell, eng.p.types[call.dty]["a"][0])
    res = []
    for o in eng.call_value(st, call.args[3], [old], eng.closure_ret(call.args[3]), call.line, call.frame):
        if o.kind != "ret": res.append(o); continue
        for s, x in eng.variant_split(o.st, o.val):
            if x.op == "agg" and x.a[0] == 1:
                new = eng.resolve(s, x.a[1])
                eng.emit(s, "atomic", "fetch_update", eng.ref(al, path), ordname(eng, st, call.args[1]), old, new)
                eng.write(s, al, cell, new)
                res.append(Out(s, "ret", ok(eng, call.dty, old)))
            else:
                eng.emit(s, "atomic", "load", eng.ref(al, path), ordname(eng, st, call.args[2]), old, None)
                res.append(Out(s, "ret", err(eng, call.dty, old)))
    return res


for _t in ("bool", "u64", "usize", "u32", "i64"):
    for _n in ("fetch_update", "try_update"): M["core::sync::atomic::Atomic::<%s>::%s" % (_t, _n)] = fetch_update
    for _n in ("load", "store", "fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_max", "fetch_min", "swap", "compare_exchange", "compare_exchange_weak", "get_mut"):
        M["core::sync::atomic::Atomic::<%s>::%s" % (_t, _n)] = atomic


def ordname(eng, st, v):
    v = eng.resolve(st, v)
    if v.op == "agg" and v.ty is not None: return eng.p.variants(v.ty)[v.a[0]][0]
    return show(v)


@model("core::sync::atomic::fence")
def m_fence(eng, st, call):
    eng.emit(st, "fence", ordname(eng, st, call.args[0]))
    return st, unit(eng)


# ------------------------------------------------------------------ locks
def guard(eng, st, call, kind, gty):
    al, path, _ = place(eng, st, call.args[0])
    g = mk("guard", (al, path, uid()), gty)
    if eng.lock_havoc: eng.lock_havoc(st, al, path)
    inner = path + (("in", eng.p.types[gty]["a"][-1]),)
    eng.emit(st, "lock", kind, eng.ref(al, path), g, eng.load(st, al, inner), eng.ref(al, inner))
    return g


@model("lock_api::mutex::Mutex::<R, T>::lock")
def m_pl_lock(eng, st, call): return st, guard(eng, st, call, "lock", call.dty)


@model("lock_api::mutex::Mutex::<R, T>::try_lock")
def m_pl_try(eng, st, call):
    s2 = st.copy()
    eng.emit(s2, "trylock_failed", eng.ref(*place(eng, s2, call.args[0])[:2]))
    return [(st, opt(eng, call.dty, guard(eng, st, call, "trylock", eng.p.field_ty(call.dty, 1, 0)))), (s2, opt(eng, call.dty))]


@model("std::sync::poison::mutex::Mutex::<T>::lock", "std::sync::poison::rwlock::RwLock::<T>::read", "std::sync::poison::rwlock::RwLock::<T>::write")
def m_std_lock(eng, st, call):
    return st, ok(eng, call.dty, guard(eng, st, call, call.name, eng.p.field_ty(call.dty, 0, 0)))


@model("std::sync::poison::mutex::Mutex::<T>::try_lock", "std::sync::poison::rwlock::RwLock::<T>::try_read", "std::sync::poison::rwlock::RwLock::<T>::try_write")
def m_std_try(eng, st, call):
    s2 = st.copy()
    eng.emit(s2, "trylock_failed", eng.ref(*place(eng, s2, call.args[0])[:2]))
    return [(st, ok(eng, call.dty, guard(eng, st, call, "trylock", eng.p.field_ty(call.dty, 0, 0)))), (s2, err(eng, call.dty, sym("wouldblock", eng.p.field_ty(call.dty, 1, 0))))]


@model("std::sync::poison::mutex::Mutex::<T>::into_inner", "std::sync::poison::rwlock::RwLock::<T>::into_inner")
def m_lock_inner(eng, st, call):
    return st, ok(eng, call.dty, eng.step(st, call.args[0], ("in", None)))


# ------------------------------------------------------------------ vectors, slices
def length(eng, st, v): return eng.length(st, v)


@model("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity", "std::collections::hash::map::HashMap::<K, V>::new", "std::collections::hash::map::HashMap::<K, V>::with_capacity",
       "std::collections::hash::set::HashSet::<T>::new", "std::collections::hash::set::HashSet::<T>::with_capacity", "alloc::collections::vec_deque::VecDeque::<T>::with_capacity",
       "alloc::collections::vec_deque::VecDeque::<T>::new", "alloc::string::String::new", "alloc::collections::btree::map::BTreeMap::<K, V>::new", "alloc::collections::btree::set::BTreeSet::<T>::new",
       "alloc::string::String::with_capacity")
def m_empty(eng, st, call):
    return st, mk("empty", (), call.dty)


@model("alloc::vec::Vec::<T, A>::push", "alloc::collections::vec_deque::VecDeque::<T, A>::push_back")
def m_push(eng, st, call):
    al, path, v = place(eng, st, call.args[0])
    eng.emit(st, "push", eng.ref(al, path), call.args[1], v)
    eng.write(st, al, path, mk("push", (v, call.args[1]), v.ty))
    return st, unit(eng)


@model("alloc::vec::Vec::<T, A>::pop", "alloc::collections::vec_deque::VecDeque::<T, A>::pop_front", "alloc::collections::vec_deque::VecDeque::<T, A>::pop_back")
def m_pop(eng, st, call):
    al, path, v = place(eng, st, call.args[0])
    n = call.name
    if v.op == "empty": return st, opt(eng, call.dty)
    if v.op == "push" and n != "pop_front":
        eng.emit(st, "pop", eng.ref(al, path), v.a[1], n)
        eng.write(st, al, path, v.a[0])
        return st, opt(eng, call.dty, v.a[1])
    res = []
    for s, t in eng.truth_split(st, eng.binop(st, "Eq", length(eng, st, v), const(0, eng.p.usize_ty), eng.p.bool_ty)):
        if t: res.append((s, opt(eng, call.dty)))
        else:
            x = mk("op", ("popped", v, mk("str", (n,))), eng.p.field_ty(call.dty, 1, 0))
            eng.emit(s, "pop", eng.ref(al, path), x, n)
            eng.write(s, al, path, mk("popd", (v, n), v.ty))
            res.append((s, opt(eng, call.dty, x)))
    return res


@model("alloc::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "alloc::collections::vec_deque::VecDeque::<T, A>::len", "std::collections::hash::map::HashMap::<K, V, S, A>::len",
       "std::collections::hash::set::HashSet::<T, S, A>::len", "core::str::<impl str>::len", "alloc::string::String::len")
def m_len(eng, st, call):
    al, path, v = place(eng, st, call.args[0])
    return st, length(eng, st, v)


@model("alloc::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "alloc::collections::vec_deque::VecDeque::<T, A>::is_empty", "std::collections::hash::map::HashMap::<K, V, S, A>::is_empty",
       "std::collections::hash::set::HashSet::<T, S, A>::is_empty")
def m_is_empty(eng, st, call):
    al, path, v = place(eng, st, call.args[0])
    return st, eng.binop(st, "Eq", length(eng, st, v), const(0, eng.p.usize_ty), eng.p.bool_ty)


@model("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last_mut", "core::slice::<impl [T]>::first_mut",
       "alloc::collections::vec_deque::VecDeque::<T, A>::back", "alloc::collections::vec_deque::VecDeque::<T, A>::front", "alloc::collections::vec_deque::VecDeque::<T, A>::back_mut",
       "alloc::collections::vec_deque::VecDeque::<T, A>::front_mut")
def m_last(eng, st, call):
    al, path, v = place(eng, st, call.args[0])
    n = length(eng, st, v)
    last = call.name.startswith(("last", "back"))
    res = []
    for s, t in eng.truth_split(st, eng.binop(st, "Eq", n, const(0, eng.p.usize_ty), eng.p.bool_ty)):
        if t: res.append((s, opt(eng, call.dty))); continue
        if last and v.op == "push":
            a2 = eng.new_alloc(s, v.a[1])
            res.append((s, opt(eng, call.dty, eng.ref(a2, ())))); continue
        i = eng.binop(s, "Sub", n, const(1, eng.p.usize_ty), eng.p.usize_ty) if last else const(0, eng.p.usize_ty)
        res.append((s, opt(eng, call.dty, eng.ref(al, path + (("ix", i),), eng.p.field_ty(call.dty, 1, 0)))))
    return res


def is_range(eng, ty):
    p = eng.p.adt(ty)
    return p is not None and p.startswith("core::ops::range::Range")


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "alloc::collections::vec_deque::VecDeque::<T, A>::get")
def m_get(eng, st, call):
    al, path, v = place(eng, st, call.args[0])
    i = call.args[1]
    if is_range(eng, i.ty): return None
    res = []
    for s, t in eng.truth_split(st, mk("op", ("Lt", i, length(eng, st, v)), eng.p.bool_ty)):
        if t: res.append((s, opt(eng, call.dty, eng.ref(al, path + (("ix", i),), eng.p.field_ty(call.dty, 1, 0)))))
        else: res.append((s, opt(eng, call.dty)))
    return res


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def m_index(eng, st, call):
    if call.c.get("b") in eng.p.bodies: return None
    al, path, v = place(eng, st, call.args[0])
    i = call.args[1]
    p = eng.p.adt(v.ty) or ""
    if "hash::map" in p or "btree::map" in p:
        k = place(eng, st, i)[2]
        return map_get(eng, st, call, al, path, v, k, True)
    if is_range(eng, i.ty):
        eng.emit(st, "slice_range", v, i)
        a2 = eng.new_alloc(st, mk("op", ("range", v, i), eng.pointee(call.dty)))
        return st, eng.ref(a2, (), call.dty)
    if eng.p.tk(i.ty) not in ("uint", None) and not isc(i):
        eng.emit(st, "call", call.c["p"], tuple(call.args), None, call.c)
        return st, eng.ref(al, path + (("ix", i),), call.dty)
    res = []
    for s, t in eng.truth_split(st, mk("op", ("Lt", i, length(eng, st, v)), eng.p.bool_ty)):
        if t: res.append(Out(s, "ret", eng.ref(al, path + (("ix", i),), call.dty)))
        else: res.append(panic(s, "bounds"))
    return res


@model("alloc::vec::Vec::<T, A>::clear", "std::collections::hash::map::HashMap::<K, V, S, A>::clear", "std::collections::hash::set::HashSet::<T, S, A>::clear")
def m_clear(eng, st, call):
    al, path, v = place(eng, st, call.args[0])
    eng.emit(st, "clear", eng.ref(al, path), v)
    eng.write(st, al, path, mk("empty", (), v.ty))
    return st, unit(eng)


@model("alloc::vec::Vec::<T, A>::reserve", "alloc::vec::Vec::<T, A>::shrink_to_fit", "std::collections::hash::map::HashMap::<K, V, S, A>::reserve")
def m_reserve(eng, st, call): return st, unit(eng)


@model("alloc::vec::Vec::<T, A>::resize_with", "alloc::vec::Vec::<T, A>::resize")
def m_resize(eng, st, call):
    al, path, v = place(eng, st, call.args[0])
    fill = None
    if call.name == "resize": fill = call.args[2]
    else:
        outs = eng.call_value(st.copy(), call.args[2], [], None, call.line, call.frame)
        rets = [o for o in outs if o.kind == "ret"]
        if len(rets) == 1: fill = rets[0].val
    eng.emit(st, "resize", eng.ref(al, path), call.args[1], fill if fill is not None else UNDEF, v)
    if v.op == "empty":
        nv = mk("op", ("repeat", fill if fill is not None else sym("fill"), call.args[1]), v.ty)
    else: nv = mk("op", ("resized", v, fill if fill is not None else sym("fill"), call.args[1]), v.ty)
    eng.write(st, al, path, nv)
    return st, unit(eng)


@model("alloc::vec::from_elem")
def m_from_elem(eng, st, call):
    return st, mk("op", ("repeat", call.args[0], call.args[1]), call.dty)


@model("alloc::vec::Vec::<T, A>::drain", "alloc::vec::Vec::<T, A>::truncate", "alloc::vec::Vec::<T, A>::remove", "alloc::vec::Vec::<T, A>::swap_remove", "alloc::vec::Vec::<T, A>::insert",
       "alloc::vec::Vec::<T, A>::split_off", "alloc::vec::Vec::<T, A>::append", "alloc::vec::Vec::<T, A>::dedup", "alloc::slice::<impl [T]>::reverse", "alloc::slice::<impl [T]>::sort",
       "core::slice::<impl [T]>::reverse", "core::slice::<impl [T]>::swap")
def m_vec_mut(eng, st, call):
    n = call.name
    al, path, v = place(eng, st, call.args[0])
    eng.emit(st, "vec_" + n, eng.ref(al, path), v, tuple(call.args[1:]))
    if n == "drain":
        full = eng.p.adt(call.args[1].ty) == "core::ops::range::RangeFull"
        eng.write(st, al, path, mk("empty", (), v.ty) if full else sym("drained", v.ty))
        a2 = eng.new_alloc(st, v, "drain")
        return st, mk("iter", (("coll", uid(), a2, (), "val", v) if full else ("adapt", "drain", mk("iter", (("coll", uid(), a2, (), "val", v),)), uid()),))
    if n == "remove" or n == "swap_remove":
        i = call.args[1]
        x = eng.step(st, v, ("ix", i))
        eng.write(st, al, path, mk("op", (n, v, i), v.ty))
        res = []
        for s, t in eng.truth_split(st, mk("op", ("Lt", i, length(eng, st, v)), eng.p.bool_ty)):
            res.append(Out(s, "ret", x) if t else panic(s, "bounds"))
        return res
    if n == "append":
        a2, p2, w = place(eng, st, call.args[1])
        eng.write(st, al, path, mk("op", ("append", v, w), v.ty))
        eng.write(st, a2, p2, mk("empty", (), w.ty))
        return st, unit(eng)
    if n == "insert" and isc(call.args[1]) is False and call.args[1] is length(eng, st, v):
        eng.write(st, al, path, mk("push", (v, call.args[2]), v.ty))
        return st, unit(eng)
    eng.write(st, al, path, mk("op", (n, v) + tuple(a for a in call.args[1:] if isinstance(a, V)), v.ty))
    return st, unit(eng) if eng.p.tk(call.dty) == "tuple" else sym(n, call.dty)


@model("alloc::vec::Vec::<T, A>::retain", "alloc::vec::Vec::<T, A>::retain_mut", "alloc::collections::vec_deque::VecDeque::<T, A>::retain")
def m_retain(eng, st, call):
    al, path, v = place(eng, st, call.args[0])
    f = call.args[1]
    it = mk("iter", (("coll", uid(), al, path, "ref", v),))

    def body(s, e):
        r = []
        for o in eng.call_value(s, f, [e], eng.p.bool_ty, call.line, call.frame):
            if o.kind != "ret": r.append(("panic", o.st, o.val)); continue
            for s2, t in eng.truth_split(o.st, o.val):
                eng.emit(s2, "keep" if t else "discard", e, it)
                r.append(("back", s2, const(t, eng.p.bool_ty)))
        return r
    outs, rec = consume(eng, st, it, body, "retain", call)
    res = []
    for kind, s, x in outs:
        if kind == "panic": res.append(panic(s, x)); continue
        eng.emit(s, "retained", eng.ref(al, path), rec)
        eng.write(s, al, path, mk("retain", (v, rec.serial), v.ty))
        res.append(Out(s, "ret", unit(eng)))
    return res


# ------------------------------------------------------------------ maps and sets
def map_get(eng, st, call, al, path, m, k, must=False, mode="ref"):
    w = m
    while w.op == "upd":
        if w.a[1] is k:
            r = eng.ref(al, path + (("ix", k),), None)
            if must: return st, r
            return st, opt(eng, call.dty, r)
        break
    if m.op == "empty":
        return [panic(st, "no key")] if must else [(st, opt(eng, call.dty))]
    t = mk("op", ("haskey", m, k), eng.p.bool_ty)
    res = []
    for s, b in eng.truth_split(st, t):
        if b:
            r = eng.ref(al, path + (("ix", k),), None)
            res.append(Out(s, "ret", r if must else opt(eng, call.dty, r)))
        else: res.append(panic(s, "no key") if must else Out(s, "ret", opt(eng, call.dty)))
    return res


@model("std::collections::hash::map::HashMap::<K, V, S, A>::get", "std::collections::hash::map::HashMap::<K, V, S, A>::get_mut", "std::collections::hash::map::HashMap::<K, V, S>::get",
       "std::collections::hash::set::HashSet::<T, S, A>::get")
def m_map_get(eng, st, call):
    al, path, m = place(eng, st, call.args[0])
    k = place(eng, st, call.args[1])[2]
    return map_get(eng, st, call, al, path, m, k)


@model("std::collections::hash::map::HashMap::<K, V, S, A>::contains_key", "std::collections::hash::set::HashSet::<T, S, A>::contains", "core::slice::<impl [T]>::contains",
       "alloc::collections::vec_deque::VecDeque::<T, A>::contains")
def m_contains(eng, st, call):
    al, path, m = place(eng, st, call.args[0])
    k = place(eng, st, call.args[1])[2]
    if m.op == "empty": return st, const(0, eng.p.bool_ty)
    w = m
    while w.op == "upd":
        if w.a[1] is k: return st, const(1, eng.p.bool_ty)
        w = w.a[0]
    if "slice" in call.c["p"] or "vec_deque" in call.c["p"]:
        return st, mk("op", ("contains", m, k), eng.p.bool_ty)
    return st, eng.simp(st, mk("op", ("haskey", m, k), eng.p.bool_ty))


@model("std::collections::hash::map::HashMap::<K, V, S, A>::insert", "std::collections::hash::set::HashSet::<T, S, A>::insert", "alloc::collections::btree::map::BTreeMap::<K, V, A>::insert")
def m_insert(eng, st, call):
    al, path, m = place(eng, st, call.args[0])
    k = call.args[1]
    v = call.args[2] if len(call.args) > 2 else unit(eng)
    eng.emit(st, "insert", eng.ref(al, path), k, v, m)
    res = []
    had = const(0, eng.p.bool_ty) if m.op == "empty" else mk("op", ("haskey", m, k), eng.p.bool_ty)
    for s, b in eng.truth_split(st, had):
        old = eng.step(s, m, ("ix", k)) if b else None
        eng.write(s, al, path, mk("upd", (m, k, v), m.ty))
        if len(call.args) > 2: res.append((s, opt(eng, call.dty, old)))
        else: res.append((s, const(1 - b, eng.p.bool_ty)))
    return res


@model("std::collections::hash::map::HashMap::<K, V, S, A>::remove", "std::collections::hash::set::HashSet::<T, S, A>::remove")
def m_remove(eng, st, call):
    al, path, m = place(eng, st, call.args[0])
    k = place(eng, st, call.args[1])[2]
    eng.emit(st, "remove", eng.ref(al, path), k, m)
    res = []
    for s, b in eng.truth_split(st, mk("op", ("haskey", m, k), eng.p.bool_ty)):
        old = eng.step(s, m, ("ix", k))
        if b: eng.write(s, al, path, mk("op", ("removed", m, k), m.ty))
        if "map" in call.c["p"]: res.append((s, opt(eng, call.dty, old if b else None)))
        else: res.append((s, const(b, eng.p.bool_ty)))
    return res


@model("std::collections::hash::map::HashMap::<K, V, S, A>::entry", "std::collections::hash::map::HashMap::<K, V, S>::entry")
def m_entry(eng, st, call):
    al, path, m = place(eng, st, call.args[0])
    return st, mk("entry", (al, path, call.args[1]), call.dty)


def entry_or(eng, st, call):
    e = call.args[0]
    if e.op != "entry": return None
    al, path, k = e.a
    m = eng.load(st, al, path)
    w = m
    n = call.name
    present = None
    while w.op == "upd":
        if w.a[1] is k: present = 1
        w = w.a[0]
    had = const(1, eng.p.bool_ty) if present else (const(0, eng.p.bool_ty) if m.op == "empty" else mk("op", ("haskey", m, k), eng.p.bool_ty))
    res = []
    for s, b in eng.truth_split(st, had):
        r = eng.ref(al, path + (("ix", k),), call.dty)
        if b: res.append(Out(s, "ret", r)); continue
        if n == "or_insert": outs = [Out(s, "ret", call.args[1])]
        elif n == "or_insert_with": outs = eng.call_value(s, call.args[1], [], eng.pointee(call.dty), call.line, call.frame)
        else: outs = default_of(eng, s, eng.pointee(call.dty), call)
        for o in outs:
            if o.kind != "ret": res.append(o); continue
            eng.emit(o.st, "insert", eng.ref(al, path), k, o.val, m)
            eng.write(o.st, al, path, mk("upd", (m, k, o.val), m.ty))
            res.append(Out(o.st, "ret", r))
    return res


for _n in ("or_insert", "or_insert_with", "or_default"):
    for _pre in ("std::collections::hash::map::Entry::<'a, K, V>::", "std::collections::hash::map::Entry::<'a, K, V, A>::"): M[_pre + _n] = entry_or


# ------------------------------------------------------------------ iterators
def it_mk(*a): return mk("iter", (a,))


@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::collections::hash::map::HashMap::<K, V, S, A>::iter", "std::collections::hash::map::HashMap::<K, V, S, A>::values",
       "std::collections::hash::map::HashMap::<K, V, S, A>::keys", "std::collections::hash::set::HashSet::<T, S, A>::iter", "alloc::collections::vec_deque::VecDeque::<T, A>::iter",
       "std::collections::hash::map::HashMap::<K, V, S, A>::values_mut", "std::collections::hash::map::HashMap::<K, V, S, A>::iter_mut", "alloc::collections::vec_deque::VecDeque::<T, A>::iter_mut",
       "core::option::Option::<T>::iter", "core::option::Option::<T>::iter_mut")
def m_iter(eng, st, call):
    al, path, v = place(eng, st, call.args[0])
    p = call.c["p"]
    mode = "ref"
    if "hash::map" in p: mode = {"iter": "kv", "iter_mut": "kv", "values": "v", "values_mut": "v", "keys": "k"}[call.name]
    elif "hash::set" in p: mode = "k"
    elif "option" in p: return st, it_mk("option", uid(), v, al, path)
    return st, it_mk("coll", uid(), al, path, mode, v)


@model("std::collections::hash::map::HashMap::<K, V, S, A>::into_values", "std::collections::hash::map::HashMap::<K, V, S, A>::into_keys")
def m_into_values(eng, st, call):
    al = eng.new_alloc(st, call.args[0])
    return st, it_mk("coll", uid(), al, (), "vval" if call.name == "into_values" else "kval", call.args[0])


def as_iter(eng, st, v):
    """IntoIterator of a value."""
    if v.op == "iter": return v
    ty = v.ty
    t = eng.p.types[ty] if ty is not None else None
    k = t["k"] if t else None
    if is_range(eng, ty):
        vv = eng.resolve(st, v)
        if vv.op != "agg": vv = eng.expand(vv)
        return it_mk("range", uid(), vv.a[1], vv.a[2] if len(vv.a) > 2 else None, t["p"].endswith("RangeInclusive"))
    if k == "ref" or v.op == "ref":
        al, path = eng.deref(st, v)
        w = eng.load(st, al, path)
        if w.op == "iter": return it_mk("byref", uid(), w)
        if w.op == "ref" or eng.p.tk(w.ty) == "ref":
            al, path, w = place(eng, st, v)
        p = eng.p.adt(w.ty) or ""
        if p == "core::option::Option": return it_mk("option", uid(), w, al, path)
        mode = "kv" if "hash::map" in p or "btree::map" in p else ("k" if "hash::set" in p or "btree::set" in p else "ref")
        if k == "ref" and w.ty is not None and eng.p.tk(w.ty) not in ("slice", "array", "adt"): return it_mk("ext", uid(), w)
        return it_mk("coll", uid(), al, path, mode, w)
    p = t.get("p", "") if t else ""
    if p == "core::option::Option": return it_mk("option", uid(), v, None, None)
    if k == "array" or p in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque") or v.op in ("empty", "push", "collect"):
        al = eng.new_alloc(st, v, "into")
        return it_mk("coll", uid(), al, (), "val", v)
    if "hash::map::HashMap" in p or "hash::set::HashSet" in p:
        al = eng.new_alloc(st, v, "into")
        return it_mk("coll", uid(), al, (), "kvval" if "map" in p else "kval", v)
    if p in ("core::option::IntoIter", "core::result::IntoIter"):
        o = v
        while o is not None and o.ty is not None and eng.p.adt(o.ty) not in ("core::option::Option", None): o = eng.step(st, o, ("f", 0, 0))
        if o is not None and o.ty is not None and eng.p.adt(o.ty) == "core::option::Option": return it_mk("option", uid(), o, None, None)
    if p in ("core::result::Result",): return it_mk("option", uid(), v, None, None)
    return it_mk("ext", uid(), v)


@model("core::iter::traits::collect::IntoIterator::into_iter")
def m_into_iter(eng, st, call):
    if call.c.get("b") in eng.p.bodies and not eng.p.bodies[call.c["b"]]["p"].startswith("<I as"): return None
    v = call.args[0]
    if v.op == "iter": return st, v
    if call.c["k"] == "unresolved" or (v.ty is not None and eng.p.tk(v.ty) == "param"):
        eng.emit(st, "into_iter", v)
        return st, it_mk("ext", uid(), v)
    return st, as_iter(eng, st, v)


def base_iter(eng, st, v):
    return v if v.op == "iter" else as_iter(eng, st, v)


ADAPT1 = {"map": "map", "filter": "filter", "filter_map": "filter_map", "flat_map": "flat_map", "inspect": "inspect"}


def adaptor(eng, st, call):
    n = call.name
    b = base_iter(eng, st, call.args[0])
    if n in ADAPT1: return st, it_mk(n, uid(), b, call.args[1])
    if n == "enumerate": return st, it_mk("enum", uid(), b)
    if n in ("copied", "cloned"): return st, it_mk("copied", uid(), b)
    if n == "rev": return st, it_mk("rev", uid(), b)
    if n in ("fuse", "by_ref", "peekable"): return st, b if n == "fuse" else it_mk("adapt", n, b, uid())
    if n in ("chain", "zip"): return st, it_mk(n, uid(), b, base_iter(eng, st, call.args[1]))
    if n == "flatten": return st, it_mk("flat_map", uid(), b, None)
    return st, it_mk("adapt", n, b, uid(), *call.args[1:2])


for _n in ("map", "filter", "filter_map", "flat_map", "inspect", "enumerate", "copied", "cloned", "rev", "fuse", "by_ref", "peekable", "chain", "zip", "flatten", "take", "skip", "step_by",
           "take_while", "skip_while", "map_while", "scan", "cycle"):
    M["core::iter::traits::iterator::Iterator::" + _n] = adaptor


def _unresolved_guard(f):
    return f


@model("core::iter::sources::once::once", "core::iter::sources::empty::empty", "core::iter::sources::repeat::repeat")
def m_once(eng, st, call):
    if call.name == "repeat": return st, it_mk("ext", uid(), call.args[0])
    v = mk("agg", (0,) + tuple(call.args), None)
    al = eng.new_alloc(st, v)
    return st, it_mk("coll", uid(), al, (), "val", v)


def elem(eng, st, al, path, mode, v, k):
    """Element k of a collection in an iteration mode."""
    ety = eng.elem_ty(v.ty)
    if mode == "ref": return eng.ref(al, path + (("ix", k),), None)
    if mode == "val": return eng.load(st, al, path + (("ix", k),))
    kr = eng.ref(eng.new_alloc(st, k, "key"), ())
    if mode == "k": return kr
    vr = eng.ref(al, path + (("ix", k),), None)
    if mode == "v": return vr
    if mode == "kv": return mk("agg", (0, kr, vr), None)
    val = eng.load(st, al, path + (("ix", k),))
    if mode == "kval": return k
    if mode == "vval": return val
    return mk("agg", (0, k, val), None)


def iter_next(eng, st, it):
    """[(state, 'some'|'none'|'panic', value, position)]"""
    if it.op != "iter":
        eng.emit(st, "next", it, None, None)
        s2 = st.copy()
        eng.emit(s2, "exhausted", it)
        return [(st, "some", sym("item"), None), (s2, "none", None, None)]
    d = it.a[0]
    k = d[0]
    if k == "few": return iter_next(eng, st, d[2])
    if k == "coll":
        _, _, al, path, mode, v = d
        if v.op == "agg" and mode in ("ref", "val"):
            res = []
            for i in range(len(v.a) - 1):
                s = st.copy()
                ix = const(i, eng.p.usize_ty)
                e = elem(eng, s, al, path, mode, v, ix)
                eng.emit(s, "next", it, e, ix)
                res.append((s, "some", e, ix))
            eng.emit(st, "exhausted", it)
            res.append((st, "none", None, None))
            return res
        s2 = st.copy()
        eng.emit(s2, "exhausted", it)
        res = [(s2, "none", None, None)]
        if v.op == "empty": return res
        kt = None
        if mode in ("k", "v", "kv", "kval", "vval", "kvval"):
            kt = eng.p.types[v.ty]["a"][0] if v.ty is not None and eng.p.types[v.ty]["k"] == "adt" and eng.p.types[v.ty]["a"] else None
            ix = sym("key", kt)
            st.truth[mk("op", ("haskey", v, ix), eng.p.bool_ty)] = 1
        else:
            ix = sym("i", eng.p.usize_ty)
            eng.le(st, ix, length(eng, st, v), 0, True)
        e = elem(eng, st, al, path, mode, v, ix)
        eng.emit(st, "next", it, e, ix)
        if v.op == "collect": eng.elem_facts(st, v, e if mode == "val" else eng.load(st, al, path + (("ix", ix),)))
        res.append((st, "some", e, ix))
        return res
    if k == "option":
        _, _, v, al, path = d
        res = []
        w = v if al is None else eng.load(st, al, path)
        for s, o in eng.variant_split(st, w):
            some = 0 if eng.p.adt(w.ty) == "core::result::Result" else 1
            s2 = s.copy()
            eng.emit(s2, "exhausted", it)
            res.append((s2, "none", None, None))
            if o.op == "agg" and o.a[0] == some:
                e = o.a[1] if al is None else eng.ref(al, path + (("f", some, 0, None),))
                eng.emit(s, "next", it, e, const(0))
                res.append((s, "some", e, const(0, eng.p.usize_ty)))
        return res
    if k == "range":
        _, _, lo, hi, incl = d
        s2 = st.copy()
        eng.emit(s2, "exhausted", it)
        i = sym("i", lo.ty)
        eng.le(st, lo, i)
        if hi is not None:
            cond = mk("op", ("Le" if incl else "Lt", i, hi), eng.p.bool_ty)
            cond0 = mk("op", ("Le" if incl else "Lt", lo, hi), eng.p.bool_ty)
            if not eng.assume(st, cond0, 1): return [(s2, "none", None, None)]
            if not eng.assume(st, cond, 1): return [(s2, "none", None, None)]
        eng.emit(st, "next", it, i, i)
        return [(s2, "none", None, None), (st, "some", i, i)]
    if k == "ext":
        s2 = st.copy()
        eng.emit(s2, "exhausted", it)
        ty = eng.ext_item_ty(d[2])
        e = sym("item", ty)
        eng.emit(st, "next", it, e, None)
        return [(st, "some", e, None), (s2, "none", None, None)]
    if k in ("map", "inspect"):
        res = []
        for s, kind, e, pos in iter_next(eng, st, d[2]):
            if kind != "some": res.append((s, kind, e, pos)); continue
            arg = e
            if k == "inspect": arg = eng.ref(eng.new_alloc(s, e), ())
            for o in eng.call_value(s, d[3], [arg], eng.closure_ret(d[3]), 0, None):
                if o.kind != "ret": res.append((o.st, "panic", o.val, None))
                else: res.append((o.st, "some", o.val if k == "map" else e, pos))
        return res
    if k == "copied":
        return [(s, kind, eng.load(s, *eng.deref(s, e)) if kind == "some" else e, pos) for s, kind, e, pos in iter_next(eng, st, d[2])]
    if k == "enum":
        res = []
        for s, kind, e, pos in iter_next(eng, st, d[2]):
            if kind == "some":
                n = pos if pos is not None and simple_source(d[2]) else sym("n", eng.p.usize_ty)
                e = mk("agg", (0, n, e), None)
            res.append((s, kind, e, pos))
        return res
    if k == "rev":
        eng.emit(st, "reversed", it)
        return iter_next(eng, st, d[2])
    if k == "byref": return iter_next(eng, st, d[2])
    if k == "chain":
        res = []
        for s, kind, e, pos in iter_next(eng, st, d[2]):
            if kind == "none": res += [(a, b, c, None) for a, b, c, _ in iter_next(eng, s, d[3])]
            else: res.append((s, kind, e, None))
        return res
    if k == "zip":
        res = []
        for s, kind, e, pos in iter_next(eng, st, d[2]):
            if kind != "some": res.append((s, kind, e, pos)); continue
            src2 = d[3]
            same = pos is not None and src2.a[0][0] == "coll" and simple_source(d[2])
            if same:
                # lockstep: same position in the second collection
                d2 = src2.a[0]
                n2 = length(eng, s, d2[5])
                for s2, t in eng.truth_split(s, mk("op", ("Lt", pos, n2), eng.p.bool_ty)):
                    if t:
                        e2 = elem(eng, s2, d2[2], d2[3], d2[4], d2[5], pos)
                        eng.emit(s2, "next", src2, e2, pos)
                        res.append((s2, "some", mk("agg", (0, e, e2), None), pos))
                    else:
                        eng.emit(s2, "exhausted", src2); res.append((s2, "none", None, None))
                continue
            for s2, kind2, e2, pos2 in iter_next(eng, s, src2):
                if kind2 == "some": res.append((s2, "some", mk("agg", (0, e, e2), None), pos))
                else: res.append((s2, kind2, e2, None))
        return res
    if k in ("filter", "filter_map", "flat_map"):
        rec = Loop(None, uid())
        rec.kind, rec.src = k, it

        def once(s0):
            r = []
            for s, kind, e, pos in iter_next(eng, s0, d[2]):
                if kind != "some": r.append((kind, s, (e, pos))); continue
                if k == "flat_map":
                    outs = [Out(s, "ret", e)] if d[3] is None else eng.call_value(s, d[3], [e], eng.closure_ret(d[3]), 0, None)
                    for o in outs:
                        if o.kind != "ret": r.append(("panic", o.st, (o.val, None))); continue
                        inner = base_iter(eng, o.st, o.val)
                        for s2, kind2, e2, pos2 in iter_next(eng, o.st, inner):
                            if kind2 == "none": r.append(("skip", s2, None))
                            else: r.append((kind2, s2, (e2, None)))
                    continue
                if k == "filter":
                    outs = eng.call_value(s, d[3], [eng.ref(eng.new_alloc(s, e), ())], eng.p.bool_ty, 0, None)
                    for o in outs:
                        if o.kind != "ret": r.append(("panic", o.st, (o.val, None))); continue
                        for s2, t in eng.truth_split(o.st, o.val):
                            if not t: eng.emit(s2, "filtered", it, e)
                            r.append(("some", s2, (e, None)) if t else ("skip", s2, None))
                else:
                    outs = eng.call_value(s, d[3], [e], eng.closure_ret(d[3]), 0, None)
                    for o in outs:
                        if o.kind != "ret": r.append(("panic", o.st, (o.val, None))); continue
                        for s2, ov in eng.variant_split(o.st, o.val):
                            if ov.op == "agg" and ov.a[0] == 1: r.append(("some", s2, (ov.a[1], None)))
                            elif ov.op == "agg":
                                eng.emit(s2, "filtered", it, e)
                                r.append(("skip", s2, None))
                            else: r.append(("some", s2, (sym("fm"), None))); r.append(("skip", s2.copy(), None))
            return r
        outs = eng.fixpoint(st, rec, once, lambda o: o[0] == "skip")
        return [(s, kind, x[0], x[1]) for kind, s, x in outs]
    if k == "adapt":
        eng.emit(st, "adapted", it, d[1])
        res = []
        if d[1] == "take_while" and len(d) > 4:
            for s, kind, e, pos in iter_next(eng, st, d[2]):
                if kind != "some": res.append((s, kind, e, pos)); continue
                for o in eng.call_value(s, d[4], [eng.ref(eng.new_alloc(s, e), ())], eng.p.bool_ty, 0, None):
                    if o.kind != "ret": res.append((o.st, "panic", o.val, None)); continue
                    for s2, t in eng.truth_split(o.st, o.val):
                        if not t: eng.emit(s2, "adapt_end", it)
                        res.append((s2, "some", e, pos) if t else (s2, "none", None, None))
            return res
        for s, kind, e, pos in iter_next(eng, st, d[2]):
            res.append((s, kind, e, None))
            if kind == "some" and d[1] not in ("by_ref", "peekable"):
                s2 = s.copy()
                eng.emit(s2, "adapt_end", it)
                res.append((s2, "none", None, None))
        return res
    eng.emit(st, "next", it, None, None)
    s2 = st.copy()
    eng.emit(s2, "exhausted", it)
    return [(st, "some", sym("item"), None), (s2, "none", None, None)]


def simple_source(it):
    """Does the position of an element equal its index in the collection?"""
    while it.op == "iter":
        k = it.a[0][0]
        if k in ("coll", "option"): return True
        if k == "range": return isc(it.a[0][2]) and it.a[0][2].a[0] == 0
        if k in ("map", "copied", "enum", "inspect", "zip", "byref"): it = it.a[0][2]
        else: return False
    return False


@model("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def m_next(eng, st, call):
    if call.c.get("b") in eng.p.bodies: return None
    al, path = eng.deref(st, call.args[0])
    it = eng.load(st, al, path)
    if it.op == "ref": al, path, it = place(eng, st, call.args[0])
    if it.op != "iter":
        if is_range(eng, it.ty):
            it = as_iter(eng, st, it); eng.store(st, al, path, it)
        else:
            it = it_mk("ext", ("fixed", id(it)), it)
    if it.a[0][0] == "few" and call.name == "next": return next_few(eng, st, al, path, it, call)
    if call.name == "next_back": eng.emit(st, "reversed", it)
    res = []
    for s, kind, e, pos in iter_next(eng, st, it):
        if kind == "some": res.append((s, opt(eng, call.dty, e)))
        elif kind == "none": res.append((s, opt(eng, call.dty)))
        else: res.append(panic(s, e))
    return res


def next_few(eng, st, al, path, it, call):
    """The next of a few elements that are written out."""
    _, n, whole, base, steps, i = it.a[0]
    _, _, cal, cpath, mode, v = base
    if i >= len(v.a) - 1:
        eng.emit(st, "exhausted", whole)
        return [(st, opt(eng, call.dty))]
    ix = const(i, eng.p.usize_ty)
    eng.store(st, al, path, it_mk("few", n, whole, base, steps, i + 1))
    e = elem(eng, st, cal, cpath, mode, v, ix)
    eng.emit(st, "next", whole, e, ix)
    res = []
    for s, e in apply_steps(eng, st, e, steps, call, res): res.append((s, opt(eng, call.dty, e)))
    return res


def apply_steps(eng, st, e, steps, call, panics):
    work = [(st, e)]
    for f in steps:
        w2 = []
        for s, x in work:
            if f is None: w2.append((s, eng.load(s, *eng.deref(s, x)))); continue
            for o in eng.call_value(s, f, [x], eng.closure_ret(f), call.line, call.frame):
                if o.kind == "ret": w2.append((o.st, o.val))
                else: panics.append(panic(o.st, o.val))
        work = w2
    return work


def consume(eng, st, it, body, kind, call):
    """Model loop: body(state, elem) -> [('back'|'exit'|'panic', state, value)]. Returns outcomes and the record."""
    rec = Loop(None, uid())
    rec.kind, rec.src = kind, it
    few = spelled_out(it) if kind in ("extend", "for_each", "fold") else None
    if few is not None: return one_by_one(eng, st, few, body, call), rec

    def once(s0):
        r = []
        for s, k, e, pos in iter_next(eng, s0, it):
            if k == "none": r.append(("done", s, None))
            elif k == "panic": r.append(("panic", s, e))
            else: r += body(s, e)
        return r
    outs = eng.fixpoint(st, rec, once, lambda o: o[0] == "back")
    rec.results = [(o[1], o[2]) for o in rec.back_outs]
    return outs, rec


def spelled_out(it):
    """(collection, steps) of an iterator over a few elements that are written out."""
    steps = []
    while it.op == "iter" and it.a[0][0] in ("map", "copied"):
        d = it.a[0]
        steps.insert(0, d[3] if d[0] == "map" else None)
        it = d[2]
    if it.op != "iter" or it.a[0][0] != "coll": return None
    _, _, al, path, mode, v = it.a[0]
    return (it.a[0], steps) if v.op == "agg" and mode in ("ref", "val") and len(v.a) <= 9 else None


def one_by_one(eng, st, few, body, call):
    (_, _, al, path, mode, v), steps = few
    outs, live = [], [st]
    for i in range(len(v.a) - 1):
        nxt = []
        for s in live:
            bad = []
            for s2, e in apply_steps(eng, s, elem(eng, s, al, path, mode, v, const(i, eng.p.usize_ty)), steps, call, bad):
                for x in body(s2, e):
                    if x[0] == "back": nxt.append(x[1])
                    else: outs.append(x)
            outs += [("panic", o.st, o.val) for o in bad]
        live = nxt
    return outs + [("done", s, None) for s in live]


def finish(outs, f):
    res = []
    for kind, s, x in outs:
        if kind == "panic": res.append(panic(s, x))
        else: res += f(kind, s, x)
    return res


@model("core::iter::traits::iterator::Iterator::for_each")
def m_for_each(eng, st, call):
    it = base_iter(eng, st, call.args[0])

    def body(s, e):
        return [("back" if o.kind == "ret" else "panic", o.st, o.val) for o in eng.call_value(s, call.args[1], [e], eng.p.unit_ty, call.line, call.frame)]
    outs, rec = consume(eng, st, it, body, "for_each", call)
    return finish(outs, lambda k, s, x: [Out(s, "ret", unit(eng))])


@model("core::iter::traits::iterator::Iterator::try_for_each")
def m_try_for_each(eng, st, call):
    it = call.args[0]
    if it.op != "iter":
        al, path = eng.deref(st, it); it = base_iter(eng, st, eng.load(st, al, path))
    pres = {"core::result::Result": 0, "core::option::Option": 1}.get(eng.p.adt(call.dty))
    if pres is None: return None

    def body(s, e):
        r = []
        for o in eng.call_value(s, call.args[1], [e], call.dty, call.line, call.frame):
            if o.kind != "ret": r.append(("panic", o.st, o.val)); continue
            for s2, v in eng.variant_split(o.st, o.val):
                r.append(("back" if v.op == "agg" and v.a[0] == pres else "exit", s2, v))
        return r
    outs, rec = consume(eng, st, it, body, "try_for_each", call)
    return finish(outs, lambda k, s, x: [Out(s, "ret", x if k == "exit" else mk("agg", (pres, unit(eng)), call.dty))])


@model("core::iter::traits::iterator::Iterator::fold")
def m_fold(eng, st, call):
    it = base_iter(eng, st, call.args[0])
    al = eng.new_alloc(st, call.args[1], "acc")

    def body(s, e):
        r = []
        for o in eng.call_value(s, call.args[2], [eng.load(s, al, ()), e], call.dty, call.line, call.frame):
            if o.kind != "ret": r.append(("panic", o.st, o.val)); continue
            o.st.mem[al] = o.val
            r.append(("back", o.st, o.val))
        return r
    outs, rec = consume(eng, st, it, body, "fold", call)
    return finish(outs, lambda k, s, x: [Out(s, "ret", eng.load(s, al, ()))])


@model("core::iter::traits::iterator::Iterator::all", "core::iter::traits::iterator::Iterator::any", "core::iter::traits::iterator::Iterator::position", "core::iter::traits::iterator::Iterator::find",
       "core::iter::traits::iterator::Iterator::find_map", "core::iter::traits::iterator::Iterator::rposition")
def m_search(eng, st, call):
    n = call.name
    it = call.args[0]
    if it.op != "iter":
        al, path = eng.deref(st, it)
        it = base_iter(eng, st, eng.load(st, al, path))
    stop = 0 if n == "all" else 1

    def once_pos(s, e, pos):
        r = []
        arg = eng.ref(eng.new_alloc(s, e), ()) if n == "find" else e
        for o in eng.call_value(s, call.args[1], [arg], call.dty if n == "find_map" else eng.p.bool_ty, call.line, call.frame):
            if o.kind != "ret": r.append(("panic", o.st, o.val)); continue
            if n == "find_map":
                for s2, v in eng.variant_split(o.st, o.val): r.append(("exit" if v.op == "agg" and v.a[0] == 1 else "back", s2, v))
                continue
            for s2, t in eng.truth_split(o.st, o.val):
                r.append(("exit" if t == stop else "back", s2, e if n == "find" else pos))
        return r
    rec = Loop(None, uid())
    rec.kind, rec.src = n, it

    def once(s0):
        r = []
        if n == "rposition": eng.emit(s0, "reversed", it)
        for s, k, e, pos in iter_next(eng, s0, it):
            if k == "none": r.append(("done", s, None))
            elif k == "panic": r.append(("panic", s, e))
            else: r += once_pos(s, e, pos if pos is not None and simple_source(it) else sym("pos", eng.p.usize_ty))
        return r
    outs = eng.fixpoint(st, rec, once, lambda o: o[0] == "back")
    rec.results = [(o[1], o[2]) for o in rec.back_outs]

    def fin(k, s, x):
        if n in ("all", "any"): return [Out(s, "ret", const(int((k == "exit") == (n == "any")), eng.p.bool_ty))]
        if k == "exit":
            if n == "find_map": return [Out(s, "ret", x)]
            eng.emit(s, "found", n, it, x)
            return [Out(s, "ret", opt(eng, call.dty, x))]
        return [Out(s, "ret", opt(eng, call.dty))]
    return finish(outs, fin)


@model("core::iter::traits::iterator::Iterator::last")
def m_iter_last(eng, st, call):
    """None without elements; otherwise the element of one of the iterations (forked per producing iteration path)."""
    it = base_iter(eng, st, call.args[0])
    outs, rec = consume(eng, st, it, lambda s, e: [("back", s, e)], call.name, call)
    res = []
    for kind, s, x in outs:
        if kind == "panic": res.append(panic(s, x)); continue
        empty = s.copy()
        eng.emit(empty, "reduce", call.name, it, rec, None, None)
        if eng.assume_empty(empty, it): res.append(Out(empty, "ret", opt(eng, call.dty)))
        if rec.results and not (it.op == "iter" and eng.iter_len(s, it) is not None and not eng.assume(s, eng.binop(s, "Lt", const(0, eng.p.usize_ty), eng.iter_len(s, it), eng.p.bool_ty), 1)):
            for bs, bv in rec.results:
                s2 = bs.copy()
                s2.ev = (s.ev, Ev("extreme_iter", (rec,), eng.site(s)))
                eng.emit(s2, "reduce", call.name, it, rec, bv, None)
                res.append(Out(s2, "ret", opt(eng, call.dty, bv)))
    return res


@model("core::slice::<impl [T]>::partition_point", "alloc::collections::vec_deque::VecDeque::<T, A>::partition_point")
def m_partition_point(eng, st, call):
    """n with the predicate true below n and false from n on; evaluated for the two elements around n."""
    al, path, v = place(eng, st, call.args[0])
    U, B = eng.p.usize_ty, eng.p.bool_ty
    n, ln = sym("pp", U), length(eng, st, v)
    res, work = [], []
    eng.le(st, n, ln)

    def test(s, i, want):
        for o in eng.call_value(s, call.args[1], [eng.ref(al, path + (("ix", i),))], B, call.line, call.frame):
            if o.kind != "ret": yield o; continue
            for s2, t in eng.truth_split(o.st, o.val):
                if t == want: yield Out(s2, "ret", n)
    for s, zero in eng.truth_split(st, eng.binop(st, "Eq", n, const(0, U), B)):
        lo = [Out(s, "ret", n)] if zero else list(test(s, eng.binop(s, "Sub", n, const(1, U), U), 1))
        for o in lo:
            if o.kind != "ret": res.append(o); continue
            for s2, inside in eng.truth_split(o.st, mk("op", ("Lt", n, ln), B)):
                if not inside: eng.le(s2, ln, n)
                res += list(test(s2, n, 0)) if inside else [Out(s2, "ret", n)]
    return res


@model("core::iter::traits::iterator::Iterator::count", "core::iter::traits::iterator::Iterator::sum", "core::iter::traits::iterator::Iterator::product",
       "core::iter::traits::iterator::Iterator::nth")
def m_count(eng, st, call):
    it = base_iter(eng, st, call.args[0])
    outs, rec = consume(eng, st, it, lambda s, e: [("back", s, e)], call.name, call)

    def fin(k, s, x):
        eng.emit(s, "reduce", call.name, it, rec)
        return [Out(s, "ret", mk("op", (call.name, mk("loopval", (rec.serial,))), call.dty))]
    return finish(outs, fin)


EXTREMA = {"max": ("max", None), "min": ("min", None), "max_by_key": ("max", "key"), "min_by_key": ("min", "key"), "max_by": ("max", "by"), "min_by": ("min", "by")}


@model(*["core::iter::traits::iterator::Iterator::" + n for n in EXTREMA])
def m_extrema(eng, st, call):
    """The result is one of the elements (forked per producing iteration path); its key bounds those of the others."""
    which, how = EXTREMA[call.name]
    it = base_iter(eng, st, call.args[0])
    arr = const_elems(eng, st, it)
    if arr is not None and how is None: return fold_const(eng, st, which, arr, call)
    s_none = None

    cmps = []

    def body(s, e):
        if how == "by":
            # the user's comparison, of this element with another one
            for s2, kind, e2, _ in iter_next(eng, s.copy(), it):
                if kind != "some": continue
                a = [eng.ref(eng.new_alloc(s2, x), ()) for x in (e, e2)]
                for o in eng.call_value(s2, call.args[1], a, eng.closure_ret(call.args[1]), call.line, call.frame):
                    if o.kind == "ret": cmps.append((o.st, e, e2, o.val))
        if how != "key": return [("back", s, e)]
        a = eng.ref(eng.new_alloc(s, e), ())
        r = []
        for o in eng.call_value(s, call.args[1], [a], eng.closure_ret(call.args[1]), call.line, call.frame):
            r.append(("back" if o.kind == "ret" else "panic", o.st, mk("agg", (0, e, o.val), None) if o.kind == "ret" else o.val))
        return r
    outs, rec = consume(eng, st, it, body, call.name, call)
    res = []
    for kind, s, x in outs:
        if kind == "panic": res.append(panic(s, x)); continue
        # empty: no element at all
        empty = s.copy()
        eng.emit(empty, "reduce", call.name, it, rec, None, None)
        if eng.assume_empty(empty, it): res.append(Out(empty, "ret", opt(eng, call.dty)))
        if not rec.results: continue
        # the extreme element: one of the iterations' outcomes
        for bs, bv in rec.results:
            s2 = bs.copy()
            s2.ev = (s.ev, Ev("extreme_iter", (rec,), eng.site(s)))
            e, key = (bv.a[1], bv.a[2]) if how == "key" else (bv, bv)
            eng.emit(s2, "reduce", call.name, it, rec, e, key, tuple(cmps))
            res.append(Out(s2, "ret", opt(eng, call.dty, e)))
    return res


def const_elems(eng, st, it):
    if it.op != "iter" or it.a[0][0] != "coll": return None
    d = it.a[0]
    if d[5].op != "agg" or d[4] not in ("ref", "val"): return None
    return [elem(eng, st, d[2], d[3], d[4], d[5], const(i, eng.p.usize_ty)) for i in range(len(d[5].a) - 1)]


def fold_const(eng, st, which, arr, call):
    if not arr: return [Out(st, "ret", opt(eng, call.dty))]
    outs = [Out(st, "ret", arr[0])]
    for x in arr[1:]:
        nxt = []
        for o in outs:
            if o.kind != "ret": nxt.append(o); continue
            a, b = o.val, x
            if a.op == "ref":
                va, vb = eng.load(o.st, *a.a), eng.load(o.st, *b.a)
                for q in minmax(eng, o.st, which, va, vb):
                    if q.kind == "ret": q.val = eng.ref(eng.new_alloc(q.st, q.val), ())
                    nxt.append(q)
            else: nxt += minmax(eng, o.st, which, a, b)
        outs = nxt
    return [Out(o.st, o.kind, opt(eng, call.dty, o.val) if o.kind == "ret" else o.val) for o in outs]


@model("core::iter::traits::iterator::Iterator::reduce")
def m_reduce(eng, st, call):
    it = base_iter(eng, st, call.args[0])
    oty = call.dty
    al = eng.new_alloc(st, opt(eng, oty), "acc")
    # first element, then fold
    res = []
    rec = Loop(None, uid())
    rec.kind, rec.src = "reduce", it

    def body(s, e):
        cur = eng.load(s, al, ())
        r = []
        for s1, c in eng.variant_split(s, cur):
            if c.op == "agg" and c.a[0] == 0:
                s1.mem[al] = opt(eng, oty, e); r.append(("back", s1, e)); continue
            acc = c.a[1] if c.op == "agg" else eng.field_of(c, 1, 0)
            for o in eng.call_value(s1, call.args[1], [acc, e], eng.p.field_ty(oty, 1, 0), call.line, call.frame):
                if o.kind != "ret": r.append(("panic", o.st, o.val)); continue
                o.st.mem[al] = opt(eng, oty, o.val)
                r.append(("back", o.st, o.val))
        return r
    outs, rec = consume(eng, st, it, body, "reduce", call)
    return finish(outs, lambda k, s, x: [Out(s, "ret", eng.load(s, al, ()))])


@model("core::iter::traits::iterator::Iterator::partition")
def m_partition(eng, st, call):
    it = base_iter(eng, st, call.args[0])

    def body(s, e):
        r = []
        for o in eng.call_value(s, call.args[1], [eng.ref(eng.new_alloc(s, e), ())], eng.p.bool_ty, call.line, call.frame):
            if o.kind != "ret": r.append(("panic", o.st, o.val)); continue
            for s2, t in eng.truth_split(o.st, o.val): r.append(("back", s2, mk("agg", (t, e), None)))
        return r
    outs, rec = consume(eng, st, it, body, "partition", call)
    sides = []
    for t in (1, 0):
        q = Loop(None, uid())
        q.kind, q.src, q.full, q.init = "collect", it, rec, rec.init
        q.results = [(s, v.a[1]) for s, v in rec.results if v.a[0] == t]
        q.iters, q.exits = [s for s, _ in q.results], rec.exits
        eng.loops[q.serial] = q
        sides.append(q)

    def fin(k, s, x):
        vs = []
        for i, q in enumerate(sides):
            c = mk("collect", (q.serial, None), eng.p.field_ty(call.dty, 0, i))
            eng.emit(s, "collect", c, it, q)
            vs.append(c)
        return [Out(s, "ret", mk("agg", (0,) + tuple(vs), call.dty))]
    return finish(outs, fin)


@model("core::iter::traits::iterator::Iterator::collect", "core::iter::traits::collect::FromIterator::from_iter")
def m_collect(eng, st, call):
    it = base_iter(eng, st, call.args[0])
    p = eng.p.adt(call.dty)
    fall = {"core::result::Result": (0, 1), "core::option::Option": (1, 0)}.get(p)

    def body(s, e):
        if fall is None: return [("back", s, e)]
        r = []
        for s2, v in eng.variant_split(s, e):
            if v.op == "agg" and v.a[0] == fall[1]: r.append(("exit", s2, v))
            else: r.append(("back", s2, v.a[1] if v.op == "agg" else v))
        return r
    outs, rec = consume(eng, st, it, body, "collect", call)

    def fin(k, s, x):
        if k == "exit": return [Out(s, "ret", mk("agg", x.a, call.dty))]
        cty = call.dty if fall is None else eng.p.field_ty(call.dty, fall[0], 0)
        n = eng.iter_len(s, it) if eng.p.adt(cty) == "alloc::vec::Vec" else None
        c = mk("collect", (rec.serial, n), cty)
        eng.loops[rec.serial] = rec
        eng.emit(s, "collect", c, it, rec)
        return [Out(s, "ret", c if fall is None else mk("agg", (fall[0], c), call.dty))]
    return finish(outs, fin)


@model("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::<T, A>::extend_from_slice")
def m_extend(eng, st, call):
    al, path, v = place(eng, st, call.args[0])
    it = base_iter(eng, st, call.args[1])
    p = eng.p.adt(v.ty) or ""

    def body(s, e):
        if call.name == "extend_from_slice" and e.op == "ref": e = eng.load(s, *e.a)
        if "hash" in p or "btree" in p:
            k, x = (e.a[1], e.a[2]) if "map" in p and e.op == "agg" else (e, unit(eng))
            cur = eng.load(s, al, path)
            eng.emit(s, "insert", eng.ref(al, path), k, x, cur)
            eng.write(s, al, path, mk("upd", (cur, k, x), v.ty))
        else:
            cur = eng.load(s, al, path)
            eng.emit(s, "push", eng.ref(al, path), e, cur)
            eng.write(s, al, path, mk("push", (cur, e), v.ty))
        return [("back", s, e)]
    outs, rec = consume(eng, st, it, body, "extend", call)
    return finish(outs, lambda k, s, x: [Out(s, "ret", unit(eng))])


@model("core::iter::traits::exact_size::ExactSizeIterator::len")
def m_iter_len(eng, st, call):
    it = cont(eng, st, call.args[0])
    n = eng.iter_len(st, it)
    return (st, n) if n is not None else None


# ------------------------------------------------------------------ channels and queues
@model("crossbeam_channel::channel::bounded", "crossbeam_channel::channel::unbounded")
def m_chan(eng, st, call):
    q = mk("queue", (uid(),))
    cap = call.args[0] if call.args else None
    a = eng.p.types[call.dty]["ts"]
    tx, rx = mk("tx", (q,), a[0]), mk("rx", (q,), a[1])
    eng.emit(st, "newqueue", q, cap if cap is not None else UNDEF, mk("type", (sty(eng, call.c),)))
    return st, mk("agg", (0, tx, rx), call.dty)


def chan_of(eng, st, v):
    return place(eng, st, v)


@model("crossbeam_channel::channel::Sender::<T>::send")
def m_send(eng, st, call):
    al, path, q = chan_of(eng, st, call.args[0])
    s2 = st.copy()
    eng.emit(st, "send", eng.ref(al, path), call.args[1], 1, q)
    eng.emit(s2, "send", eng.ref(al, path), call.args[1], 0, q)
    ety = eng.p.field_ty(call.dty, 1, 0)
    return [(st, ok(eng, call.dty, unit(eng))), (s2, err(eng, call.dty, mk("agg", (0, call.args[1]), ety)))]


@model("crossbeam_channel::channel::Sender::<T>::try_send")
def m_try_send(eng, st, call):
    al, path, q = chan_of(eng, st, call.args[0])
    s2 = st.copy()
    eng.emit(st, "send", eng.ref(al, path), call.args[1], 1, q)
    eng.emit(s2, "send", eng.ref(al, path), call.args[1], 0, q)
    return [(st, ok(eng, call.dty, unit(eng))), (s2, err(eng, call.dty, sym("trysenderr", eng.p.field_ty(call.dty, 1, 0))))]


@model("crossbeam_channel::channel::Receiver::<T>::recv", "crossbeam_channel::channel::Receiver::<T>::try_recv")
def m_recv(eng, st, call):
    al, path, q = chan_of(eng, st, call.args[0])
    n = call.name
    x = sym("received", eng.p.field_ty(call.dty, 0, 0))
    ety = eng.p.field_ty(call.dty, 1, 0)
    res = []
    s = st.copy()
    eng.emit(s, n, eng.ref(al, path), "ok", x, q)
    res.append((s, ok(eng, call.dty, x)))
    vs = eng.p.variants(ety) if eng.p.is_enum(ety) else None
    if n == "try_recv" and vs:
        for i, v in enumerate(vs):
            s = st.copy()
            eng.emit(s, n, eng.ref(al, path), v[0].lower(), None, q)
            res.append((s, err(eng, call.dty, mk("agg", (i,), ety))))
    else:
        s = st.copy()
        eng.emit(s, n, eng.ref(al, path), "disconnected", None, q)
        res.append((s, err(eng, call.dty, mk("agg", (0,), ety))))
    return res


@model("crossbeam_channel::channel::Receiver::<T>::iter", "crossbeam_channel::channel::Receiver::<T>::try_iter")
def m_rx_iter(eng, st, call):
    return st, it_mk("ext", uid(), place(eng, st, call.args[0])[2])


@model("crossbeam_channel::channel::Receiver::<T>::len", "crossbeam_channel::channel::Sender::<T>::len", "crossbeam_channel::channel::Receiver::<T>::is_empty", "crossbeam_channel::channel::Sender::<T>::is_empty",
       "crossbeam_channel::channel::Sender::<T>::is_full", "crossbeam_channel::channel::Receiver::<T>::is_full")
def m_chan_len(eng, st, call):
    r = sym(call.name, call.dty)
    eng.emit(st, "chan_" + call.name, call.args[0], r)
    return st, r


@model("crossbeam_queue::seg_queue::SegQueue::<T>::new")
def m_segq(eng, st, call):
    return st, mk("empty", (), call.dty)


@model("crossbeam_queue::seg_queue::SegQueue::<T>::push")
def m_segq_push(eng, st, call):
    al, path, v = place(eng, st, call.args[0])
    eng.emit(st, "push", eng.ref(al, path), call.args[1], v)
    eng.write(st, al, path, mk("push", (v, call.args[1]), v.ty))
    return st, unit(eng)


@model("crossbeam_queue::seg_queue::SegQueue::<T>::pop")
def m_segq_pop(eng, st, call):
    call.name = "pop_front"
    return m_pop(eng, st, call)


@model("crossbeam_queue::seg_queue::SegQueue::<T>::len", "crossbeam_queue::seg_queue::SegQueue::<T>::is_empty")
def m_segq_len(eng, st, call):
    return (m_len if call.name == "len" else m_is_empty)(eng, st, call)


# ------------------------------------------------------------------ threads
@model("std::thread::functions::park", "std::thread::functions::yield_now", "std::thread::current::current", "std::thread::thread::Thread::unpark", "std::thread::functions::sleep", "core::hint::spin_loop")
def m_thread(eng, st, call):
    n = call.name
    if n == "current":
        r = mk("op", ("current_thread",), call.dty)
        return st, r
    if n == "unpark": eng.emit(st, "unpark", place(eng, st, call.args[0])[2])
    else: eng.emit(st, n)
    if n == "park" and eng.park_hook: eng.park_hook(st)
    return st, unit(eng)


@model("std::thread::scoped::scope")
def m_scope(eng, st, call):
    eng.emit(st, "scope_begin")
    a = eng.new_alloc(st, sym("scope", None), "scope")
    outs = eng.call_value(st, call.args[0], [eng.ref(a, ())], call.dty, call.line, call.frame)
    for o in outs: eng.emit(o.st, "scope_end", site=eng.site(o.st))
    return outs


def run_thread(eng, st, call, f, extra=None):
    """Runs a spawned closure inline between bracketing events; its outcome does not affect the spawner."""
    name = call.c["p"]
    eng.emit(st, "spawn_begin", name, f)
    rty = eng.closure_ret(f)
    res = []
    for o in eng.call_value(st, f, [], rty, call.line, call.frame):
        eng.emit(o.st, "spawn_end", name, o.kind, o.val if isinstance(o.val, V) else UNDEF)
        res.append(o)
    return res


@model("std::thread::scoped::Scope::<'scope, 'env>::spawn", "std::thread::functions::spawn")
def m_spawn(eng, st, call):
    f = call.args[-1]
    res = []
    for o in run_thread(eng, st, call, f):
        h = mk("handle", (uid(), o.kind, o.val if isinstance(o.val, V) else UNDEF), call.dty)
        eng.emit(o.st, "spawned", call.c["p"], h)
        res.append(Out(o.st, "ret", h))
    return res


@model("thread_priority::ThreadBuilder::spawn_scoped_careless", "thread_priority::ThreadBuilder::spawn_scoped", "thread_priority::ThreadBuilder::spawn_careless", "thread_priority::ThreadBuilder::spawn")
def m_tp_spawn(eng, st, call):
    f = call.args[-1]
    s2 = st.copy()
    eng.emit(s2, "spawn_failed", call.c["p"])
    res = []
    for o in run_thread(eng, st, call, f):
        h = mk("handle", (uid(), o.kind, o.val if isinstance(o.val, V) else UNDEF), eng.p.field_ty(call.dty, 0, 0))
        eng.emit(o.st, "spawned", call.c["p"], h)
        res.append(Out(o.st, "ret", ok(eng, call.dty, h)))
    res.append(Out(s2, "ret", err(eng, call.dty, sym("ioerr", eng.p.field_ty(call.dty, 1, 0)))))
    return res


@model("std::thread::join_handle::JoinHandle::<T>::join", "std::thread::scoped::ScopedJoinHandle::<'scope, T>::join")
def m_join(eng, st, call):
    eng.emit(st, "join", call.args[0])
    r = sym("joinres", call.dty)
    return st, r


@model("std::panic::catch_unwind")
def m_catch(eng, st, call):
    f = call.args[0]
    fv = eng.resolve(st, f)
    if fv.ty is not None and eng.p.adt(fv.ty) == "core::panic::unwind_safe::AssertUnwindSafe":
        fv = fv.a[1] if fv.op == "agg" else eng.field_of(fv, 0, 0)
    eng.emit(st, "catch_begin")
    vty = eng.p.field_ty(call.dty, 0, 0)
    res = []
    for o in eng.call_value(st, fv, [], vty, call.line, call.frame):
        eng.emit(o.st, "catch_end", o.kind)
        if o.kind == "ret": res.append(Out(o.st, "ret", ok(eng, call.dty, o.val)))
        else: res.append(Out(o.st, "ret", err(eng, call.dty, sym("payload", eng.p.field_ty(call.dty, 1, 0)))))
    return res


@model("std::thread::local::LocalKey::<T>::new")
def m_localkey(eng, st, call): return st, mk("op", ("localkey", mk("str", (st.stack[-1][0].split("|")[0],))), call.dty)


@model("std::thread::local::LocalKey::<T>::with", "std::thread::local::LocalKey::<T>::try_with")
def m_with(eng, st, call):
    k = eng.resolve(st, call.args[0])
    if k.op == "ref" and k.a[0][0] != "static":
        kv = eng.load(st, *k.a)
        if kv is not UNDEF: k = kv
    if k.op == "op" and k.a[0] == "localkey": al = ("tls", k.a[1].a[0])
    else: al = ("tls", show(k) if k.op != "ref" or k.a[0][0] != "static" else k.a[0][1])
    if al not in st.mem: st.mem[al] = mk("sym", (str(al[1]),), sty(eng, call.c))
    return eng.call_value(st, call.args[1], [eng.ref(al, ())], call.dty, call.line, call.frame)


# ------------------------------------------------------------------ formatting: no effect on simulated behaviour
for _n in ("alloc::fmt::format", "core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst", "core::fmt::Arguments::<'a>::new", "core::fmt::rt::Argument::<'_>::new_debug",
           "core::fmt::rt::Argument::<'_>::new_display", "alloc::string::ToString::to_string"):
    def _f(eng, st, call):
        a = []
        for x in call.args:
            x = eng.resolve(st, x)
            for _ in range(4):
                if x.op != "ref": break
                y = eng.load(st, *x.a)
                if y is UNDEF: break
                x = eng.resolve(st, y)
            a.append(x)
        return st, mk("op", ("fmt:" + call.name,) + tuple(a), call.dty)
    M[_n] = _f


@model("std::io::stdio::_print", "std::io::stdio::_eprint")
def m_print(eng, st, call): return st, unit(eng)


@model("std::time::Instant::now", "std::time::Instant::elapsed", "core::time::Duration::as_micros")
def m_now(eng, st, call): return st, sym(call.name, call.dty)


# ------------------------------------------------------------------ intrinsics
@model("core::intrinsics::discriminant_value")
def m_discr(eng, st, call):
    v = place(eng, st, call.args[0])[2]
    return st, eng.discr(st, v)


@model("core::intrinsics::unlikely", "core::intrinsics::likely", "core::intrinsics::black_box")
def m_id(eng, st, call): return st, call.args[0]


@model("core::intrinsics::cold_path", "core::intrinsics::assume", "core::hint::assert_unchecked")
def m_cold(eng, st, call): return st, unit(eng)


BYTES = {"bool": 1, "char": 4, "u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16, "f32": 4, "f64": 8, "usize": 8, "isize": 8, "()": 0}


@model("core::mem::size_of", "core::intrinsics::size_of", "core::mem::size_of_val")
def m_sizeof(eng, st, call):
    n = BYTES.get(eng.p.ts(call.c["a"][0])) if call.c.get("a") and call.name == "size_of" else None
    if n is not None: return st, const(n, call.dty)
    return st, mk("op", ("sizeof", mk("type", (sty(eng, call.c),))), call.dty)


@model("core::any::type_name", "core::any::TypeId::of", "core::any::type_name_of_val", "core::intrinsics::type_name", "core::intrinsics::type_id")
def m_tname(eng, st, call):
    return st, mk("op", (call.name, mk("type", (sty(eng, call.c),))), call.dty)
