"""Loads the MIR dump and offers type / callee / body lookups."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.path = path
        self.types = d["types"]
        self.callees = d["callees"]
        self.roots = d["roots"]
        self.impls = d["impls"]
        self.adts = d["adts"]
        self.bodies = {b["key"]: b for b in d["bodies"]}
        for t in self.types:
            if "vs" in t:
                t["dmap"] = {v[1]: i for i, v in enumerate(t["vs"])}
        for b in self.bodies.values():
            b["mp"] = method_name(b["p"])
        self._cfg = {}
        self._needs = {}
        self.bool_ty = next((i for i, t in enumerate(self.types) if t["k"] == "bool"), None)
        self.usize_ty = next((i for i, t in enumerate(self.types) if t["s"] == "usize"), None)
        self.u64_ty = next((i for i, t in enumerate(self.types) if t["s"] == "u64"), None)
        self.unit_ty = next((i for i, t in enumerate(self.types) if t["s"] == "()"), None)

    # ---- types
    def tk(self, ty):
        return self.types[ty]["k"] if ty is not None else None

    def adt(self, ty):
        """Path of the ADT a type names, or None."""
        if ty is None: return None
        t = self.types[ty]
        return t["p"] if t["k"] == "adt" else None

    def ts(self, ty):
        return self.types[ty]["s"] if ty is not None else "?"

    def peel(self, ty):
        """Strips references, raw pointers and owning smart pointers."""
        while ty is not None:
            t = self.types[ty]
            if t["k"] in ("ref", "ptr"): ty = t["t"]
            elif t["k"] == "adt" and t["p"] in POINTERS and t["a"]: ty = t["a"][0]
            else: return ty
        return None

    def variants(self, ty):
        t = self.types[ty]
        return t.get("vs") if t["k"] == "adt" else None

    def is_enum(self, ty):
        return ty is not None and self.types[ty]["k"] == "adt" and self.types[ty].get("enum", False)

    def field_ty(self, ty, variant, i):
        if ty is None: return None
        t = self.types[ty]
        k = t["k"]
        if k == "adt":
            vs = t.get("vs")
            if vs is None or variant >= len(vs) or i >= len(vs[variant][2]): return None
            return vs[variant][2][i][1]
        if k in ("tuple", "closure"):
            return t["ts"][i] if i < len(t["ts"]) else None
        return None

    def nfields(self, ty, variant):
        t = self.types[ty]
        if t["k"] == "adt":
            vs = t.get("vs")
            return len(vs[variant][2]) if vs is not None and variant < len(vs) else None
        if t["k"] in ("tuple", "closure"): return len(t["ts"])
        return None

    def field_index(self, ty, name, variant=0):
        vs = self.variants(ty)
        if vs is None: return None
        for i, f in enumerate(vs[variant][2]):
            if f[0] == name: return i
        return None

    def variant_index(self, ty, name):
        for i, v in enumerate(self.types[ty].get("vs") or []):
            if v[0] == name: return i
        return None

    def find_adt(self, suffix):
        """Type index of a local ADT by path suffix (generic definition)."""
        r = [a for a in self.adts if a["p"] == suffix or a["p"].endswith("::" + suffix)]
        return r[0]["t"] if len(r) == 1 else None

    # ---- control flow
    def succs(self, t):
        k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch": return [x[1] for x in t[2]] + [t[3]]
        if k == "drop": return [t[2]]
        if k == "call": return [t[4]] if t[4] is not None else []
        if k == "assert": return [t[3]]
        return []

    def loops(self, key):
        """header -> set of blocks of its natural loop."""
        if key in self._cfg: return self._cfg[key]
        bb = self.bodies[key]["bb"]
        n = len(bb)
        succ = [self.succs(b[1]) for b in bb]
        order, seen, state = [], [0] * n, [(0, iter(succ[0]))]
        seen[0] = 1
        back = []
        while state:
            v, it = state[-1]
            for w in it:
                if seen[w] == 0:
                    seen[w] = 1
                    state.append((w, iter(succ[w])))
                    break
                elif seen[w] == 1:
                    back.append((v, w))
            else:
                seen[v] = 2
                state.pop()
        pred = [[] for _ in range(n)]
        for v in range(n):
            for w in succ[v]: pred[w].append(v)
        res = {}
        for v, h in back:
            body = res.setdefault(h, {h})
            st = [v]
            while st:
                x = st.pop()
                if x in body: continue
                body.add(x)
                st.extend(pred[x])
        res = {self.rotated(key, h, body, pred, set(res)): body for h, body in res.items()}
        self._cfg[key] = res
        return res

    def rotated(self, key, h, body, pred, heads):
        """Where a loop is best cut: a loop that only asks which variant (or flag) the last round left behind is cut after the question,
        so that the answer and the round that gave it are seen together."""
        bb, types = self.bodies[key]["bb"], self.bodies[key]["l"]
        b, seen = h, {h}
        asks = None
        while True:
            stmts, term, _ = bb[b]
            for s in stmts:
                if s[0] != "=" or not isinstance(s[1], int): return h
                r = s[2]
                if r[0] == "discr": asks = True
                elif r[0] == "un" and r[1] == "Not" or r[0] == "use":
                    if self.tk(types[s[1]]) != "bool": return h
                    asks = True
                else: return h
            if term[0] == "goto":
                b = term[1]
                if b in seen or b not in body or b in heads: return h
                seen.add(b)
                continue
            break
        if term[0] != "switch" or not asks: return h
        ins = {x for x in self.succs(term) if x in body}
        outs = {x for x in self.succs(term) if x not in body and bb[x][1][0] != "unreachable"}
        if len(ins) != 1 or not outs: return h
        c = next(iter(ins))
        return c if c not in seen and c not in heads and set(pred[c]) == {b} else h


POINTERS = {"alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull", "alloc::rcs::arc::Arc", "alloc::sync::Arc", "alloc::rcs::rc::Rc", "alloc::rc::Rc", "core::pin::Pin"}


def method_name(p):
    """'<a::B<T> as c::Tr>::m' -> 'm' ; 'a::b::<T>::m' -> 'm'."""
    depth = 0
    last = 0
    for i, c in enumerate(p):
        if c in "<({[": depth += 1
        elif c in ">)}]" and not (c == ">" and i and p[i - 1] == "-"): depth -= 1
        elif c == ":" and depth == 0 and p[i:i + 2] == "::": last = i + 2
    return p[last:]
