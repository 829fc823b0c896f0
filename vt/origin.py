"""Where the contents of a record come from: access paths, without regard to order.

A place is (root, path): root ("arg", k), ("item", name, exact) (a member looked up by name), ("cur", id) (the current child of a
JSON node), ("elem", root..) ...; path is the sequence of constant offsets, one per dereference; a position in a list (variable index) is "[]".
For each store, string copy or array copy in a function: the places written and the places the value was computed from."""
from ir import Inst, Const, Arg, Global

LOOK = {"cJSON_GetObjectItemCaseSensitive": True, "cJSON_GetObjectItem": False}
ALLOC = ("malloc", "calloc", "realloc")
DUP = ("strdup", "strndup", "nostr_strdup")
CONV = ("zext", "sext", "trunc", "freeze", "bitcast", "fptosi", "fptoui", "sitofp", "uitofp", "fpext")


def text(v):
    if isinstance(v, Global) and v.init_str is not None:
        return v.init_str.rstrip(b"\0").decode("latin1")


class Origin(object):
    def __init__(self, fn, models=None):
        self.fn = fn
        self.models = models or {}
        self.slots = {}         # alloca -> [(offset or None, value, store)]
        self.homes = {}         # alloc call -> set of places
        self.fields = {}        # place -> [stored values]
        self.into = {}          # alloc call -> [(path, value)]
        self.writes = []        # (inst, places, kind, value, length)
        self.collect()

    # ---- addresses
    def addr(self, p, seen=()):
        """places a pointer can denote: set of (root, path of the holders, offset, index)"""
        out = set()
        if p in seen or len(seen) > 60:
            return out
        seen = seen + (p,)
        if isinstance(p, Arg):
            return {(("arg", p.idx), (), 0, ())}
        if isinstance(p, Global):
            return {(("glob", p.name), (), 0, ())}
        if not isinstance(p, Inst):
            return out
        if p.op == "gep":
            k, vs = p.gep
            for r, path, off, ix in self.addr(p.ops[0], seen):
                out.add((r, path, off + k, ix + tuple(x for x, s in vs)))
            return out
        if p.op in ("bitcast", "freeze", "inttoptr", "ptrtoint"):
            return self.addr(p.ops[0], seen)
        if p.op in ("phi", "select"):
            back = [x for x, b in p.inc] if p.op == "phi" else p.ops[1:]
            for x in back:
                if p.op == "phi" and isinstance(x, Inst) and x.op == "gep" and x.ops[0] is p:
                    continue
                for r, path, off, ix in self.addr(x, seen):
                    moving = p.op == "phi" and any(isinstance(y, Inst) and y.op == "gep" and y.ops[0] is p for y in back)
                    out.add((r, path, off, ix + ((p,) if moving else ())))
            return out
        if p.op == "alloca":
            return {(("loc", p.id), (), 0, ())}
        if p.op == "call":
            n = p.cname
            if n in ALLOC:
                hs = self.homes.get(p)
                if hs:
                    return {(r, path, 0, ()) for r, path in hs}
                return {(("heap", p.id), (), 0, ())}
            for r, path in self.value(p, seen[:-1]):
                out.add((r, path, 0, ()))
            return out
        if p.op == "load":
            for r, path, off, ix in self.addr(p.ops[0], seen):
                if r[0] == "loc":
                    for o, v, s in self.slots.get(r[1], ()):
                        if o is None or o == off:
                            out |= self.addr(v, seen)
                else:
                    out.add((r, path + self.step(off, ix), 0, ()))
        return out

    def step(self, off, ix):
        return (off, "[]") if ix else (off,)

    # ---- values
    def value(self, v, seen=()):
        """places a value is computed from"""
        if v in seen or len(seen) > 60 or not isinstance(v, (Inst, Arg, Global)):
            return set()
        seen = seen + (v,)
        if isinstance(v, Arg):
            return {(("arg", v.idx), ())}
        if isinstance(v, Global):
            t = text(v)
            return {(("text", t), ())} if t is not None else {(("glob", v.name), ())}
        if v.op == "load":
            out = set()
            for r, path, off, ix in self.addr(v.ops[0], seen):
                if r[0] == "loc":
                    for o, x, s in self.slots.get(r[1], ()):
                        if o is None or o == off:
                            out |= self.value(x, seen)
                else:
                    out.add((r, path + self.step(off, ix)))
            return out
        if v.op == "gep":
            return {(r, path + (("&", off),)) for r, path, off, ix in self.addr(v, seen)}
        if v.op == "alloca":
            out = set()
            for o, x, s in self.slots.get(v.id, ()):
                out |= self.value(x, seen)
            return out
        if v.op in ("phi", "select"):
            out = set()
            for x in ([x for x, b in v.inc] if v.op == "phi" else v.ops[1:]):
                out |= self.value(x, seen)
            return out
        if v.op == "call":
            n = v.cname
            if n in LOOK:
                t = text(v.ops[1])
                return {(("item", t, LOOK[n]), ())} if t is not None else {(("item?", v.id), ())}
            if n == "cJSON_GetArrayItem":
                return {(r, path + (("[]",) if not isinstance(v.ops[1], Const) else (("at", v.ops[1].v),))) for r, path in self.value(v.ops[0], seen)}
            if n == "cJSON_GetArraySize":
                return {(r, path + ("size",)) for r, path in self.value(v.ops[0], seen)}
            if n in DUP:
                return {(r, path) for r, path in self.value(v.ops[0], seen)}
            if n in ("strlen", "strnlen"):
                return {(r, path + ("len",)) for r, path in self.value(v.ops[0], seen)}
            if n in ALLOC:
                hs = self.homes.get(v)
                return {(r, path) for r, path in hs} if hs else set()
            if n in ("cJSON_Parse", "cJSON_ParseWithLength"):
                return {(("root",), ())}
            return {(("call", n), ())}
        out = set()
        for x in v.ops:
            out |= self.value(x, seen)
        return out

    def exact(self, v, seen=()):
        """a value handed on as it is: only conversions, copies and choices on the way"""
        if not isinstance(v, Inst) or v in seen:
            return True
        if v.op in ("load", "call", "gep", "alloca"):
            if v.op == "load":
                for r, path, off, ix in self.addr(v.ops[0]):
                    if r[0] == "loc" and not all(self.exact(x, seen + (v,)) for o, x, s in self.slots.get(r[1], ()) if o is None or o == off):
                        return False
            return True
        if v.op in CONV:
            return self.exact(v.ops[0], seen + (v,))
        if v.op in ("phi", "select"):
            return all(self.exact(x, seen + (v,)) for x in ([x for x, b in v.inc] if v.op == "phi" else v.ops[1:]))
        if v.op == "icmp" and v.pred == "ne" and isinstance(v.ops[1], Const) and v.ops[1].v == 0:
            return self.exact(v.ops[0], seen + (v,))     # a truth value
        return False

    # ---- the whole function
    def collect(self):
        ins = [i for b in self.fn.blocks for i in b.insts]
        for i in ins:
            if i.op == "store":
                p, off, var = i.ops[1], 0, False
                while isinstance(p, Inst) and p.op in ("gep", "bitcast"):
                    if p.op == "gep":
                        off += p.gep[0]
                        var = var or bool(p.gep[1])
                    p = p.ops[0]
                if isinstance(p, Inst) and p.op == "alloca":
                    self.slots.setdefault(p.id, []).append((None if var else off, i.ops[0], i))
        changed = True
        n = 0
        while changed and n < 8:
            changed = False
            n += 1
            for i in ins:
                if i.op == "store":
                    src = self.allocs(i.ops[0])
                    if src:
                        for r, path, off, ix in self.addr(i.ops[1]):
                            if r[0] in ("loc", "heap"):
                                continue
                            for a in src:
                                h = self.homes.setdefault(a, set())
                                x = (r, path + self.step(off, ix))
                                if x not in h:
                                    h.add(x)
                                    changed = True
        for i in ins:
            if i.op == "store":
                w = [(r, path + self.step(off, ix), ix) for r, path, off, ix in self.addr(i.ops[1]) if r[0] != "loc"]
                if w:
                    self.writes.append((i, w, "store", i.ops[0], None))
            elif i.op == "call" and i.cname and (i.cname.startswith(("llvm.memcpy", "llvm.memmove")) or i.cname in ("strncpy", "strcpy", "memcpy", "memmove", "strlcpy", "snprintf", "nostr_hex_decode")):
                n = i.cname
                src, ln = (i.ops[1], i.ops[2] if len(i.ops) > 2 else None) if n != "snprintf" else (i.ops[3] if len(i.ops) > 3 else None, i.ops[1])
                if n == "nostr_hex_decode":
                    dst, src, ln = i.ops[1], i.ops[0], i.ops[2]
                else:
                    dst = i.ops[0]
                w = [(r, path + self.step(off, ix), ix) for r, path, off, ix in self.addr(dst) if r[0] != "loc"]
                if w and src is not None:
                    self.writes.append((i, w, n.split(".")[1] if n.startswith("llvm.") else n, src, ln))

    def allocs(self, v, seen=()):
        if not isinstance(v, Inst) or v in seen:
            return set()
        if v.op == "call":
            return {v} if v.cname in ALLOC else set()
        if v.op in ("phi", "select", "bitcast", "freeze"):
            out = set()
            for x in ([x for x, b in v.inc] if v.op == "phi" else v.ops[1:] if v.op == "select" else v.ops):
                out |= self.allocs(x, seen + (v,))
            return out
        if v.op == "load":
            out = set()
            for r, path, off, ix in self.addr(v.ops[0]):
                if r[0] == "loc":
                    for o, x, s in self.slots.get(r[1], ()):
                        if o is None or o == off:
                            out |= self.allocs(x, seen + (v,))
            return out
        return set()
