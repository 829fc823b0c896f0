"""Documents written as JSON: which member carries which field.

Along every path the calls that attach members and array items are recorded with the normal form (tagq.norm) of the
attached value; when a document is printed the recorded members are compared with the field each member stands for."""
import esp, gate, tagq, terms, walk
from tagq import norm, cst, load, plus, times, atom
from ir import Inst, Const, Arg

PRINT = ("cJSON_Print", "cJSON_PrintUnformatted", "cJSON_PrintBuffered", "cJSON_PrintPreallocated")
MAKE = {"cJSON_CreateObject": "object", "cJSON_CreateArray": "array"}
LEAF = {"cJSON_CreateString": "str", "cJSON_CreateNumber": "num", "cJSON_CreateBool": "bool", "cJSON_CreateStringReference": "str",
        "cJSON_CreateTrue": "true", "cJSON_CreateFalse": "false", "cJSON_CreateNull": "null"}
ADD = {"cJSON_AddStringToObject": "str", "cJSON_AddNumberToObject": "num", "cJSON_AddBoolToObject": "bool",
       "cJSON_AddTrueToObject": "true", "cJSON_AddFalseToObject": "false", "cJSON_AddNullToObject": "null"}
ADDNEW = {"cJSON_AddObjectToObject": "cJSON_CreateObject", "cJSON_AddArrayToObject": "cJSON_CreateArray"}
ATT = ("cJSON_AddItemToObject", "cJSON_AddItemToObjectCS")
APP = ("cJSON_AddItemToArray",)


def unfloat(E, st, v):
    v = E.res(st, v)
    while isinstance(v, Inst) and v.op in ("sitofp", "uitofp", "fpext"):
        if v.op != "fpext" and v.ty == "float" and getattr(v.ops[0], "w", 64) > 16:
            break                                   # not every such number survives as a float
        v = E.res(st, v.ops[0])
    return v


def strider(phi):
    """(start, stride) of a pointer that a loop moves on by a constant"""
    init = [v for v, p in phi.inc if not (isinstance(v, Inst) and v.op == "gep" and v.ops[0] is phi)]
    step = {v.gep[0] for v, p in phi.inc if isinstance(v, Inst) and v.op == "gep" and v.ops[0] is phi and not v.gep[1]}
    if len(init) == 1 and len(step) == 1 and len(phi.inc) == 2:
        k = step.pop()
        return (init[0], k) if k > 0 else None


class Ser(gate.GateClient):
    """u: frozenset of ("put", object, member, value) | ("seq", array, (value, ...)) ; value: (kind, normal form)
    names: members followed (None: all); arrays: record the sequences of arrays too"""
    cap = 30
    tcap = 40

    def __init__(self, P, fn, succ, names=None, seqs=False, interest=None, at_print=None, at_item=None):
        gate.GateClient.__init__(self, P, fn, succ, interest=interest)
        self.names, self.seqs = names, seqs
        self.at_print, self.at_item = at_print, at_item
        self.init = self.init.with_(u=frozenset())
        self.badp = []
        self.prints = 0
        self.lv = {}
        self.bodies = None
        self.lb = None

    def upd(self, st, add=(), rem=()):
        st.ts = st.ts.with_(u=(st.ts.u - frozenset(rem)) | frozenset(add))

    def flag(self, E, st, i, why):
        self.badp.append((i, why, E.trail_lines(st)))

    def value(self, E, st, kind, v):
        if kind == "str":
            b, o = E.ptr(st, v)
            t = norm(self.vterm(E, st, v))
            if isinstance(b, Inst) and b.op == "alloca":
                return ("text", self.hexof(E, st, b, o, v))
            return ("str", self.alts(E, st, v, t))
        v = unfloat(E, st, v)
        while kind == "bool" and isinstance(v, Inst) and v.op == "select" and [x.v if isinstance(x, Const) and x.kind == "int" else None for x in v.ops[1:]] == [1, 0]:
            v = E.res(st, v.ops[0])
        return (kind, self.alts(E, st, v, norm(self.vterm(E, st, v))))

    def alts(self, E, st, v, t, d=0):
        """a value chosen earlier between several: all of them"""
        v = E.res(st, v)
        if isinstance(v, Inst) and v.op in ("phi", "select") and d < 4 and t == atom(("v", v.id)):
            out = set()
            for x in ([x for x, p in v.inc] if v.op == "phi" else v.ops[1:]):
                x = E.res(st, x)
                y = None
                if isinstance(x, Inst) and x.op == "load":
                    b, o = E.ptr(st, x.ops[0])
                    if isinstance(b, Arg) and o is not None and self.cont(E, st, b, o, x.size)[0] == "mem":
                        y = load(plus(norm(("arg", b.idx)), cst(o)), x.size)
                y = y or self.alts(E, st, x, norm(self.vterm(E, st, x)), d + 1)
                out |= set(y[1]) if y[0] == "alts" else {y}
            return ("alts", tuple(sorted(out, key=repr))) if len(out) > 1 else out.pop()
        return t

    # ---- buffers filled with hex digits
    def hexof(self, E, st, b, o, v):
        c = self.cont(E, st, b, o, None) if o is not None else ("?",)
        if c[0] == "hex":
            return ("hex", c[1], c[2])
        if c[0] == "seq":
            for oo, l, t in c[1:]:
                if t[0] == "hex" and oo == 0:
                    return ("hex", t[1], t[2])
        for e in st.ts.u:
            if e[0] == "hexl" and e[2] == terms.bkey(b) and e[3] == o:
                n = None
                for p, x, y in st.ts.F:
                    for q, a, bb in ((p, x, y), (gate.SW[p], y, x)):
                        if a == ("v", e[1]) and bb[0] == "c" and q in ("uge", "sge", "eq") and (n is None or bb[1] > n):
                            n = bb[1]
                if n is not None and all(x[2] >= o + 2 * n for x in st.ts.u if x[0] == "nul" and x[1] == e[2]):
                    return ("hex", e[4], n)
        return ("?",)

    def hexloop(self, E, st, i):
        """sprintf(buf + 2*k, "%02x", src[k]) : one digit pair of a loop over k"""
        n = i.cname
        fi = 2 if n == "snprintf" else 1
        fmt = self.content(E, st, i.ops[fi], None)
        b, o = E.ptr(st, i.ops[0])
        if not (isinstance(b, Inst) and b.op == "alloca") or fmt not in (("s", "%02x"), ("s", "%02hhx")):
            return
        # the loop's counter as such, also where its value happens to be known
        st0, st = st, st.copy()
        for x in [x for x in st.env if isinstance(x, Inst) and x.op == "phi" and self.inside(E, x.id, i.bb)]:
            E.forget(st, x)
        d = norm(self.vterm(E, st, i.ops[0]))
        v = i.ops[fi + 1]
        while isinstance(v, Inst) and v.op in ("zext", "sext"):
            v = v.ops[0]
        s = load(norm(self.vterm(E, st, v.ops[0])), v.size) if isinstance(v, Inst) and v.op == "load" and v.bb is i.bb else norm(self.vterm(E, st, v))
        st = st0
        loc = norm(("loc", b.id))
        dd = plus(d, loc, -1)
        if len(dd[2]) != 1 or dd[2][0][1] != 2 or len(s[2]) != 1 or s[1] or s[2][0][0][0] != "L" or s[2][0][0][2] != 1:
            return
        k = dd[2][0][0]
        src = plus(s[2][0][0][1], atom(k), -1)
        if any(x == k for x, _ in src[2]) or k[0] != "v":
            return
        phi = next((p for blk in self.fn.blocks for p in blk.insts if p.id == k[1]), None)
        if phi is None or phi.op != "phi" or not self.upcount(phi):
            return
        bk = terms.bkey(b)
        old = [e for e in st.ts.u if e[0] in ("hexl", "did") and e[2] == bk and e[1] != k[1] or e[0] == "nul" and e[1] == bk]
        self.upd(st, [("did", k[1], bk, dd[1], src)], old)

    def on_phi(self, E, st, phis):
        for p in phis:
            if self.inside(E, p.id, None):
                u = st.ts.u
                if ("in", p.id) not in u:
                    self.upd(st, [("in", p.id), ("fresh", p.id)])
                    continue
                did = [e for e in u if e[0] == "did" and e[1] == p.id]
                hexl = [e for e in u if e[0] == "hexl" and e[1] == p.id]
                new = [("hexl",) + e[1:] for e in did]
                if ("fresh", p.id) not in u:
                    new = [e for e in new if e in hexl]
                self.upd(st, new, did + hexl + [("fresh", p.id)])
        gate.GateClient.on_phi(self, E, st, phis)

    def whole(self, E, st, i):
        """a whole text copied into a caller's buffer, its terminator still to come"""
        b, o = E.ptr(st, i.ops[0])
        if not isinstance(b, Arg):
            return
        old = [e for e in st.ts.u if e[0] == "whole" and e[1] == b.idx]
        n = norm(self.vterm(E, st, i.ops[2]))
        new = []
        if o == 0 and not n[1] and len(n[2]) == 1 and n[2][0][0][0] == "strlen" and n[2][0][1] == 1:
            src = self.vterm(E, st, i.ops[1])
            if repr(n[2][0][0][1:]).find(repr(norm(src))) >= 0 or repr(src) in repr(n[2][0][0]):
                new = [("whole", b.idx, repr(src), False, n)]
        self.upd(st, new, old)

    def on_store(self, E, st, i, base, off, size, val):
        if isinstance(base, Arg):
            for e in [e for e in st.ts.u if e[0] == "whole" and e[1] == base.idx]:
                a = plus(norm(self.vterm(E, st, i.ops[1])), norm(("arg", base.idx)), -1)
                end = size == 1 and a == e[4] and E.ev(st, val) == 0
                self.upd(st, [e[:3] + (True,) + e[4:]] if end else [], [e])
        if isinstance(base, Inst) and base.op == "alloca":
            bk = terms.bkey(base)
            if any(e[0] in ("hexl", "did") and e[2] == bk for e in st.ts.u):
                if off is not None and size == 1 and E.ev(st, val) == 0:
                    self.upd(st, [("nul", bk, off)])
                else:
                    self.upd(st, (), [e for e in st.ts.u if e[0] in ("hexl", "did") and e[2] == bk])
        return gate.GateClient.on_store(self, E, st, i, base, off, size, val)

    def upcount(self, phi):
        init = [v for v, p in phi.inc if isinstance(v, Const)]
        step = [v for v, p in phi.inc if not isinstance(v, Const)]
        return len(init) == 1 and init[0].v == 0 and all(isinstance(s, Inst) and s.op == "add" and s.ops[0] is phi and isinstance(s.ops[1], Const) and s.ops[1].v == 1 for s in step)

    # ---- calls
    def user_call(self, E, st, i):
        n = i.cname
        u = st.ts.u
        if n in MAKE or n in LEAF or n in ADDNEW:
            key = (n if n in MAKE or n in LEAF else ADDNEW[n], i.id)
            dead = [e for e in u if self.about(e, key)]
            vals = [self.value(E, st, LEAF[n], i.ops[0])] if n in LEAF and i.ops else []
            self.call_model(E, st, i)
            self.upd(st, [("val", key, vals[0] if vals else (LEAF[n],))] if n in LEAF else [], dead)
            L = dict(st.ts.L)
            L[i.id] = ("json",) + key
            st.ts = st.ts.with_(L=L)
            if n in ADDNEW:
                self.put(E, st, i, self.node(E, st, i.ops[0]), self.name(E, st, i.ops[1]), ("node", key))
            return [st]
        if n in ADD:
            o, nm = self.node(E, st, i.ops[0]), self.name(E, st, i.ops[1])
            v = self.value(E, st, ADD[n], i.ops[2]) if len(i.ops) > 2 else (ADD[n],)
            self.call_model(E, st, i)
            self.put(E, st, i, o, nm, v)
            return [st]
        if n in ATT:
            o, nm, k = self.node(E, st, i.ops[0]), self.name(E, st, i.ops[1]), self.child(E, st, i.ops[2])
            none = E.ev(st, i.ops[2]) == 0
            self.call_model(E, st, i)
            if none:
                return list(E.acmp(st, "eq", i, esp.mk(0, i.w)))
            self.put(E, st, i, o, nm, k)
            return [st]
        if n in APP:
            o, k = self.node(E, st, i.ops[0]), self.child(E, st, i.ops[1])
            if self.at_item and o is not None:
                self.at_item(self, E, st, i, o, k)
            none = E.ev(st, i.ops[1]) == 0
            self.call_model(E, st, i)
            if none:
                return list(E.acmp(st, "eq", i, esp.mk(0, i.w)))
            if self.inloop(E, i.bb):
                k = ("loop", i.id)
            if self.seqs and o is not None:
                old = [e for e in st.ts.u if e[0] == "seq" and e[1] == o]
                q = old[0][2] if old else ()
                q = q[:-1] + (("many", k),) if q and q[-1] in (k, ("many", k)) else q + (k,)
                self.upd(st, [("seq", o, q)], old)
            return [st]
        if n in PRINT:
            self.prints += 1
            o = self.node(E, st, i.ops[0])
            if self.at_print:
                self.at_print(self, E, st, i, o)
            self.call_model(E, st, i)
            self.upd(st, [("printed", i.id, o)], [e for e in st.ts.u if e[0] == "printed"])
            return [st]
        if n == "nostr_event_to_json":
            t = norm(self.vterm(E, st, i.ops[0]))
            self.call_model(E, st, i)
            b, o = E.ptr(st, i.ops[1])
            if o is not None:
                self.wr(E, st, b, o, 8, ("evjson", t))
            return [st]
        if n in ("cJSON_Parse", "cJSON_ParseWithLength"):
            t = self.vterm(E, st, i.ops[0])
            self.call_model(E, st, i)
            if t[0] == "evjson":
                L = dict(st.ts.L)
                L[i.id] = ("json", "event", t[1])
                st.ts = st.ts.with_(L=L)
            return [st]
        if n in ("sprintf", "snprintf") and len(i.ops) > 2:
            self.call_model(E, st, i)
            self.hexloop(E, st, i)
            return [st]
        if n in ("llvm.memset.p0.i64",) or n and n.startswith(("llvm.memcpy", "llvm.memmove")):
            b, o = E.ptr(st, i.ops[0])
            if not n.startswith("llvm.memset"):
                self.whole(E, st, i)
            self.upd(st, (), [e for e in st.ts.u if e[0] in ("hexl", "did") and e[2] == terms.bkey(b)])
            return None
        return gate.GateClient.user_call(self, E, st, i)

    def on_push(self, E, st, blk):
        """forget what later steps cannot ask for: contents of local buffers other than hex text, values no longer used"""
        gate.GateClient.on_push(self, E, st, blk)
        s = st.ts
        C = {k: v for k, v in s.C.items() if not (isinstance(k[0], Inst) and k[0].op == "alloca") or v[1][0] in ("hex", "seq", "evjson")}
        need = self.lv.get(blk)
        if need is None:
            need = set()
            for x in E.info.live[blk]:
                need |= {y.id for y in E.info.dep(x) if isinstance(y, Inst)} | {x.id}
            self.lv[blk] = need
        ext = set()
        for t in st.env.values():
            if isinstance(t, Inst):
                ext |= {y.id for y in E.info.dep(t) if isinstance(y, Inst)} | {t.id}
        L = {k: t for k, t in s.L.items() if k in need or k in ext}
        u = frozenset(e for e in s.u if not (e[0] in ("in", "fresh", "did") and not self.inside(E, e[1], blk) or
                                             e[0] == "val" and e[1][1] not in need and e[1][1] not in ext))
        if len(C) != len(s.C) or len(L) != len(s.L) or len(u) != len(s.u):
            st.ts = s.with_(C=C, L=L, u=u)

    def inloop(self, E, blk):
        if self.lb is None:
            self.lb = set()
            for h in E.info.headers:
                self.lb |= walk.loop_body(E.info, h)
        return blk in self.lb

    def near(self, v):
        out = set()
        while isinstance(v, Inst) and v.op in ("zext", "sext", "bitcast", "freeze", "phi", "select") and v not in out:
            out.add(v)
            v = v.ops[0] if v.op not in ("phi", "select") else None
        return out

    def snorm(self, E, st, v, d=0):
        """normal form of a value by how it is computed, with loop counters as themselves"""
        if d == 0:
            st = st.copy()
            for x in [x for x in st.env if isinstance(x, Inst) and x.op == "phi" and (self.inloop(E, x.bb) or x.bb is not None and x in self.near(v))]:
                E.forget(st, x)
        v = E.res(st, v)
        if isinstance(v, Const):
            return cst(v.s) if v.kind == "int" else cst(0)
        if isinstance(v, Inst) and d < 24:
            if v.op == "load":
                return load(self.snorm(E, st, v.ops[0], d + 1), v.size)
            if v.op == "gep":
                r = plus(self.snorm(E, st, v.ops[0], d + 1), cst(v.gep[0]))
                for x, s in v.gep[1]:
                    r = plus(r, times(self.snorm(E, st, x, d + 1), s))
                return r
            if v.op in ("zext", "sext", "freeze", "bitcast", "sitofp", "uitofp"):
                return self.snorm(E, st, v.ops[0], d + 1)
            if v.op in ("add", "sub"):
                return plus(self.snorm(E, st, v.ops[0], d + 1), self.snorm(E, st, v.ops[1], d + 1), 1 if v.op == "add" else -1)
            if v.op in ("mul", "shl") and isinstance(v.ops[1], Const):
                return times(self.snorm(E, st, v.ops[0], d + 1), v.ops[1].v if v.op == "mul" else 1 << v.ops[1].v)
            if v.op in ("phi", "select") and not (v.op == "phi" and any(v.bb is h for h in E.info.headers)):
                xs = {self.snorm(E, st, x, d + 1) for x in ([x for x, p in v.inc] if v.op == "phi" else v.ops[1:])}
                return xs.pop() if len(xs) == 1 else ("alts", tuple(sorted(xs, key=repr)))
            if v.op == "phi" and strider(v):
                b, k = strider(v)
                return plus(self.snorm(E, st, b, d + 1), times(atom(("v", v.id)), k))
            if v.op in ("phi", "call"):
                return atom(("v", v.id))
        return norm(self.vterm(E, st, v))

    def inside(self, E, pid, blk):
        if self.bodies is None:
            self.bodies = {}
            for h in E.info.headers:
                body = walk.loop_body(E.info, h)
                if any(i.op == "call" and i.cname in ("sprintf", "snprintf") for b in body for i in b.insts):
                    for p in h.insts:
                        if p.op == "phi" and p.w and len(p.inc) == 2 and self.upcount(p):
                            self.bodies[p.id] = body
        return pid in self.bodies and (blk is None or blk in self.bodies[pid])

    def on_load(self, E, st, i, base, off):
        r = gate.GateClient.on_load(self, E, st, i, base, off)
        m = st.mem.get((base, off)) if off is not None else None
        if m and m[0] == i.size and isinstance(m[1], Inst) and m[1] is not i and m[1].op == "load" and m[1].id not in st.ts.L:
            t = self.cont(E, st, base, off, i.size)
            if t[0] in ("mem", "evjson"):
                L = dict(st.ts.L)
                L[m[1].id] = t
                st.ts = st.ts.with_(L=L)
        return r

    def about(self, e, key):
        return e[0] in ("put", "seq", "val") and e[1] == key

    def node(self, E, st, v):
        t = self.vterm(E, st, v)
        return t[1:] if t[0] == "json" else None

    def child(self, E, st, v):
        k = self.node(E, st, v)
        if k is None:
            return ("?", norm(self.vterm(E, st, v)))
        if k[0] in LEAF:
            for e in st.ts.u:
                if e[0] == "val" and e[1] == k:
                    return e[2]
        return ("node", k)

    def name(self, E, st, v):
        t = self.content(E, st, v, None)
        return t[1] if t[0] == "s" else None

    def put(self, E, st, i, o, nm, v):
        if o is None or self.names is not None and nm not in self.names:
            return
        same = [e for e in st.ts.u if e[0] == "put" and e[1] == o and e[2] == nm]
        if same and nm is not None:
            self.flag(E, st, i, "member \"%s\" is added twice" % nm)
        self.upd(st, [("put", o, nm, v)])

    def drop(self, st, i):
        gate.GateClient.drop(self, st, i)

    def stale(self, st, idl):
        g = frozenset(idl)
        u = st.ts.u
        if u:
            keep = frozenset(e for e in u if e[0] not in ("put", "seq", "val") or not (g & deep_ids(e)))
            # a recorded value that referred to an older round of a loop: forget what it was, keep that it was
            lost = [e for e in u if e not in keep]
            new = []
            for e in lost:
                if e[0] == "put":
                    new.append(e[:3] + (("old",) + e[3][:1],))
                elif e[0] == "seq":
                    new.append(("seq", e[1], tuple(("old",) if g & deep_ids(x) else x for x in e[2])))
            if lost:
                st.ts = st.ts.with_(u=keep | frozenset(new))
        gate.GateClient.stale(self, st, idl)

    def join_u(self, x, y):
        if x is None or y is None:
            return None
        r = x & y
        for a, b in ((x, y), (y, x)):
            r |= frozenset(e for e in a if e[0] == "hexl" and ("fresh", e[1]) in b)
        return r


def deep_ids(t):
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] in ("v", "?") and isinstance(x[1], int):
                out.add(x[1])
            elif len(x) >= 3 and x[0] == "ret" and isinstance(x[2], int):
                out.add(x[2])
            todo += x
    return out


def phi_of(c, t):
    """the loop counter a term is, if it counts up from 0 by 1"""
    if t[1] == 0 and len(t[2]) == 1 and t[2][0][1] == 1 and t[2][0][0][0] == "v":
        k = t[2][0][0][1]
        p = next((p for b in c.fn.blocks for p in b.insts if p.id == k), None)
        if p is not None and p.op == "phi" and (c.upcount(p) or strider(p)):
            return p
    return None


def index_of(t, base, size):
    """i if t = base + size*i"""
    r = plus(t, base, -1)
    if r[1] % size or any(n % size for _, n in r[2]):
        return None
    return ("+", r[1] // size, tuple((x, n // size) for x, n in r[2]))


def puts(st, o, nm):
    return [e[3] for e in st.ts.u if e[0] == "put" and e[1] == o and e[2] == nm]


def parent(st, o):
    """the object a node was attached to, and under which name"""
    return [(e[1], e[2]) for e in st.ts.u if e[0] == "put" and e[3] == ("node", o)]
