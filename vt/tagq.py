"""Questions about an event's tags: a tag is passed over only for a reason, an answer comes from a tag that was found to match.

Terms are brought to a normal form: an address is a sum of terms with a constant, a load is ("L", address, size); the tag
a loop is at is the address tags + 16*index (or the pointer the loop advances)."""
import esp, gate, terms
from esp import mk
from ir import Inst, Const, Arg


def norm(t, memo=None):
    """normal form of a term: ("+", const, ((term, factor), ...)) or an atom"""
    h = t[0]
    if h == "gep":
        return plus(norm(t[1]), cst(t[2]))
    if h == "gepv":
        r = plus(norm(t[1]), cst(t[2]))
        for x, s in t[3]:
            r = plus(r, times(norm(x), s))
        return r
    if h == "c":
        return cst(t[1] - (1 << 64) if t[1] >= 1 << 63 else t[1])
    if h in ("add", "sub") and len(t) == 3:
        return plus(norm(t[1]), times(norm(t[2]), 1 if h == "add" else -1))
    if h in ("mul", "shl") and len(t) == 3:
        for a, b in ((1, 2), (2, 1)):
            if t[b][0] == "c" and (h == "mul" or b == 2):
                return times(norm(t[a]), t[b][1] if h == "mul" else 1 << t[b][1])
    if h == "mem" and len(t) >= 4 and t[3] is not None:
        return load(plus(norm(t[1]), cst(t[2])), t[3])
    if h == "ld":
        return load(norm(t[1]), t[2])
    if h == "mem" and len(t) >= 4:
        return ("text", plus(norm(t[1]), cst(t[2])))
    if h == "at":
        return ("text", norm(t[1]))
    return ("+", 0, ((tuple(norm(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t), 1),))


def cst(k):
    return ("+", k, ())


def atom(a):
    return ("+", 0, ((a, 1),))


def load(addr, n):
    return atom(("L", addr, n))


def plus(a, b, f=1):
    d = dict(a[2])
    for x, k in b[2]:
        d[x] = d.get(x, 0) + k * f
        if not d[x]:
            del d[x]
    return ("+", a[1] + b[1] * f, tuple(sorted(d.items(), key=repr)))


def times(a, k):
    return ("+", a[1] * k, tuple((x, n * k) for x, n in a[2])) if k else cst(0)


def tags_of(L, ev):
    return load(plus(ev, cst(L.off[("nostr_event", "tags")][0])), 8)


def count_of(L, ev):
    return load(plus(ev, cst(L.off[("nostr_event", "tags_count")][0])), 8)


class TagQ(gate.GateClient):
    """need: how many strings a tag must have; name: term of the wanted name; binary: values must be 64 hex digits"""

    def __init__(self, P, fn, L, need, name, ev, binary=False, room=None, found=()):
        gate.GateClient.__init__(self, P, fn, lambda E, st, v: [st])
        self.L, self.need, self.name, self.binary, self.room = L, need, name, binary, room
        self.ev = ev
        self.base(ev)
        self.ts_ = {}
        self.found = found
        self.heads = {}
        info = esp.info(fn)
        for b in info.headers:
            for p in b.insts:
                if p.op == "phi":
                    self.heads.setdefault(b, []).append(p)
        self.skip = []
        self.nit = 0
        self.nstore = 0
        self.wrong = []

    TAG, REC = 16, "struct.nostr_tag"

    def base(self, ev):
        self.tags, self.cnt = tags_of(self.L, ev), count_of(self.L, ev)

    # -- the tags a position may stand for
    def at(self, E, st, p):
        t = self.pos(E, st, p)
        return t if p.ty == "ptr" else plus(self.tags, times(t, self.TAG))

    def reasons(self, E, st, T):
        """why the tag at T need not be part of the answer"""
        N, V = load(plus(T, cst(8)), 8), load(T, 8)
        name, val = load(V, 8), load(plus(V, cst(8)), 8)
        out = set()
        for p, a, b in st.ts.F:
            for q, x, y in ((p, a, b), (gate.SW[p], b, a)):
                if x[0] == "c":
                    continue
                nx = norm(x)
                k = y[1] if y[0] == "c" else None
                if nx == N and k is not None:
                    if q == "ult" and k <= self.need or q == "ule" and k < self.need or q == "eq" and k < self.need:
                        out.add("short")
                    if q == "uge" and k >= self.need or q == "ugt" and k >= self.need - 1 or q == "eq" and k >= self.need or q == "ne" and k == 0 and self.need == 1:
                        out.add("long")
                if k == 0 and q == "eq" and nx in ((N, V, name) + ((val,) if self.need > 1 else ())):
                    out.add("null")
                if x[0] == "strcmp" and k == 0:
                    for u, w in ((x[1], x[2]), (x[2], x[1])):
                        if self.text(u) == name and self.isname(w):
                            out.add("differs" if q == "ne" or q in ("slt", "sgt", "ult", "ugt") else "match" if q == "eq" else "")
                # the first characters, one by one
                if x[0] in ("mem", "ld") and nx[2] and nx[2][0][0][0] == "L" and nx[2][0][0][2] == 1 and len(nx[2]) == 1 and nx[1] == 0:
                    ad = nx[2][0][0][1]
                    d = plus(ad, name, -1)
                    if not d[2] and q == "ne" and d[1] >= 0:
                        lit = self.name[1] if self.name[0] == "s" else None
                        if lit is not None and d[1] <= len(lit) and k == (lit[d[1]:d[1] + 1].encode("latin1") or b"\0")[0]:
                            out.add("differs")
                        if lit is None and k is None and norm(y) == load(plus(norm(self.name[1]), cst(d[1])), 1):
                            out.add("differs")
                    if not d[2] and q == "eq" and self.name[0] == "s" and 0 <= d[1] <= len(self.name[1]) and k == (self.name[1][d[1]:d[1] + 1].encode("latin1") or b"\0")[0]:
                        out.add(("ch", d[1]))
                if x[0] in ("nostr_validate_hex64",) and self.isval(x[1], val):
                    if q == "eq" and k == 0:
                        out.add("invalid")
                    if q == "ne" and k == 0:
                        out.add("valid")
                if x[0] == "strlen" and self.isval(x[1], val) and q == "ne" and k == 64:
                    out.add("invalid")
                if x[0] in ("nostr_hex_decode", "nostr_hex_to_bytes") and len(x) > 2 and self.isval(x[1], val):
                    want = 32 if x[0] == "nostr_hex_decode" else 0
                    if q == "ne" and k == want:
                        out.add("invalid")
                    if q == "eq" and k == want:
                        out.add("valid")
        if self.name[0] == "s" and all(("ch", j) in out for j in range(len(self.name[1]) + 1)):
            out.add("match")
        return out

    def text(self, t):
        """what the string's address is"""
        if t and t[0] in ("mem", "at"):
            n = norm(t)
            if n[0] == "text":
                return n[1]
        return None

    def isval(self, t, val):
        return self.text(t) == val or norm(t) == val

    def isname(self, t):
        if self.name[0] == "s":
            return t == self.name
        return self.text(t) == norm(self.name[1])

    def entry_u(self, u):
        return dict(u) if isinstance(u, tuple) else {}

    def on_phi(self, E, st, phis):
        blk = phis[0].bb if phis else None
        if blk in self.heads:
            self.arrive(E, st, blk, phis)
        terms.TermClient.on_phi(self, E, st, phis)

    def on_block(self, E, st, blk):
        """what the loop's positions are in this round"""
        if blk in self.heads:
            m = tuple(("pos", p.id, self.vterm(E, st, p)) for p in self.heads[blk])
            ids = {p.id for p in self.heads[blk]}
            st.ts = st.ts.with_(u=tuple(x for x in (st.ts.u or ()) if not (x[0] in ("pos", "val") and x[1] in ids)) + m)
        for b, ps in self.heads.items():
            for p in ps:
                # a position that turned out to have one value only
                k = E.ev(st, p) if b is not blk and p in E.info.live[blk] else None
                if k is not None and not any(x[0] == "val" and x[1] == p.id for x in st.ts.u or ()):
                    st.ts = st.ts.with_(u=tuple(st.ts.u or ()) + (("val", p.id, k),))
        return gate.GateClient.on_block(self, E, st, blk)

    def pos(self, E, st, p):
        for x in st.ts.u or ():
            if x[0] == "pos" and x[1] == p.id:
                return norm(x[2])
        return norm(self.vterm(E, st, p))

    def arrive(self, E, st, blk, phis):
        src = None
        for T, p in self.cands(E, st, blk):
            u = st.ts.u or ()
            if not any(x[0] == "in" and x[1] == blk.name for x in u):
                st.ts = st.ts.with_(u=tuple(u) + (("in", blk.name, p.id),))
                return
            self.nit += 1
            r = self.reasons(E, st, T)
            stored = any(x[0] == "got" for x in u)
            rej = r & {"short", "null", "differs"} or self.binary and "invalid" in r
            acc = "match" in r and "long" in r and (not self.binary or "valid" in r)
            moved = self.moved(E, st, blk, p)
            if moved and not acc:
                self.skip.append((blk, "a tag that was not found to match is counted", E.trail_lines(st)))
            elif not moved and not rej:
                self.skip.append((blk, "a tag that may match is passed over", E.trail_lines(st)))
            elif stored and not moved:
                self.skip.append((blk, "a value is put into the answer and not counted", E.trail_lines(st)))
            if any(x[0] == "got" for x in u):
                st.ts = st.ts.with_(u=tuple(x for x in u if x[0] != "got"))
            return

    def cands(self, E, st, blk):
        """(address of the tag the loop is at, the position)"""
        out = []
        for p in self.heads[blk]:
            if p.ty == "ptr" or p.w == 64:
                steps = [self.step(v, p) for v, b in p.inc]
                if 1 in steps or self.TAG in steps:
                    T = self.at(E, st, p)
                    if self.used(p):
                        out.append((T, p))
        return out

    def step(self, v, p):
        n = 0
        k = 0
        while isinstance(v, Inst) and v is not p and n < 6:
            n += 1
            if v.op == "add" and isinstance(v.ops[1], Const):
                k, v = k + v.ops[1].s, v.ops[0]
            elif v.op == "gep" and not v.gep[1]:
                k, v = k + v.gep[0], v.ops[0]
            else:
                return None
        return k if v is p else None

    def used(self, p):
        """does it index the event's tags?"""
        if p in self.ts_:
            return self.ts_[p]
        r = False
        for i in self.fn.insts():
            if i.op == "gep" and i.gep[1] and p.ty != "ptr" and any(s == self.TAG and self.lin(x) is p for x, s in i.gep[1]):
                r = True
            if p.ty == "ptr" and i.op == "gep" and i.sf and i.sf[0] == self.REC and i.ops[0] is p:
                r = True
        self.ts_[p] = r
        return r

    def lin(self, v):
        from filt import lin
        return lin(v)[0]

    def moved(self, E, st, blk, p):
        """does another position of the loop move on (an element was counted)?"""
        return any(q is not p and q.w == 64 and q.ty != "ptr" and not self.still(st, q, self.pos(E, st, q), self.nextval(E, st, q)) for q in self.heads[blk])

    def still(self, st, q, old, new):
        return old == new or any(x[0] == "val" and x[1] == q.id and new == cst(x[2]) for x in st.ts.u or ())

    def nextval(self, E, st, q):
        pred = st.trail[1] if st.trail else None
        for v, b in q.inc:
            if b is pred:
                if E.res(st, v) is q:
                    return self.pos(E, st, q)
                return norm(self.vterm(E, st, v))
        return norm(self.vterm(E, st, q))

    def on_store(self, E, st, i, base, off, size, val):
        t = norm(self.vterm(E, st, val)) if not (isinstance(val, Const) and val.kind == "undef") else None
        if t is not None and size == 8 and self.room is not None and t[1] == 0 and len(t[2]) == 1 and t[2][0][0][0] == "L":
            a = norm(self.vterm(E, st, i.ops[1])) if len(i.ops) > 1 else None
            self.nstore += 1
            ok = False
            for b in self.heads:
                for T, p in self.cands(E, st, b):
                    r = self.reasons(E, st, T)
                    val_ = load(plus(load(T, 8), cst(8)), 8)
                    ctr = [q for q in self.heads[b] if q is not p and q.ty != "ptr" and a == plus(norm(("arg", self.room[0])), times(self.pos(E, st, q), 8))]
                    if t == val_ and "match" in r and "long" in r and ctr:
                        ok = True
            if not ok:
                self.wrong.append((i, "the value put into the answer is not the next matching tag's", E.trail_lines(st)))
            st.ts = st.ts.with_(u=tuple(st.ts.u or ()) + (("got",),))
        return terms.TermClient.on_store(self, E, st, i, base, off, size, val)

    def join_u(self, x, y):
        return x if x == y else tuple(z for z in (x or ()) if z in (y or ()))


class GenQ(TagQ):
    """the tag constraints of a filter, by letter"""
    TAG, REC = 24, "struct.nostr_generic_tag_filter_t"

    def base(self, ev):
        o = self.L.off
        self.tags = load(plus(ev, cst(o[("nostr_filter_t", "generic_tags")][0])), 8)
        self.cnt = load(plus(ev, cst(o[("nostr_filter_t", "generic_tags_count")][0])), 8)

    def reasons(self, E, st, T):
        n, out = load(plus(T, cst(self.L.off[("nostr_generic_tag_filter_t", "tag_name")][0])), 1), {"long"}
        for p, a, b in st.ts.F:
            for q, x, y in ((p, a, b), (gate.SW[p], b, a)):
                if x[0] != "c" and norm(x) == n and y == self.name[1]:
                    out.add("match" if q == "eq" else "differs" if q in ("ne", "slt", "sgt", "ult", "ugt") else "")
        return out
